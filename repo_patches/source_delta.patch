From 7e891a45b29ccadfa4091b61dd99df095af2f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 01/52] fix: write pass-through sections back verbatim

The body lines of %addon and other NullSections carry their own newlines, so
joining them with another one doubled every line, consecutive sections ran
together as "%end%addon", and header words lost their quoting.
---
 pykickstart/sections.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 12cd900..f718449 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -29,6 +29,7 @@ treated just the same as a predefined one by the kickstart parser.  All that
 is necessary is to create a new subclass of Section and call
 parser.registerSection with an instance of your new class.
 """
+import shlex
 import warnings
 from pykickstart.constants import KS_SCRIPT_PRE, KS_SCRIPT_POST, KS_SCRIPT_TRACEBACK, \
                                   KS_SCRIPT_PREINSTALL, KS_SCRIPT_ONERROR, \
@@ -133,11 +134,12 @@ class NullSection(Section):
         self._body.append(line)
 
     def finalize(self):
-        body = "\n".join(self._body)
-        if body:
-            s = "%s\n%s\n%%end" % (" ".join(self._args), body)
-        else:
-            s = "%s\n%%end" % " ".join(self._args)
+        header = " ".join(shlex.quote(arg) for arg in self._args)
+        body = "".join(self._body)
+        if body and not body.endswith("\n"):
+            body += "\n"
+
+        s = "%s\n%s%%end\n" % (header, body)
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From 209f2202dba9404a5256ab2b85d24b22e02f0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 02/52] fix: start every section with an empty body

Lines of a script section that turned out to be empty, and lines collected
by a read that failed half-way, were prepended to the next section of the
same kind.
---
 pykickstart/sections.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index f718449..7887a8a 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -129,6 +129,7 @@ class NullSection(Section):
 
     def handleHeader(self, lineno, args):
         self._args = args
+        self._body = []
 
     def handleLine(self, line):
         self._body.append(line)
@@ -210,6 +211,11 @@ class ScriptSection(Section):
            This method may be overridden in a subclass if necessary.
         """
         Section.handleHeader(self, lineno, args)
+
+        # Whatever an empty or unfinished section left behind is not part of
+        # this one.
+        self._resetScript()
+
         op = self._getParser()
 
         ns = op.parse_args(args=args[1:], lineno=lineno)
-- 
2.43.0


From a8c88e4faf49a457c60fcf32a7d8827fcedfdbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 03/52] fix: report an empty first word as an unknown command

A line starting with a pair of quotes raised an IndexError, which is not a
kickstart error and has no line number.
---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index afabb11..7c7bd39 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -756,7 +756,7 @@ class KickstartParser(object):
                 if args[0] == "%ksappend":
                     # This is handled by the preprocess* functions, so continue.
                     continue
-                elif args[0][0] == '%':
+                elif args[0].startswith('%'):
                     # This is the beginning of a new section.  Handle its header
                     # here.
                     newSection = args[0]
-- 
2.43.0


From 0c780ae90e2d26edaaa82be6055587019598cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 04/52] fix: treat sections in included files like those in the
 main file

An included file that supplies part of a section lost its leading comments
(a #! line, say) and had its first line split as a command.  A section that an
included file opened and did not close was silently dropped, together with
whatever followed.
---
 pykickstart/parser.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 7c7bd39..3be190a 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -617,18 +617,26 @@ class KickstartParser(object):
         if line[:10] == "#platform=":
             self.handler.platform = self._line[10:].strip()
 
-    def _readSection(self, lineIter, lineno):
+    def _readSection(self, lineIter, lineno, continued=False):
+        """Read the lines of the current section.  If continued is True, the
+           section was opened in a file that includes the current one, so the
+           end of this file is not the end of the section.
+        """
         obj = self._sections[self._state]
 
         while True:
             try:
                 line = next(lineIter)
-                if line == "" and self._includeDepth == 0:
+                if line == "":
+                    if continued:
+                        break
+
                     # This section ends at the end of the file.
                     if self.version >= version.F8:
                         raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
 
                     self._finalize(obj)
+                    break
             except StopIteration:
                 break
 
@@ -736,6 +744,17 @@ class KickstartParser(object):
 
             lineno += 1
 
+            # If this file was included from inside a section, its lines belong
+            # to that section, starting with the first one that is not blank.
+            if self._includeDepth > 0 and self._state not in (STATE_COMMANDS, STATE_END):
+                if self._line.isspace():
+                    continue
+
+                lineIter.put(self._line)
+                lineno -= 1
+                lineno = self._readSection(lineIter, lineno, continued=True)
+                continue
+
             # Eliminate blank lines, whitespace-only lines, and comments.
             if self._isBlankOrComment(self._line):
                 self._handleSpecialComments(self._line)
@@ -784,10 +803,6 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
             elif self._state == STATE_END:
                 break
-            elif self._includeDepth > 0:
-                lineIter.put(self._line)
-                lineno -= 1
-                lineno = self._readSection(lineIter, lineno)
 
     def readKickstartFromString(self, s, reset=True):
         """Process a kickstart file, provided as the string str."""
-- 
2.43.0


From 62f6568985c707d10e1cf9508758a21baf777660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 05/52] fix: resume in the right context after a failed include

With missingIncludeIsFatal=False, an error inside a section of an included
file left the parser in that section for the rest of the including file.
---
 pykickstart/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 3be190a..e87f7e7 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -716,6 +716,7 @@ class KickstartParser(object):
         if not self.followIncludes:
             return
 
+        (state, depth) = (self._state, self._includeDepth)
         self._includeDepth += 1
 
         try:
@@ -727,7 +728,10 @@ class KickstartParser(object):
             if self.missingIncludeIsFatal:
                 raise
 
-        self._includeDepth -= 1
+            # Go on where the include was found, not where the error was.
+            self._state = state
+
+        self._includeDepth = depth
 
     def _stateMachine(self, lineIter):
         # For error reporting.
-- 
2.43.0


From e28dbb91a161555c520c10736f5b6fd1eaad00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 06/52] fix: keep the syntax version of scripts and packages
 per handler

The version that decides whether %end is written was a class attribute set
by the most recently created parser, so using a second parser changed what
the first handler wrote.
---
 pykickstart/base.py     | 3 +++
 pykickstart/sections.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index c9fdd3a..adccd6f 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -483,6 +483,7 @@ class BaseHandler(KickstartHandler):
         # everything else I can think of.
         self.scripts = []
         self.packages = Packages()
+        self.packages._ver = self.version
         self.platform = ""
 
         # Any sections that we do not understand but want to prevent causing errors
@@ -505,6 +506,7 @@ class BaseHandler(KickstartHandler):
         retval += KickstartHandler.__str__(self)
 
         for script in self.scripts:
+            script._ver = self.version
             script_str = script.__str__()
             if isinstance(script_str, six.text_type) and not six.PY3:
                 script_str = script_str.encode("utf-8")
@@ -516,6 +518,7 @@ class BaseHandler(KickstartHandler):
             for s in self._null_section_strings:
                 retval += s
 
+        self.packages._ver = self.version
         retval += self.packages.__str__()
 
         return retval
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 7887a8a..3d7ee12 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -202,6 +202,7 @@ class ScriptSection(Section):
 
         if self.dataObj is not None:
             s = self.dataObj(self._script["body"], **kwargs)
+            s._ver = self.version
             self._resetScript()
             self.handler.scripts.append(s)
 
-- 
2.43.0


From 981ba6b02f6ba3f6705a4789d399e9c5b0ba3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 07/52] fix: reset a command under all of its names

resetCommand left the aliases of a command (part and partition, for example)
referring to the old object.
---
 pykickstart/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index adccd6f..ebc5597 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -388,11 +388,16 @@ class KickstartHandler(KickstartObject):
         if cmdName not in self.commands:
             raise KeyError
 
-        cmdObj = self.commands[cmdName].__class__()
+        oldObj = self.commands[cmdName]
+        cmdObj = oldObj.__class__()
 
         self._setCommand(cmdObj)
-        self.commands[cmdName] = cmdObj
-        self.commands[cmdName].handler = self
+        cmdObj.handler = self
+
+        # Several names may refer to the same object.
+        for (key, val) in list(self.commands.items()):
+            if val is oldObj:
+                self.commands[key] = cmdObj
 
     def dispatcher(self, args, lineno):
         """Call the appropriate KickstartCommand handler for the current line
-- 
2.43.0


From f084080f4cdfa023a06f2974f4fe8c65e95e5922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 08/52] fix: report %packages lines that name nothing, with
 their line number

A lone "-" raised an IndexError, "@" and "@^" selected a group or an
environment without a name, and errors in package lines had no line number.
---
 pykickstart/parser.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index e87f7e7..0df96bd 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -453,6 +453,9 @@ class Packages(KickstartObject):
         # now.
         grp = " ".join(extra)
 
+        if not grp:
+            raise KickstartParseError(_("Package, group or environment name missing: %s") % line)
+
         if grp in [g.name for g in self.groupList]:
             return
 
@@ -477,6 +480,9 @@ class Packages(KickstartObject):
         for pkg in pkgList:
             stripped = pkg.strip()
 
+            if stripped in ("", "-", "@", "@^", "-@", "-@^"):
+                raise KickstartParseError(_("Package, group or environment name missing: %s") % pkg)
+
             if stripped[0:2] == "@^":
                 self.environment = stripped[2:]
             elif stripped[0] == "@":
@@ -655,7 +661,7 @@ class KickstartParser(object):
                 possibleSectionStart = line.split()[0]
                 if not self._validState(possibleSectionStart) \
                    and possibleSectionStart not in ("%end", "%include"):
-                    obj.handleLine(line)
+                    self._handleSectionLine(obj, line, lineno)
                     continue
 
                 args = shlex.split(line)
@@ -686,10 +692,22 @@ class KickstartParser(object):
             else:
                 # This is just a line within a section.  Pass it off to whatever
                 # section handles it.
-                obj.handleLine(line)
+                self._handleSectionLine(obj, line, lineno)
 
         return lineno
 
+    def _handleSectionLine(self, obj, line, lineno):
+        """Pass a line off to its section.  Sections do not know line numbers,
+           so add the line number to any error they raise.
+        """
+        try:
+            obj.handleLine(line)
+        except KickstartParseError as e:
+            if e.lineno is not None:
+                raise
+
+            raise KickstartParseError(e.message, lineno=lineno)
+
     def _validState(self, st):
         """Is the given section tag one that has been registered with the parser?"""
         return st in list(self._sections.keys())
-- 
2.43.0


From 7f30bd0b0e4319a65cf47f4c566c419aaf2f14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 09/52] fix: let the last mention of a group or package decide

Selecting a group again after excluding it left it in the list of excluded
groups as well, so it was both selected and excluded (and only excluded once
written out and read back).  The same happened to packages and groups when
several lines were added in one call, and white space after the "-@" made
it a different group.
---
 pykickstart/parser.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 0df96bd..0e82dfe 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -457,7 +457,7 @@ class Packages(KickstartObject):
             raise KickstartParseError(_("Package, group or environment name missing: %s") % line)
 
         if grp in [g.name for g in self.groupList]:
-            return
+            return grp
 
         if ns.nodefaults:
             self.groupList.append(Group(name=grp, include=constants.GROUP_REQUIRED))
@@ -466,6 +466,8 @@ class Packages(KickstartObject):
         else:
             self.groupList.append(Group(name=grp, include=constants.GROUP_DEFAULT))
 
+        return grp
+
     def add(self, pkgList):
         """Given a list of lines from the input file, strip off any leading
            symbols and add the result to the appropriate list.
@@ -484,27 +486,31 @@ class Packages(KickstartObject):
                 raise KickstartParseError(_("Package, group or environment name missing: %s") % pkg)
 
             if stripped[0:2] == "@^":
-                self.environment = stripped[2:]
+                self.environment = stripped[2:].strip()
             elif stripped[0] == "@":
-                self._processGroup(stripped[1:])
+                name = self._processGroup(stripped[1:])
+                self.excludedGroupList = [g for g in self.excludedGroupList if g.name != name]
+                excludedGroupList = [g for g in excludedGroupList if g.name != name]
             elif stripped[0] == "-":
-                if stripped[1:3] == "@^" and self.environment == stripped[3:]:
+                if stripped[1:3] == "@^" and self.environment == stripped[3:].strip():
                     self.environment = None
                 elif stripped[1] == "@":
-                    excludedGroupList.append(Group(name=stripped[2:]))
+                    name = stripped[2:].strip()
+                    self.groupList = [g for g in self.groupList if g.name != name]
+                    excludedGroupList.append(Group(name=name))
                 else:
-                    newExcludedSet.add(stripped[1:])
+                    newExcludedSet.add(stripped[1:].strip())
+                    newPackageSet.discard(stripped[1:].strip())
             else:
                 newPackageSet.add(stripped)
+                newExcludedSet.discard(stripped)
 
         # Groups have to be excluded in two different ways (note: can't use
         # sets here because we have to store objects):
-        excludedGroupNames = [g.name for g in excludedGroupList]
 
         # First, an excluded group may be cancelling out a previously given
-        # one.  This is often the case when using %include.  So there we should
-        # just remove the group from the list.
-        self.groupList = [g for g in self.groupList if g.name not in excludedGroupNames]
+        # one.  This is often the case when using %include.  That has been done
+        # above, so a later line may select the group again.
 
         # Second, the package list could have included globs which are not
         # processed by pykickstart.  In that case we need to preserve a list of
-- 
2.43.0


From 62fcbe743c1986ec45e781a48befb6f6a01d5209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 10/52] fix: quote section header options when writing them

An interpreter or log file with blanks in it could not be read back.
---
 pykickstart/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 0e82dfe..bcf9d91 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -243,11 +243,11 @@ class Script(KickstartObject):
             retval += '\n%onerror'
 
         if self.interp != "/bin/sh" and self.interp:
-            retval += " --interpreter=%s" % self.interp
+            retval += " --interpreter=%s" % shlex.quote(self.interp)
         if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
             retval += " --nochroot"
         if self.logfile is not None:
-            retval += " --logfile=%s" % self.logfile
+            retval += " --logfile=%s" % shlex.quote(self.logfile)
         if self.errorOnFail:
             retval += " --erroronfail"
 
@@ -390,7 +390,7 @@ class Packages(KickstartObject):
         if self.handleBroken == constants.KS_BROKEN_IGNORE:
             retval += " --ignorebroken"
         if self.instLangs is not None:
-            retval += " --inst-langs=%s" % self.instLangs
+            retval += " --inst-langs=%s" % (self.instLangs and shlex.quote(self.instLangs))
         if self.multiLib:
             retval += " --multilib"
         if self.excludeWeakdeps:
-- 
2.43.0


From 12d01d10c31d41f22d1b38157bec03716545a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 11/52] fix: forget the directory of the previous kickstart
 file

A relative %include in a string was looked up next to whatever file the same
parser had read before.
---
 pykickstart/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index bcf9d91..d2d46a0 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -580,6 +580,7 @@ class KickstartParser(object):
         """Reset the internal variables of the state machine for a new kickstart file."""
         self._state = STATE_COMMANDS
         self._includeDepth = 0
+        self.currentdir = {}
 
     def getSection(self, s):
         """Return a reference to the requested section (s must start with '%'s),
-- 
2.43.0


From beff0a5e479309b355545bcbbf077395d295a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 12/52] fix: warn about old %packages option names also when
 written with =

--instLangs=... was accepted without the deprecation warning that
--instLangs ... gives.
---
 pykickstart/sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 3d7ee12..a952cbe 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -790,7 +790,7 @@ class PackageSection(Section):
 
         for option, new_option in \
                 {"--instLangs": "--inst-langs", "--excludeWeakdeps": "--exclude-weakdeps"}.items():
-            if option in args:
+            if any(arg.split("=", 1)[0] == option for arg in args):
                 warnings.warn(_("The %(option)s option on line %(lineno)s will be deprecated in "
                                 "future releases. Please modify your kickstart file to replace "
                                 "this option with its preferred alias %(new_option)s.")
-- 
2.43.0


From 19225f0fbde52658017ac801d6182a174fc65f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 13/52] fix: raise a kickstart error for files that are not
 valid UTF-8

A bare UnicodeDecodeError (or, for an impossible file name, ValueError)
escaped from load_to_str and load_to_file.
---
 pykickstart/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index fb935f2..ce66605 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -95,7 +95,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except IOError as e:
+    except (IOError, ValueError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
@@ -105,5 +105,5 @@ def _copy_file(filename, destination):
 
     try:
         shutil.copyfile(filename, destination)
-    except (OSError, IOError) as e:
+    except (OSError, IOError, ValueError) as e:
         raise KickstartError(_('Error copying file: %s') % str(e))
-- 
2.43.0


From ed03bb8e3221ee9fa8e5cd5b328f8f78f6f425e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 14/52] fix: decode kickstart files from URLs as UTF-8 unless
 declared otherwise

Servers send kickstart files as text/plain without a character set, which
requests takes for ISO-8859-1 (or guesses), garbling all other characters.
---
 pykickstart/load.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index ce66605..245fea0 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -83,6 +83,10 @@ def _load_url(location):
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {c}'.format(c=str(request.status_code)))
 
+    # Without a declared character set, expect the same as in a local file.
+    if "charset=" not in request.headers.get("Content-Type", "").lower():
+        request.encoding = "utf-8"
+
     return request.text
 
 def _load_file(filename):
-- 
2.43.0


From 027d66edfb564f3e6062866d92011ab95a1b6f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 15/52] fix: do not join %ksappend contents and the line after
 it

If the appended file does not end with a newline, its last line and the line
after %ksappend became one.
---
 pykickstart/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index d2d46a0..3fbaba4 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -101,6 +101,10 @@ def _preprocessStateMachine(lineIter):
         # file in one burst.  This allows multiple %ksappend lines to
         # exist.
         if contents is not None:
+            # The next line must not become a part of the last one.
+            if contents and l.endswith("\n") and not contents.endswith("\n"):
+                contents += "\n"
+
             retval += contents.encode(sys.getdefaultencoding())
 
     return retval
-- 
2.43.0


From 89e6996edc56d5f930583b71586057edff6b0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 16/52] fix: preprocess an empty kickstart file into an empty
 file

Returning None instead of a file name made ksvalidator report a general
error for an empty file, and ksshell fail with a traceback.
---
 pykickstart/parser.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 3fbaba4..490ae74 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -138,15 +138,13 @@ def preprocessFromString(s):
        run.  Returns the location of the complete kickstart file.
     """
     s = preprocessFromStringToString(s)
-    if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+    import tempfile
+    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-    return None
+    os.write(outF, s)
+    os.close(outF)
+    return outName
 
 def preprocessKickstart(f):
     """Preprocess the kickstart file, given by the filename f.  This
@@ -155,15 +153,13 @@ def preprocessKickstart(f):
        run.  Returns the location of the complete kickstart file.
     """
     s = preprocessKickstartToString(f)
-    if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+    import tempfile
+    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-    return None
+    os.write(outF, s)
+    os.close(outF)
+    return outName
 
 class PutBackIterator(Iterator):
     def __init__(self, iterable):
-- 
2.43.0


From 42c6eb43a0a487e9117ef59eed4faf709ddbe80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 17/52] fix: make .clear in ksshell apply to sections, too

After .clear, sections went into the handler that had been thrown away.
---
 tools/ksshell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 324180e..3b88248 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -62,6 +62,9 @@ class ClearCommand(InternalCommand):
         version = parser.version
         parser.handler = makeVersion(version)
 
+        # The sections have to put their results into the new handler, too.
+        parser.setupSections()
+
 class QuitCommand(InternalCommand):
     def execute(self, parser):
         raise EOFError
-- 
2.43.0


From ea82afb8223f699a384d51909b6de2de065fe6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 18/52] fix: do not lose a ksshell session to unbalanced
 quoting

A line with an unmatched quote ended the shell with a traceback, without
writing what had been entered.
---
 tools/ksshell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 3b88248..4e7dc11 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -177,7 +177,7 @@ def main(argv=None):
             processedFile = preprocessKickstart(opts.input)
             ksparser.readKickstart(processedFile)
             os.remove(processedFile)
-        except KickstartError as e:
+        except (KickstartError, ValueError) as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
 
@@ -232,7 +232,8 @@ def main(argv=None):
         # extremely short one.
         try:
             ksparser.readKickstartFromString(line)
-        except KickstartError as e:
+        except (KickstartError, ValueError) as e:
+            # ValueError means unbalanced quoting.
             print(e)
 
     # And finally, print the output kickstart file.
-- 
2.43.0


From 1e08eed0b4ca448ca09d8e0b0acb4bd94c16c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 19/52] fix: report unbalanced quoting in ksflatten as a
 failure to parse

It ended with a traceback.
---
 tools/ksflatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/ksflatten.py b/tools/ksflatten.py
index 331ea2d..b49ede8 100755
--- a/tools/ksflatten.py
+++ b/tools/ksflatten.py
@@ -57,7 +57,7 @@ def main(argv=None):
         ksparser.readKickstart(opts.kscfg)
     except IOError as msg:
         return (1, _("Failed to read kickstart file '%(filename)s' : %(error_msg)s") % {"filename": opts.kscfg, "error_msg": msg})
-    except pykickstart.errors.KickstartError as e:
+    except (pykickstart.errors.KickstartError, ValueError) as e:
         return (1, _("Failed to parse kickstart file '%(filename)s' : %(error_msg)s") % {"filename": opts.kscfg, "error_msg": e})
 
     if opts.output:
-- 
2.43.0


From d4c63b7c1b84d09343b786e207f978a0f7ceb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 20/52] fix: do not let 256 errors wrap to a successful
 ksvalidator exit status

---
 tools/ksvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8fe1d9f..a826ac5 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -121,4 +121,6 @@ if __name__ == "__main__":
     retval, messages = main(sys.argv[1:])
     for msg in messages:
         print(msg)
-    sys.exit(retval)
+
+    # An exit status has only eight bits, and 256 errors are not a success.
+    sys.exit(min(retval, 255))
-- 
2.43.0


From c6ae248553ac76c2a396d066c87dba0cb1b5b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:13 +0000
Subject: [PATCH 21/52] fix: do not grow scripts in old syntax each time they
 are written

Before Fedora 8, there is no %end, so the blank line written before the next
section is read back as the end of the script and written again.
---
 pykickstart/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 490ae74..fb4ac2f 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -255,7 +255,9 @@ class Script(KickstartObject):
             if self._ver >= version.F8:
                 return retval + "\n%s%%end\n" % self.script
             else:
-                return retval + "\n%s" % self.script
+                # Nothing but the next section ends this one, so blank lines
+                # written before that would add up every time.
+                return retval + "\n%s\n" % self.script.rstrip("\n")
         else:
             if self._ver >= version.F8:
                 return retval + "\n%s\n%%end\n" % self.script
-- 
2.43.0


From 08a10428363337c7660f98bb9b0746d5b24cd41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 22/52] fix: find the handler class for DEVEL and for long
 version names

makeVersion refused names that stringToVersion accepts, such as DEVEL (which
is also what written files say and what ksvalidator -l lists) and
"Fedora 20".
---
 pykickstart/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/version.py b/pykickstart/version.py
index d966637..543b8e6 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -196,8 +196,8 @@ def returnClassForVersion(version=DEVEL):
         version = int(version)
         module = "%s" % versionToString(version, skipDevel=True)
     except ValueError:
-        module = "%s" % version
         version = stringToVersion(version)
+        module = "%s" % versionToString(version, skipDevel=True)
 
     module = module.lower()
 
-- 
2.43.0


From 716234f45ed2d0f6083261e2e98dcdbdc3f325a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 23/52] fix: do not write an unused lilo command as a second
 bootloader line

In the versions that have lilo, every written file ended up with an extra
"bootloader --location=none", which undid the real one when read again, and
a lilo command was written as bootloader.
---
 pykickstart/commands/bootloader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykickstart/commands/bootloader.py b/pykickstart/commands/bootloader.py
index efe8ca7..8b21d43 100644
--- a/pykickstart/commands/bootloader.py
+++ b/pykickstart/commands/bootloader.py
@@ -162,6 +162,14 @@ class FC3_Lilo(FC3_Bootloader):
         op.prog = "lilo"
         return op
 
+    def __str__(self):
+        # A lilo command that was never used is not a second, default,
+        # bootloader command.
+        if not self.seen:
+            return ""
+
+        return KickstartCommand.__str__(self) + "# System bootloader configuration\nlilo" + self._getArgsAsStr() + "\n"
+
 class FC4_Lilo(RemovedCommand, FC3_Lilo):
     def _getParser(self):
         op = FC3_Lilo._getParser(self)
-- 
2.43.0


From 6ff7f4ab096c23a128791a74543f9d6b5033ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 24/52] fix: add further multipath paths to their device

The second path of the first device made a second device of the same name,
and a path added to any other device was put into the list of devices, which
broke writing the file and reading further multipath lines.
---
 pykickstart/commands/multipath.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index acb58bb..41c9137 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -96,17 +96,19 @@ class FC6_MultiPath(KickstartCommand):
                 if path.device == dd.device:
                     mapping = {"device": path.device, "multipathdev": path.mpdev}
                     raise KickstartParseError(_("Device '%(device)s' is already used in multipath '%(multipathdev)s'") % mapping, lineno=self.lineno)
-            if mpath.name == dd.mpdev:
+            if mpath.name.split('/')[-1] == dd.mpdev:
                 parent = x
 
-        if not parent:
+        if parent is None:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
+            mpath.lineno = self.lineno
             mpath.paths.append(dd)
             return mpath
         else:
+            # The device is in the list already, it only gets another path.
             mpath = self.mpaths[parent]
             mpath.paths.append(dd)
-            return dd
+            return self
 
     def dataList(self):
         return self.mpaths
-- 
2.43.0


From 933988838bf7dd2d7e4ab782ddd8872d32ed3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 25/52] fix: write the timezone options in RHEL7 when no
 timezone is given

RHEL7 accepts "timezone --utc" without a timezone, but the written file did
not have the command.
---
 pykickstart/commands/timezone.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 6f6d412..c46f520 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -125,7 +125,7 @@ class F18_Timezone(FC6_Timezone):
         return retval
 
     def _getArgsAsStr(self):
-        retval = self.timezone
+        retval = self.timezone or ""
 
         if self.isUtc:
             retval += " --isUtc"
@@ -216,6 +216,17 @@ class RHEL7_Timezone(F18_Timezone):
         F18_Timezone.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
+    def __str__(self):
+        retval = KickstartCommand.__str__(self)
+
+        # the timezone specification is optional
+        args = self._getArgsAsStr().strip()
+        if args:
+            retval += "# System timezone\n"
+            retval += "timezone " + args + "\n"
+
+        return retval
+
     def _getParser(self):
         op = KSOptionParser(prog="timezone", description="""
                             This required command sets the system time zone to
-- 
2.43.0


From 083b6d2afcc41d58a637c3d28fc6fcbff7de0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 26/52] fix: write one --trust option per trusted device

Each --trust is one device, so writing several joined by commas made them one
device of that name.
---
 pykickstart/commands/firewall.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index 727ad21..d264086 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -66,10 +66,7 @@ class FC3_Firewall(KickstartCommand):
                 portstr = " --port=" + portstr
 
             extrastr = "".join(extra)
-            truststr = ",".join(self.trusts)
-
-            if truststr:
-                truststr = " --trust=" + truststr
+            truststr = "".join(" --trust=" + trust for trust in self.trusts)
 
             # The output port list consists only of port:proto for
             # everything that we don't recognize, and special options for
-- 
2.43.0


From 10d95c53511c59ed574fbe7da4ce03d11c2c5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 27/52] fix: write a user or group ID of 0

It was dropped as if it had not been given.
---
 pykickstart/commands/group.py | 2 +-
 pykickstart/commands/user.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/group.py b/pykickstart/commands/group.py
index fab5e74..aa8afeb 100644
--- a/pykickstart/commands/group.py
+++ b/pykickstart/commands/group.py
@@ -49,7 +49,7 @@ class F12_GroupData(BaseData):
 
         if self.name:
             retval += " --name=%s" % self.name
-        if self.gid:
+        if self.gid is not None:
             retval += " --gid=%s" % self.gid
 
         return retval + "\n"
diff --git a/pykickstart/commands/user.py b/pykickstart/commands/user.py
index e675e85..ad268ed 100644
--- a/pykickstart/commands/user.py
+++ b/pykickstart/commands/user.py
@@ -78,7 +78,7 @@ class FC6_UserData(BaseData):
             retval += " --iscrypted"
         if self.shell:
             retval += " --shell=%s" % self.shell
-        if self.uid:
+        if self.uid not in (None, ""):
             retval += " --uid=%s" % self.uid
 
         return retval
@@ -126,7 +126,7 @@ class F19_UserData(F12_UserData):
     def _getArgsAsStr(self):
         retval = F12_UserData._getArgsAsStr(self)
 
-        if self.gid:
+        if self.gid is not None:
             retval += " --gid=%d" % (self.gid,)
 
         return retval
-- 
2.43.0


From 683494ef6e63e76f938b0e3f9f81c3e900637c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 28/52] fix: reject unknown volgroup options and keep all its
 members

An unknown option was taken for the only member, and members given before an
option were dropped when there were others behind it.
---
 pykickstart/commands/volgroup.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykickstart/commands/volgroup.py b/pykickstart/commands/volgroup.py
index bcda6e6..a49e18e 100644
--- a/pykickstart/commands/volgroup.py
+++ b/pykickstart/commands/volgroup.py
@@ -146,15 +146,15 @@ class FC3_VolGroup(KickstartCommand):
 
     def parse(self, args):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
+        if any(arg for arg in extra if arg.startswith("-")):
+            mapping = {"command": "volgroup", "options": extra}
+            raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
+
         # because positional arguments with variable number of values
         # don't parse very well
-        if not ns.partitions:
-            if extra:
-                ns.partitions = extra
-                extra = []
-            elif ns.name:
-                ns.partitions = ns.name[1:]
-                ns.name = [ns.name[0]]
+        words = ns.name + ns.partitions + extra
+        ns.name = words[:1]
+        ns.partitions = words[1:]
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From a620eef945641348f381cb29249cc759e39c26e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 29/52] fix: keep raid members given on both sides of an option

Those behind it were dropped without a word.
---
 pykickstart/commands/raid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/raid.py b/pykickstart/commands/raid.py
index 90844e5..ad7993b 100644
--- a/pykickstart/commands/raid.py
+++ b/pykickstart/commands/raid.py
@@ -426,8 +426,8 @@ class FC3_Raid(KickstartCommand):
 
         # because positional argumnets with variable number of values
         # don't parse very well
-        if not ns.partitions and extra:
-            ns.partitions = extra
+        if extra:
+            ns.partitions = ns.partitions + extra
             extra = []
 
         if not ns.format:
-- 
2.43.0


From 983bdf42fff414df2cfc33c23ebd3c085f377395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 30/52] fix: reject unknown options of key --skip

---
 pykickstart/commands/key.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/key.py b/pykickstart/commands/key.py
index e14b577..fb6965a 100644
--- a/pykickstart/commands/key.py
+++ b/pykickstart/commands/key.py
@@ -55,13 +55,13 @@ class RHEL5_Key(KickstartCommand):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
         self.set_to_self(ns)
 
-        if self.skip:
+        if any(arg for arg in extra if arg.startswith("-")):
+            mapping = {"command": "key", "options": extra}
+            raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
+        elif self.skip:
             self.key = KS_INSTKEY_SKIP
         elif len(extra) != 1:
             raise KickstartParseError(_("Kickstart command %s requires one argument") % "key", lineno=self.lineno)
-        elif any(arg for arg in extra if arg.startswith("-")):
-            mapping = {"command": "key", "options": extra}
-            raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
         else:
             self.key = extra[0]
 
-- 
2.43.0


From 307b1979d72b5ee2ce8c01c6636937bae3e2116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 31/52] fix: write btrfs --parent

It is accepted and recorded, but was lost in the written file.
---
 pykickstart/commands/btrfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/commands/btrfs.py b/pykickstart/commands/btrfs.py
index 084f25b..afbbd7f 100644
--- a/pykickstart/commands/btrfs.py
+++ b/pykickstart/commands/btrfs.py
@@ -68,6 +68,8 @@ class F17_BTRFSData(BaseData):
             retval += " --metadata=%s" % self.metaDataLevel.lower()
         if self.subvol:
             retval += " --subvol --name=%s" % self.name
+        if self.parent:
+            retval += " --parent=%s" % self.parent
 
         return retval
 
-- 
2.43.0


From 4c7c0b6286d667e9842a013ebd4032dc16fdb48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:54 +0000
Subject: [PATCH 32/52] fix: name the line in nvdimm errors

---
 pykickstart/commands/nvdimm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/nvdimm.py b/pykickstart/commands/nvdimm.py
index a01652f..f63de4c 100644
--- a/pykickstart/commands/nvdimm.py
+++ b/pykickstart/commands/nvdimm.py
@@ -139,7 +139,7 @@ class F28_Nvdimm(KickstartCommand):
         nvdimm_data.action = action
 
         if nvdimm_data.namespace and nvdimm_data.blockdevs:
-            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"))
+            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"), lineno=self.lineno)
 
         # Check for duplicates in the data list.
         if nvdimm_data in self.dataList():
@@ -153,14 +153,14 @@ class F28_Nvdimm(KickstartCommand):
         if action == NVDIMM_ACTION_RECONFIGURE:
             if not nvdimm_data.namespace:
                 raise KickstartParseError(_("Action %(action)s requires --namespace argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
             if nvdimm_data.mode == NVDIMM_MODE_SECTOR and not nvdimm_data.sectorsize:
                 raise KickstartParseError(_("Action %(action)s with mode %(mode)s requires --sectorsize argument to be set")
-                                          % {"action": action, "mode": nvdimm_data.mode})
+                                          % {"action": action, "mode": nvdimm_data.mode}, lineno=self.lineno)
         elif action == NVDIMM_ACTION_USE:
             if not nvdimm_data.namespace and not nvdimm_data.blockdevs:
                 raise KickstartParseError(_("Action %(action)s requires --namespace or --blockdevs argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
 
         return nvdimm_data
 
-- 
2.43.0


From bcd980933d43f776b46f80edb3b3c81f8d9291bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:54 +0000
Subject: [PATCH 33/52] fix: do not write the deprecated ignoredisk
 --interactive instead of the disks

From F29 on it has no effect, but the written file had only this option, which
is not a valid line.
---
 pykickstart/commands/ignoredisk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/commands/ignoredisk.py b/pykickstart/commands/ignoredisk.py
index a44549d..7ff72e2 100644
--- a/pykickstart/commands/ignoredisk.py
+++ b/pykickstart/commands/ignoredisk.py
@@ -150,6 +150,10 @@ class F29_IgnoreDisk(F14_IgnoreDisk):
     removedKeywords = F14_IgnoreDisk.removedKeywords
     removedAttrs = F14_IgnoreDisk.removedAttrs
 
+    def __str__(self):
+        # The deprecated --interactive has no effect.
+        return F8_IgnoreDisk.__str__(self)
+
     def parse(self, args):
         return F8_IgnoreDisk.parse(self, args)
 
-- 
2.43.0


From 741fa01e28803db5a8897a4e6637f73c0f72e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:54 +0000
Subject: [PATCH 34/52] fix: keep xconfig --depth a number where it is
 deprecated

The written file could not be generated, as the depth had become a string.
---
 pykickstart/commands/xconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 528d4fc..a68acbd 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -169,7 +169,7 @@ class F10_XConfig(F9_XConfig):
     def _getParser(self):
         op = F9_XConfig._getParser(self)
         op.add_argument("--driver", deprecated=F10)
-        op.add_argument("--depth", deprecated=F10)
+        op.add_argument("--depth", type=int, deprecated=F10)
         op.add_argument("--resolution", deprecated=F10)
         op.add_argument("--videoram", deprecated=F10)
         return op
-- 
2.43.0


From a59501b3b84f204007458832fac35140dd9617f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:54 +0000
Subject: [PATCH 35/52] fix: write halt --eject before F18

The option was accepted, but lost in the written file.
---
 pykickstart/commands/reboot.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pykickstart/commands/reboot.py b/pykickstart/commands/reboot.py
index 75a6d91..1447623 100644
--- a/pykickstart/commands/reboot.py
+++ b/pykickstart/commands/reboot.py
@@ -96,6 +96,16 @@ class FC6_Reboot(FC3_Reboot):
 
         return retval
 
+    def __str__(self):
+        retval = FC3_Reboot.__str__(self)
+
+        # Halting is what happens anyway, but the media are to be ejected.
+        if self.action is None and self.eject:
+            retval += "# Halt after installation\nhalt"
+            retval += self._getArgsAsStr() + "\n"
+
+        return retval
+
     def _getParser(self):
         op = FC3_Reboot._getParser(self)
         op.add_argument("--eject", action="store_true", version=FC6,
-- 
2.43.0


From a4962919265ddd5fc22f51230c27069a5ff74468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:51 +0000
Subject: [PATCH 36/52] fix: do not demand a value for deprecated firewall and
 xconfig flags

firewall --high, --medium and (since F10) --telnet and xconfig --noprobe (since
FC6) are flags, but declaring them deprecated made them take an argument, so a
line with the plain flag was rejected, or swallowed the next word.
---
 pykickstart/commands/firewall.py | 6 +++---
 pykickstart/commands/xconfig.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index d264086..cab1177 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -118,8 +118,8 @@ class FC3_Firewall(KickstartCommand):
         op.add_argument("--telnet", dest="ports", action="append_const",
                         const="23:tcp", version=FC3,
                         help="Open port 23:tcp")
-        op.add_argument("--high", deprecated=FC3, help="")
-        op.add_argument("--medium", deprecated=FC3, help="")
+        op.add_argument("--high", action="store_true", deprecated=FC3, help="")
+        op.add_argument("--medium", action="store_true", deprecated=FC3, help="")
         op.add_argument("--port", dest="ports", action=ExtendAction,
                         type=firewall_port_cb, help="""
                         You can specify that ports be allowed through the firewall
@@ -203,7 +203,7 @@ class F10_Firewall(F9_Firewall):
                         const="smtp", version=F10, help="Open the smtp service port")
         op.add_argument("--ssh", dest="services", action="append_const",
                         const="ssh", version=F10, help="Open the ssh service port")
-        op.add_argument("--telnet", deprecated=F10)
+        op.add_argument("--telnet", action="store_true", deprecated=F10)
         return op
 
 class F14_Firewall(F10_Firewall):
diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index a68acbd..8a7c1cf 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -140,7 +140,7 @@ class FC6_XConfig(FC3_XConfig):
         op.add_argument("--driver", version=FC6, help="REMOVED")
         op.add_argument("--hsync", deprecated=FC6)
         op.add_argument("--monitor", deprecated=FC6)
-        op.add_argument("--noprobe", deprecated=FC6)
+        op.add_argument("--noprobe", action="store_true", deprecated=FC6)
         op.add_argument("--vsync", deprecated=FC6)
         op.remove_argument("--server", version=FC6, help="")
         return op
-- 
2.43.0


From 419d4f628b8753c6cc3353f1db9be7fea35c8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:06 +0000
Subject: [PATCH 37/52] fix: find excluded groups whatever the blanks in their
 name

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index fb4ac2f..81a75c1 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -497,7 +497,7 @@ class Packages(KickstartObject):
                 if stripped[1:3] == "@^" and self.environment == stripped[3:].strip():
                     self.environment = None
                 elif stripped[1] == "@":
-                    name = stripped[2:].strip()
+                    name = " ".join(stripped[2:].split())
                     self.groupList = [g for g in self.groupList if g.name != name]
                     excludedGroupList.append(Group(name=name))
                 else:
-- 
2.43.0


From b5c7e9e81bb81deec6409e970bc610745138f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:06 +0000
Subject: [PATCH 38/52] fix: let a later mention of an environment undo its
 exclusion

---
 pykickstart/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 81a75c1..6bdd2ea 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -489,6 +489,9 @@ class Packages(KickstartObject):
 
             if stripped[0:2] == "@^":
                 self.environment = stripped[2:].strip()
+                name = "^" + " ".join(self.environment.split())
+                self.excludedGroupList = [g for g in self.excludedGroupList if g.name != name]
+                excludedGroupList = [g for g in excludedGroupList if g.name != name]
             elif stripped[0] == "@":
                 name = self._processGroup(stripped[1:])
                 self.excludedGroupList = [g for g in self.excludedGroupList if g.name != name]
@@ -498,6 +501,8 @@ class Packages(KickstartObject):
                     self.environment = None
                 elif stripped[1] == "@":
                     name = " ".join(stripped[2:].split())
+                    if name.startswith("^ "):
+                        name = "^" + name[2:]
                     self.groupList = [g for g in self.groupList if g.name != name]
                     excludedGroupList.append(Group(name=name))
                 else:
-- 
2.43.0


From d7ae2e2de702bea28195378bcb84286503719068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:06 +0000
Subject: [PATCH 39/52] fix: refuse --nobase and --nocore after %packages
 --default in any section

---
 pykickstart/sections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index a952cbe..76068dd 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -751,7 +751,7 @@ class PackageSection(Section):
         if self.version < RHEL6:
             return
 
-        if ns.defaultPackages and getattr(ns, "nobase", False):
+        if self.handler.packages.default and getattr(ns, "nobase", False):
             raise KickstartParseError(_("--default and --nobase cannot be used together"), lineno=lineno)
 
         self.handler.packages.addBase = not getattr(ns, "nobase", False)
@@ -764,7 +764,7 @@ class PackageSection(Section):
         if self.version < F21:
             return
 
-        if ns.defaultPackages and ns.nocore:
+        if self.handler.packages.default and ns.nocore:
             raise KickstartParseError(_("--default and --nocore cannot be used together"), lineno=lineno)
 
         self.handler.packages.nocore = ns.nocore
-- 
2.43.0


From e0e8adfe694ff5fb2b77a4163f6cc17b64ee198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 40/52] fix: raise a kickstart error for URL contents that are
 not valid text

---
 pykickstart/load.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 245fea0..2dad971 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -84,10 +84,17 @@ def _load_url(location):
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {c}'.format(c=str(request.status_code)))
 
     # Without a declared character set, expect the same as in a local file.
-    if "charset=" not in request.headers.get("Content-Type", "").lower():
-        request.encoding = "utf-8"
+    encoding = "utf-8"
+    if "charset=" in request.headers.get("Content-Type", "").lower():
+        encoding = request.encoding or encoding
 
-    return request.text
+    try:
+        try:
+            return request.content.decode(encoding)
+        except LookupError:     # an unknown character set
+            return request.content.decode("utf-8")
+    except ValueError as e:
+        raise KickstartError(_('Error decoding URL "%s"') % location + ': {e}'.format(e=str(e)))
 
 def _load_file(filename):
     '''Load a file's contents and return them as a string'''
-- 
2.43.0


From 9044f673ac406067c3c682e55961e6eb25b092eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 41/52] fix: raise a kickstart error for malformed web
 addresses, also redirected to

---
 pykickstart/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 2dad971..0634705 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -77,7 +77,7 @@ def _load_url(location):
         request = requests.get(location, verify=SSL_VERIFY)
     except SSLError as e:
         raise KickstartError(_('Error securely accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
-    except RequestException as e:
+    except (RequestException, ValueError) as e:
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
 
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
-- 
2.43.0


From 38a6b1d13a68f772dcf3cb9e9d3127a33bbbf28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 42/52] fix: read %ksappend lines word by word

---
 pykickstart/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 6bdd2ea..7440dc3 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -80,7 +80,8 @@ def _preprocessStateMachine(lineIter):
         ksurl = None
 
         ll = l.strip()
-        if not ll.startswith("%ksappend"):
+        words = ll.split()
+        if not words or words[0] != "%ksappend":
             if six.PY3:
                 l = l.encode(sys.getdefaultencoding())
             retval += l
@@ -88,7 +89,7 @@ def _preprocessStateMachine(lineIter):
 
         # Try to pull down the remote file.
         try:
-            ksurl = ll.split(' ')[1]
+            ksurl = words[1]
         except:
             raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)
 
-- 
2.43.0


From 722e0382456b6822835540e403d3c144d58a147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:29 +0000
Subject: [PATCH 43/52] fix: write the whole preprocessed file or raise a
 kickstart error

---
 pykickstart/parser.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 7440dc3..a1b7015 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -110,6 +110,22 @@ def _preprocessStateMachine(lineIter):
 
     return retval
 
+def _writePreprocessed(s):
+    """Write the complete preprocessed kickstart file and return its location."""
+    import tempfile
+    outName = None
+
+    try:
+        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
+        with os.fdopen(outF, "wb") as f:
+            f.write(s)
+    except (IOError, OSError) as e:
+        if outName is not None:
+            os.unlink(outName)
+        raise KickstartError(_("Unable to write the preprocessed kickstart file: %s") % str(e))
+
+    return outName
+
 def preprocessFromStringToString(s):
     """Preprocess the kickstart file, provided as the string s.  This
        method is currently only useful for handling %ksappend lines, which
@@ -139,13 +155,7 @@ def preprocessFromString(s):
        run.  Returns the location of the complete kickstart file.
     """
     s = preprocessFromStringToString(s)
-
-    import tempfile
-    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
-
-    os.write(outF, s)
-    os.close(outF)
-    return outName
+    return _writePreprocessed(s)
 
 def preprocessKickstart(f):
     """Preprocess the kickstart file, given by the filename f.  This
@@ -154,13 +164,7 @@ def preprocessKickstart(f):
        run.  Returns the location of the complete kickstart file.
     """
     s = preprocessKickstartToString(f)
-
-    import tempfile
-    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
-
-    os.write(outF, s)
-    os.close(outF)
-    return outName
+    return _writePreprocessed(s)
 
 class PutBackIterator(Iterator):
     def __init__(self, iterable):
-- 
2.43.0


From 9fb99085e23abde690f2cdea911385feceba7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:12 +0000
Subject: [PATCH 44/52] fix: ksverdiff lists removed commands as removed, not
 as added

---
 tools/ksverdiff.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index 5f59a71..b2506ff 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -30,7 +30,8 @@ from pykickstart.errors import KickstartVersionError
 from pykickstart.version import makeVersion, versionMap
 
 def getCommandSet(handler):
-    return set(handler.commands.keys())
+    # A removed command is only known in order to be refused.
+    return {name for (name, cmd) in handler.commands.items() if not isinstance(cmd, RemovedCommand)}
 
 def getOptSet(lst):
     return set(map(lambda o: o.option_strings[0] if o.option_strings else '', lst))
@@ -71,15 +72,11 @@ def main(argv=None):
     bothSet = fromCmdSet & toCmdSet
 
     print(_("The following commands were removed in %s:") % opts.t)
-    removed = [cmd for cmd in bothSet if
-               isinstance(toHandler.commands[cmd], RemovedCommand) and
-               not isinstance(fromHandler.commands[cmd], RemovedCommand)]
-    printList(sorted(removed + list(fromCmdSet - toCmdSet)))
+    printList(sorted(fromCmdSet - toCmdSet))
 
     print(_("The following commands were deprecated in %s:") % opts.t)
     printList(sorted([cmd for cmd in bothSet if
-                      isinstance(toHandler.commands[cmd], DeprecatedCommand) and
-                      not isinstance(toHandler.commands[cmd], RemovedCommand)]))
+                      isinstance(toHandler.commands[cmd], DeprecatedCommand)]))
 
     print(_("The following commands were added in %s:") % opts.t)
     printList(sorted(toCmdSet - fromCmdSet))
-- 
2.43.0


From 6c94ae63057d2cdbbd75fac554138f5a50902ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:56 +0000
Subject: [PATCH 45/52] fix: ksverdiff reports every spelling of an option and
 commands without options

---
 tools/ksverdiff.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index b2506ff..7dfac41 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -34,7 +34,8 @@ def getCommandSet(handler):
     return {name for (name, cmd) in handler.commands.items() if not isinstance(cmd, RemovedCommand)}
 
 def getOptSet(lst):
-    return set(map(lambda o: o.option_strings[0] if o.option_strings else '', lst))
+    # Every spelling is an option.  Positional arguments are not.
+    return {opt for action in lst for opt in action.option_strings}
 
 def printList(lst):
     print(' '.join(lst))
@@ -89,11 +90,13 @@ def main(argv=None):
         fromCmd = fromHandler.commands[cmd]
         toCmd = toHandler.commands[cmd]
 
-        if not hasattr(fromCmd, "op") or not hasattr(toCmd, "op"):
+        # A deprecated command has no effect, so neither have its options.
+        if isinstance(fromCmd, DeprecatedCommand) or isinstance(toCmd, DeprecatedCommand):
             continue
 
-        fromOpt = fromCmd.op._actions
-        toOpt = toCmd.op._actions
+        # A command without an option parser does not have any options.
+        fromOpt = fromCmd.op._actions if hasattr(fromCmd, "op") else []
+        toOpt = toCmd.op._actions if hasattr(toCmd, "op") else []
 
         newOptList = getOptSet(toOpt) - getOptSet(fromOpt)
         removedOptList = getOptSet(fromOpt) - getOptSet(toOpt)
-- 
2.43.0


From efbc6a48c3f482a76a2b1bcbe9f91fa390ec18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:34 +0000
Subject: [PATCH 46/52] fix: ksshell removes the preprocessed input file even
 if it cannot be read

---
 tools/ksshell.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 4e7dc11..019f59d 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -175,8 +175,10 @@ def main(argv=None):
     if opts.input:
         try:
             processedFile = preprocessKickstart(opts.input)
-            ksparser.readKickstart(processedFile)
-            os.remove(processedFile)
+            try:
+                ksparser.readKickstart(processedFile)
+            finally:
+                os.remove(processedFile)
         except (KickstartError, ValueError) as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
-- 
2.43.0


From 7ddfc191c57fba5476811a779c980438edc82924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 47/52] fix: a refused command line leaves its command as it
 was

---
 pykickstart/base.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index ebc5597..abe29da 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -47,6 +47,7 @@ from pykickstart.i18n import _
 
 import six
 import warnings
+from copy import copy
 from pykickstart import __version__
 from pykickstart.errors import KickstartParseError, KickstartParseWarning, KickstartDeprecationWarning
 from pykickstart.ko import KickstartObject
@@ -413,6 +414,11 @@ class KickstartHandler(KickstartObject):
         if cmd not in self.commands:
             raise KickstartParseError(_("Unknown command: %s") % cmd, lineno=lineno)
         elif self.commands[cmd] is not None:
+            # A line that is refused must not leave anything behind.
+            state = self.commands[cmd].__dict__
+            before = {attr: (val, copy(val)) if isinstance(val, (list, dict)) else (val, val)
+                      for attr, val in state.items()}
+
             self.commands[cmd].currentCmd = cmd
             self.commands[cmd].currentLine = self.currentLine
             self.commands[cmd].lineno = lineno
@@ -424,7 +430,19 @@ class KickstartHandler(KickstartObject):
             # dataList.  The latter is done via side effects.
             #
             # Regardless, return the object that was given to us by the parser.
-            obj = self.commands[cmd].parse(args[1:])
+            try:
+                obj = self.commands[cmd].parse(args[1:])
+            except Exception:
+                state.clear()
+                for attr, (val, content) in before.items():
+                    if content is not val:
+                        val.clear()
+                        if isinstance(val, list):
+                            val.extend(content)
+                        else:
+                            val.update(content)
+                    state[attr] = val
+                raise
 
             # Here's the side effect part - don't worry about lst not being returned.
             lst = self.commands[cmd].dataList()
-- 
2.43.0


From 4ead30c74e0416be084b3893971687f12a95be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:21 +0000
Subject: [PATCH 48/52] fix: write logging settings made by a program

---
 pykickstart/commands/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/logging.py b/pykickstart/commands/logging.py
index 22e2e75..d23481b 100644
--- a/pykickstart/commands/logging.py
+++ b/pykickstart/commands/logging.py
@@ -43,7 +43,8 @@ class FC6_Logging(KickstartCommand):
     def __str__(self):
         retval = KickstartCommand.__str__(self)
 
-        if self.level and self._level_provided:
+        provided = self._level_provided or self.seen or self.host or self.level != "info"
+        if self.level and provided:
             retval += "# Installation logging level\nlogging --level=%s" % self.level
 
             if self.host:
-- 
2.43.0


From 367617077355dee53cc942ca6a1c799f9ea32a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:21 +0000
Subject: [PATCH 49/52] fix: firewall --http keeps the ports given before it

---
 pykickstart/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index c3981e5..cf30c2b 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -112,7 +112,7 @@ class ExtendAction(Action):
 class ExtendConstAction(Action):
     def __call__(self, parser, namespace, values, option_string=None):
         if getattr(namespace, self.dest, None) is not None:
-            setattr(namespace, self.dest, self.const + values)
+            setattr(namespace, self.dest, getattr(namespace, self.dest) + self.const)
         else:
             setattr(namespace, self.dest, self.const)
 
-- 
2.43.0


From 7a573326b24ba2ad2a1e0c66fcb03d278e517eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 50/52] fix: keep the installation method when an unknown one
 is assigned

---
 pykickstart/commands/method.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/method.py b/pykickstart/commands/method.py
index a863d6f..0c09405 100644
--- a/pykickstart/commands/method.py
+++ b/pykickstart/commands/method.py
@@ -61,12 +61,14 @@ class FC3_Method(KickstartCommand):
     @method.setter
     def method(self, value):
         """Set which method is seen."""
-        self._clear_seen()
+        # Look the command up first: an unknown method must not
+        # make us forget the current one.
+        command = None if value is None else self._get_command(value)
 
-        if value is None:
-            return
+        self._clear_seen()
 
-        self._get_command(value).seen = True
+        if command is not None:
+            command.seen = True
 
     def __getattr__(self, name):
         """Get the attribute in the seen command.
-- 
2.43.0


From de3f5881235acab669f0d728ed586925a0d7964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 51/52] fix: methodToRepo raises KickstartError for every
 method that is not a url

---
 pykickstart/commands/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/repo.py b/pykickstart/commands/repo.py
index f050985..1286eac 100644
--- a/pykickstart/commands/repo.py
+++ b/pykickstart/commands/repo.py
@@ -338,7 +338,7 @@ class F8_Repo(FC6_Repo):
         return op
 
     def methodToRepo(self):
-        if not self.handler.method.url:
+        if self.handler.method.method not in (None, "url") or not self.handler.method.url:
             raise KickstartError(_("Method must be a url to be added to the repo list."), lineno=self.handler.method.lineno)
         reponame = "ks-method-url"
         repourl = self.handler.method.url
-- 
2.43.0


From b0b1397f71b4ca5d0fe3cb4f47e2a64f83cde7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 52/52] fix: reject a line with the method command as a
 kickstart parse error

---
 pykickstart/commands/method.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykickstart/commands/method.py b/pykickstart/commands/method.py
index 0c09405..45ff411 100644
--- a/pykickstart/commands/method.py
+++ b/pykickstart/commands/method.py
@@ -19,8 +19,11 @@
 #
 from pykickstart.version import FC3, F34, versionToLongString
 from pykickstart.base import KickstartCommand, DeprecatedCommand
+from pykickstart.errors import KickstartParseError
 from pykickstart.options import KSOptionParser
 
+from pykickstart.i18n import _
+
 class FC3_Method(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
@@ -101,6 +104,10 @@ class FC3_Method(KickstartCommand):
         # Set the attribute of the kickstart command.
         command.__setattr__(name, value)
 
+    def parse(self, args):
+        """The proxy is used by programs, a kickstart file names the method itself."""
+        raise KickstartParseError(_("method is not a command, use one of these commands instead: %s") % ", ".join(self._methods), lineno=self.lineno)
+
     def _getParser(self):
         """Return a parser."""
 
-- 
2.43.0

