"""Writes known_findings.json: 'fixed' entries suppress nothing; 'known' ones are matched by their key."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C09", "fix: write pass-through sections back verbatim", "%addon bodies written with doubled newlines, sections glued as %end%addon, quoting of header words lost"),
 ("C05", "fix: start every section with an empty body", "lines of an empty script or of an aborted read leaked into the next section of the kind"),
 ("C03", "fix: report an empty first word as an unknown command", "a line starting with '' raised IndexError"),
 ("C02", "fix: treat sections in included files like those in the main file", "leading comments of a file included inside a section lost; a section left open in an included file silently dropped"),
 ("C02", "fix: resume in the right context after a failed include", "tolerated include error left the parser inside the included file's section"),
 ("C05", "fix: keep the syntax version of scripts and packages per handler", "creating a parser of another version changed whether earlier handlers write %end"),
 ("C06", "fix: reset a command under all of its names", "after resetting part, partition still referred to the old object"),
 ("C07", "fix: report %packages lines that name nothing, with their line number", "a lone - raised IndexError; @ selected a nameless group"),
 ("C07", "fix: let the last mention of a group or package decide", "-@g followed by @g left the group both selected and excluded"),
 ("C09", "fix: quote section header options when writing them", "--interpreter with blanks could not be read back"),
 ("C05", "fix: forget the directory of the previous kickstart file", "relative include in a string looked up next to the previously read file"),
 ("C08", "fix: warn about old %packages option names also when written with =", "--instLangs=x gave no deprecation warning"),
 ("C17", "fix: raise a kickstart error for files that are not valid UTF-8", "UnicodeDecodeError escaped from load_to_str"),
 ("C17", "fix: decode kickstart files from URLs as UTF-8 unless declared otherwise", "UTF-8 content served as text/plain was garbled"),
 ("C17", "fix: raise a kickstart error for URL contents that are not valid text", "bytes that are not UTF-8 were replaced by U+FFFD and returned as content"),
 ("C17", "fix: raise a kickstart error for malformed web addresses, also redirected to", "ValueError and LocationParseError escaped"),
 ("C16", "fix: read %ksappend lines word by word", "a tab or two blanks before the target were refused; %ksappended x was taken for %ksappend"),
 ("C16", "fix: write the whole preprocessed file or raise a kickstart error", "a full disk gave a shortened file, or OSError and a left-over file"),
 ("C16", "fix: do not join %ksappend contents and the line after it", "last appended line and next line became one"),
 ("C18", "fix: preprocess an empty kickstart file into an empty file", "ksvalidator failed on an empty file"),
 ("C20", "fix: make .clear in ksshell apply to sections, too", "sections typed after .clear were lost"),
 ("C20", "fix: do not lose a ksshell session to unbalanced quoting", "an unmatched quote ended the session with a traceback"),
 ("C19", "fix: report unbalanced quoting in ksflatten as a failure to parse", "traceback on unbalanced quotes"),
 ("C18", "fix: do not let 256 errors wrap to a successful ksvalidator exit status", "256 errors gave exit status 0"),
 ("C09", "fix: do not grow scripts in old syntax each time they are written", "a blank line was added to each script per write/read cycle before F8"),
 ("C15", "fix: find the handler class for DEVEL and for long version names", "makeVersion(\"DEVEL\") and makeVersion(\"Fedora 20\") were refused"),
 ("C13", "fix: do not write an unused lilo command as a second bootloader line", "in FC3, RHEL3 and RHEL4 an unused lilo command was written as bootloader --location=none"),
 ("C14", "fix: add further multipath paths to their device", "second path of the first multipath device made a second device; a path of any other device was put into the list of devices"),
 ("C13", "fix: write the timezone options in RHEL7 when no timezone is given", "RHEL7: timezone --utc was not written"),
 ("C13", "fix: write one --trust option per trusted device", "firewall --trust=a --trust=b came back as one device a,b"),
 ("C13", "fix: write a user or group ID of 0", "user --uid=0, user --gid=0 and group --gid=0 were not written"),
 ("C10", "fix: reject unknown volgroup options and keep all its members", "volgroup vg --bogus was accepted; volgroup vg pv.1 --pesize=1 pv.2 lost pv.1"),
 ("C11", "fix: keep raid members given on both sides of an option", "raid / a --device=md0 --level=1 b lost b"),
 ("C10", "fix: reject unknown options of key --skip", "key --skip --bogus was accepted"),
 ("C13", "fix: write btrfs --parent", "btrfs --parent was not written"),
 ("C03", "fix: name the line in nvdimm errors", "nvdimm errors had line number 0"),
 ("C13", "fix: do not write the deprecated ignoredisk --interactive instead of the disks", "F29: ignoredisk --drives=sda --interactive was written as ignoredisk --interactive, which is rejected"),
 ("C13", "fix: keep xconfig --depth a number where it is deprecated", "F10: writing xconfig --depth=16 raised TypeError"),
 ("C13", "fix: write halt --eject before F18", "halt --eject was not written before F18"),
 ("C10", "fix: do not demand a value for deprecated firewall and xconfig flags", "firewall --high, --medium, --telnet and xconfig --noprobe demanded a value once deprecated"),
 ("C07", "fix: find excluded groups whatever the blanks in their name", "-@G   H did not exclude the group selected by @G   H"),
 ("C07", "fix: let a later mention of an environment undo its exclusion", "-@^e then @^e was written as both, so reading it back left no environment"),
 ("C09", "fix: refuse --nobase and --nocore after %packages --default in any section", "%packages --default followed by %packages --nocore was accepted and written as one header that is refused"),
 ("C21", "fix: ksverdiff lists removed commands as removed, not as added", "a command removed in the second version was listed as added, and one missing there as removed"),
 ("C21", "fix: ksverdiff reports every spelling of an option and commands without options", "only the first spelling of each option was compared; commands without options were skipped"),
 ("C20", "fix: ksshell removes the preprocessed input file even if it cannot be read", "the temporary file stayed behind when the seed file was refused"),
 ("C04", "fix: a refused command line leaves its command as it was", "settings of a refused line stayed: ignoredisk --interactive --drives=a --only-use=a made writing raise TypeError; a refused timezone line was shown by ksshell"),
 ("C22", "fix: write logging settings made by a program", "logging settings made through attributes or keywords instead of a line were not written"),
 ("C11", "fix: firewall --http keeps the ports given before it", "FC3 to F9: firewall --ssh --http opened only the port of the last option"),
 ("C23", "fix: keep the installation method when an unknown one is assigned", "handler.method.method = \"nosuch\" raised AttributeError but first forgot which source was given"),
 ("C23", "fix: methodToRepo raises KickstartError for every method that is not a url", "methodToRepo raised AttributeError for cdrom, harddrive, nfs and hmc, and gave the image of liveimg as a repository"),
 ("C12", "fix: reject a line with the method command as a kickstart parse error", "a line with the word method raised TypeError"),
]
KNOWN = [
 {"property": p, "key": "raid --device=<not a number>|ValueError",
  "what": "before F19, raid --device=<text that is not a number> raises ValueError instead of a kickstart parse error (tests/commands/raid.py requires the ValueError)"}
 for p in ("C12", "C03")] + [
 {"property": "C13", "key": "bootloader --nolinear|not written",
  "what": "FC3, RHEL3, RHEL4: bootloader --nolinear (and lilo --nolinear) is not written, so it reads back as --linear (tests/commands/bootloader.py requires that text)"},
 {"property": "C13", "key": "volgroup then autopart|unreadable",
  "what": "F16 to F19: volgroup followed by autopart is accepted, but autopart is written first and volgroup refuses to follow it"},
]
p = os.path.join(V, "harness", "findings_more.json")
if os.path.exists(p):
    more = json.load(open(p))
    FIXED += [tuple(x) for x in more.get("fixed", [])]
    KNOWN += more.get("known", [])
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, _, m = l.partition(" ")
    log[m] = h
out = []
for prop, msg, what in FIXED:
    out.append({"property": prop, "status": "fixed", "commit": log[msg], "what": what,
                "line": "fixed: property=%s %s %s" % (prop, log[msg], what)})
for k in KNOWN:
    out.append(dict(k, status="known"))
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "findings")
