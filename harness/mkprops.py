"""Writes /verif/properties.jsonl (kept as Python so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Sections are framed correctly and delivered verbatim",
 "For every kickstart input, each section's body reaches its section exactly once, complete, unchanged and in order, and every command line outside sections is dispatched exactly once, in file order. From Fedora 8 syntax on, a section that is not closed by %end is always rejected; in older syntax the next section header or the end of the input closes it. Blank and comment lines are preserved inside script and pass-through sections and dropped elsewhere, and an unknown section is rejected, or passed through with a warning when so configured.",
 ["inputs", "configurations"], "all line sequences (headers, bodies, %end, comments, blanks, percent-lines), all syntax versions, all parser flags",
 "Tests feed a few dozen hand-written documents; framing depends on the sequence of line kinds, the version boundary at F8 and the flags, and only a model covers all sequences.",
 ["pykickstart/parser.py", "pykickstart/sections.py"],
 [("_stateMachine/_readSection", "pykickstart/parser.py"), ("Section.handleHeader/handleLine/finalize", "pykickstart/sections.py")],
 [("parser state", "commands, or the open section", "KickstartParser._state")],
 ["handler.scripts, handler.packages, str(handler), commands dispatched"])

prop("C02", "%include behaves like textual inclusion",
 "Parsing files connected by %include yields the same commands in the same order, scripts, package selection and pass-through sections as parsing one document in which each include line is replaced by the included text, at any nesting depth, in command context and inside a section (for included files whose sections are complete, or which hold only body lines; blank lines at the start of a file included inside a section do not count). An include path that does not exist as given is looked up next to the including file; with include-following disabled the line is skipped. A missing include is an error, unless missing includes were declared non-fatal, in which case parsing continues on the next line in the same context.",
 ["inputs", "configurations", "fault_sequences"], "all trees of files up to the modelled depth, all positions of the include line, all flags, missing files at any point",
 "The tests include one or two files at fixed places; context (inside/outside a section), depth, leading comments, quotes and missing files combine freely.",
 ["pykickstart/parser.py"],
 [("_handleInclude", "pykickstart/parser.py"), ("readKickstart path lookup", "pykickstart/parser.py")],
 [("include depth / current directory", "nesting level and directory per level", "KickstartParser._includeDepth, currentdir")],
 ["handler data after readKickstart"])

prop("C03", "Errors and parsed objects carry the line they come from",
 "Whenever the parser rejects input because of a line (unknown command, bad option or value, unknown section, malformed include, a package line that names nothing, a section left open), it raises a kickstart parse error whose line number is that line's 1-based position in the file that contains it (for a section left open: the line where that was noticed). The line number recorded on every parsed command, data object and script is the line that defined it, whatever sections, blank lines, comments or includes come before it.",
 ["inputs", "configurations"], "all documents of the model; each error kind at each position after each kind of preceding content",
 "Tests check line numbers only for single-line inputs or not at all; off-by-one after sections, put-back headers and includes is invisible to them.",
 ["pykickstart/parser.py", "pykickstart/errors.py", "pykickstart/options.py", "pykickstart/commands"],
 [("lineno bookkeeping", "pykickstart/parser.py _stateMachine/_readSection"), ("KickstartError formatting", "pykickstart/errors.py")],
 [], ["exception.lineno, str(exception), command.lineno, data.lineno, script.lineno"])

prop("C04", "Strict parsing stops at the first error; lenient parsing continues and counts",
 "With errors fatal, parsing stops at the first bad command or section header by raising, and exactly the lines before it have taken effect. With errors not fatal, each bad command or section header is reported on stderr, increments the parser's error count by one, and every other command and section takes effect as if the bad command line were not there: a rejected line has no effect at all, neither on another command nor on the settings, entries or use of the command it names. Structural errors (unknown or unterminated section, malformed or missing include, unbalanced quoting) are raised in both modes.",
 ["inputs", "configurations", "fault_sequences"], "every placement and number of failing lines, both modes, any failing exception type",
 "Tests have one failing line per document; the policy is about what happens to all the other lines.",
 ["pykickstart/parser.py", "pykickstart/base.py"], [("_tryFunc", "pykickstart/parser.py"), ("KickstartHandler.dispatcher", "pykickstart/base.py")],
 [("errorsCount", "number of failed commands/headers", "KickstartParser.errorsCount")],
 ["parser.errorsCount, stderr, exception, handler data"])

prop("C05", "Reads, parsers and handlers do not interfere with one another",
 "The result of reading a document depends only on the data already in that handler and on the document: a previous read that failed half-way leaves no residue in later reads of the same parser, and creating, reading with or writing out any other parser or handler, of any syntax version and in any interleaving, changes nothing. Successive reads into one handler accumulate, as if the documents were concatenated.",
 ["histories", "inputs", "configurations"], "all interleavings of create/read/failing read/write over several parsers and versions",
 "Each test uses fresh objects of one version; interference needs particular histories over several objects.",
 ["pykickstart/parser.py", "pykickstart/base.py", "pykickstart/sections.py", "pykickstart/commands"],
 [("_reset", "pykickstart/parser.py"), ("per-instance state of handlers, sections, commands", "pykickstart/base.py, sections.py")],
 [("section buffers", "body collected so far", "ScriptSection._script, NullSection._body"), ("output version", "decides whether %end is written", "Script._ver, Packages._ver")],
 ["str(handler), handler.scripts, handler.packages"])

prop("C06", "Command registry: dispatch, aliases, masking, reset and overrides",
 "A command line is handled by the one object registered for its name; names that are aliases share that object at all times, also after it has been reset. A command object is marked as seen exactly when a line it accepted used it since it was created or reset, an unregistered name is a parse error, a masked command is silently ignored, and resetting restores the initial state. Custom command or data mappings and updates affect only the handler they are given to, and the written file orders commands by write priority and then by the name of their class, each at most once.",
 ["histories", "configurations", "inputs"], "all sequences of dispatch, reset, mask, write and construction with updates, over all syntax versions",
 "Tests do one operation on one handler; alias/reset/mask interactions need sequences.",
 ["pykickstart/base.py", "pykickstart/handlers/control.py"],
 [("registerCommand/_setCommand/_insertSorted/resetCommand/maskAllExcept/dispatcher", "pykickstart/base.py")],
 [("commands", "name -> command object or None", "KickstartHandler.commands"), ("write order", "priority -> ordered objects", "KickstartHandler._writeOrder")],
 ["handler.commands, command.seen, str(handler)"])

prop("C07", "%packages selection: the last mention of a package or group wins",
 "After any sequence of package lines, in one or several sections or includes, a package is selected if and only if its last mention was positive and excluded if and only if its last mention was negative, never both; the environment is the last one named and not removed since. A group is selected with the level of detail of its first positive mention since it was last excluded, and is not selected after being excluded; comments, blanks and surrounding white space never matter. Lines that name nothing or contradict themselves are rejected as kickstart parse errors.",
 ["inputs", "histories"], "all sequences of package lines over a small alphabet of names, options and decorations, split over sections",
 "Tests try short fixed lists; order-dependence needs all sequences.",
 ["pykickstart/parser.py", "pykickstart/sections.py"], [("Packages.add/_processGroup", "pykickstart/parser.py"), ("PackageSection.handleLine", "pykickstart/sections.py")],
 [("lists", "packageList, excludedList, groupList, excludedGroupList, environment", "pykickstart/parser.py Packages")],
 ["handler.packages, str(handler)"])

prop("C08", "Section header options are honoured exactly, per syntax version",
 "For every script section (%pre, %pre-install, %post, %onerror, %traceback) and for %packages, the options in the header are recorded on the resulting script or package selection exactly as given and absent options leave their documented default, independent of the order of the options and of earlier sections of the same kind: of several %packages headers the last one decides, except that the default package set and the install languages stay in force once they were asked for. In each syntax version exactly the header options of that version are accepted; unknown options, bad values and forbidden combinations are parse errors, and deprecated options or sections give a deprecation warning.",
 ["inputs", "configurations", "histories"], "all option combinations x all versions x sequences of sections",
 "Tests use single headers on one version; there are 38 versions and the options interact with section history.",
 ["pykickstart/sections.py", "pykickstart/parser.py", "pykickstart/options.py"],
 [("ScriptSection._getParser/handleHeader, PackageSection._getParser/handleHeader", "pykickstart/sections.py")],
 [], ["handler.scripts[*], handler.packages"])

prop("C09", "Writing a document and reading it back preserves its sections",
 "For every parsed document, the written kickstart file is accepted by a parser of the same syntax version and gives back the same scripts (type, body, options, order), package selection and options, pass-through sections (header words and body) and platform (before Fedora 8, where nothing marks the end of a section, up to blank lines at the end of a script); writing that again gives the identical text. The written file names its own syntax version, so that detecting the version from the written file gives the version it was written for.",
 ["inputs", "configurations"], "all section contents and header options of the model, all versions",
 "Tests compare single outputs with literal strings; preservation is a relation over all documents, and nothing in the tests reparses output at document level.",
 ["pykickstart/parser.py", "pykickstart/sections.py", "pykickstart/base.py", "pykickstart/version.py"],
 [("Script.__str__, Packages.__str__, NullSection.finalize, BaseHandler.__str__", "pykickstart")],
 [], ["str(handler) and its reparse"])

prop("C10", "Each syntax version accepts exactly its own commands and options",
 "For each of the syntax versions, the set of commands that are accepted, accepted with a deprecation warning and without effect, or rejected as removed or unknown, and for each accepted command the set of options that are accepted, accepted with a deprecation warning, or rejected, are the ones of that release. Every rejection is a kickstart parse error and every use of a deprecated command or option gives a deprecation warning that does not change what the rest of the line means.",
 ["configurations", "inputs"], "all versions x all commands x all options (including near misses)",
 "Each command's tests cover selected versions and options; nobody checks the complete matrix of about 38 versions x 110 command names x options.",
 ["pykickstart/handlers", "pykickstart/commands", "pykickstart/options.py", "pykickstart/base.py"],
 [("commandMap/dataMap per version", "pykickstart/handlers/*.py"), ("KSOptionParser.add_argument/remove_argument", "pykickstart/options.py"), ("DeprecatedCommand/RemovedCommand", "pykickstart/base.py")],
 [], ["exceptions and warnings of single-line documents"])

prop("C11", "Command options set exactly the data they stand for",
 "For every accepted command line in every syntax version, the resulting command or data object has each option's and argument's converted value (string, integer, boolean, list, named constant) in its attribute, derived attributes as documented for the command, and the default everywhere else; the order of independent options and the spelling --opt value versus --opt=value make no difference.",
 ["inputs", "configurations"], "all commands, versions and option combinations up to the modelled size, with ordinary and unusual values",
 "Tests assert on text output of hand-picked option sets; wrong attributes, defaults or interactions of options are not enumerated.",
 ["pykickstart/commands", "pykickstart/options.py", "pykickstart/base.py"],
 [("_getParser/parse of each command class", "pykickstart/commands/*.py"), ("set_to_self/set_to_obj", "pykickstart/base.py"), ("ksboolean/commaSplit/mountpoint", "pykickstart/options.py")],
 [], ["attributes of command and data objects after parsing"])

prop("C12", "Invalid command lines are rejected, valid ones are not",
 "A command line is rejected with a kickstart parse error if and only if it breaks one of that command's rules in that syntax version: missing required options or arguments, surplus or malformed arguments, values out of range, options that exclude or require each other, and conflicts with commands given earlier in the document (for example automatic partitioning together with explicit partitions). A rejected line changes nothing: it adds no entry and alters no setting of its command.",
 ["inputs", "configurations", "histories"], "all commands, versions, option combinations and pairs of conflicting commands of the model",
 "Tests list selected bad lines per command; the rules are predicates over option sets and earlier commands, and over-rejection is hardly tested at all.",
 ["pykickstart/commands", "pykickstart/options.py"],
 [("checks in parse of each command class", "pykickstart/commands/*.py"), ("KSOptionParser.error", "pykickstart/options.py")],
 [], ["exception or none, data lists"])

prop("C13", "Commands survive writing and reading back",
 "For every accepted sequence of command lines in every syntax version, the written kickstart text is accepted by a parser of that version and gives back the same settings for every command (all settings that have an effect in combination with the others, and every entry of list commands in order), and writing again gives the identical text apart from comments and blank lines. Values containing white space survive wherever the writer quotes them.",
 ["inputs", "configurations"], "all commands, versions and option combinations of the model, plain values everywhere and values with blanks where quoted",
 "Tests compare output with a literal for chosen inputs; a dropped, reordered or misquoted option in one class of one version goes unnoticed.",
 ["pykickstart/commands", "pykickstart/base.py"],
 [("__str__/_getArgsAsStr of each command and data class", "pykickstart/commands/*.py")],
 [], ["str(handler), attributes after reparse"])

prop("C14", "Repeated commands accumulate in order, duplicates are reported",
 "Each line of a command that may occur several times adds exactly one entry, after the earlier ones and without altering them, and a warning is issued exactly when the new entry duplicates an earlier one by that command's notion of identity (name, mount point, device or unit), naming no earlier line as new. For a command with a single value, a later line takes effect over an earlier one, with the command's own rule for options the later line leaves out.",
 ["histories", "inputs", "configurations"], "all sequences of up to three lines per command with equal and different identities",
 "Tests contain at most one duplicate pair per command; aliasing between entries, shared defaults and carry-over need sequences.",
 ["pykickstart/base.py", "pykickstart/commands"],
 [("dispatcher append", "pykickstart/base.py"), ("__eq__ and duplicate warnings", "pykickstart/commands/*.py")],
 [("data lists", "entries in order", "command.dataList()")], ["dataList contents, warnings"])

prop("C15", "Version names and handlers correspond one to one",
 "Every supported version constant maps to one name and back, case-insensitively; a product name followed by a version number, such as 'Fedora 20' or 'Red Hat Enterprise Linux Server 7.1', maps to its version (as in Red Hat's and Fedora's release texts, without a code name), and anything else is rejected with a version error. Asking for a version by name, by constant or by default yields a handler of exactly that version, and the version found in a file is that of its first version comment, or the development version if there is none.",
 ["inputs", "configurations"], "all version names, constants, release strings of the modelled grammar, placements of version comments",
 "Tests sample a few strings; the mapping is total over a grammar of names.",
 ["pykickstart/version.py", "pykickstart/handlers"],
 [("stringToVersion/versionToString/versionFromFile/returnClassForVersion/makeVersion", "pykickstart/version.py")],
 [], ["return values and exceptions"])

prop("C16", "%ksappend preprocessing splices remote text and nothing else",
 "Preprocessing returns the input with each %ksappend line replaced by the complete text it refers to and every other line unchanged, in order, whether the input comes from a string or a file and whether the result is returned or written to a new file. Spliced text is not expanded again; an unreadable reference or a reference without target raises a kickstart error naming its line, as does an output file that cannot be written completely, and no output is left behind. A text without a final newline is not joined to the next line.",
 ["inputs", "fault_sequences"], "all documents of ordinary and %ksappend lines with readable, missing and malformed targets, all four entry points",
 "Tests splice one file once; order, multiplicity, missing newlines, encodings and failures combine.",
 ["pykickstart/parser.py", "pykickstart/load.py"],
 [("_preprocessStateMachine and the four preprocess functions", "pykickstart/parser.py")],
 [], ["returned text or file content"])

prop("C17", "Loading returns the complete content or raises a kickstart error",
 "Loading a path or URL into a string or into a file yields exactly the complete content of the source; anything with a scheme separator is treated as a URL and everything else as a path. Every failure (missing or unreadable source, HTTP status other than success, content that is not text, connection failure, unwritable destination) is raised as a kickstart error, never as empty or partial content.",
 ["inputs", "fault_sequences"], "all source kinds x contents x failures of the model",
 "Tests use one URL and one file; failure kinds are sampled.",
 ["pykickstart/load.py"], [("load_to_str/load_to_file/_load_url/_load_file/_copy_file", "pykickstart/load.py")],
 [], ["return value, destination content, exception type"])

prop("C18", "ksvalidator's verdict is right and it cleans up",
 "The validator exits with zero if and only if the file, its %ksappend lines spliced in, parses without error or kickstart warning for the requested version under the given flags; otherwise it reports each problem with its line (repeated entries and a warned-about section header may be reported without it). It never ends in an unhandled exception, does not change its input and leaves no temporary files behind in any case. The number of errors it returns in its default mode is the number of bad command lines and section headers, and with the halt-at-first-error flag it stops at the first; a file that cannot be read to its end counts as one.",
 ["inputs", "configurations", "fault_sequences"], "documents of the parser model x flags x versions x unreadable inputs",
 "Tests run it on a handful of files and look at a few outcomes; temp-file leaks need each failure path.",
 ["tools/ksvalidator.py", "pykickstart/parser.py"], [("main/cleanup", "tools/ksvalidator.py")],
 [], ["exit value, messages, temp directory"])

prop("C19", "ksflatten produces a self-contained equivalent file",
 "For every readable tree of kickstart files (with %include; %ksappend lines are not its concern), the flattened output contains no include line and parses, for the same version and without access to the included files, to the same commands, scripts and package selection; flattening it again reproduces it apart from comments and blank lines. If the input cannot be read or parsed, it fails with a message and a non-zero status and leaves an existing output file untouched, and it never ends in an unhandled exception or leaves temporary files behind.",
 ["inputs", "configurations", "fault_sequences"], "file trees of the include model x versions x failing inputs and outputs",
 "Tests flatten one fixed pair of files.",
 ["tools/ksflatten.py", "pykickstart/parser.py", "pykickstart/base.py"], [("main", "tools/ksflatten.py")],
 [], ["output file, status"])

prop("C20", "A ksshell session is equivalent to its accepted lines",
 "After any sequence of typed lines, the state shown or written is the one obtained from the seed file followed by the accepted lines since the last clear, wrong lines being reported and having no effect on anything else; clearing forgets everything, showing changes nothing, and quitting or end of input writes the result. Completion offers exactly the commands, or the options of the typed command, that begin with the typed word (for commands in force in the syntax version, the install-method alias aside). The session never ends in an unhandled exception and leaves no temporary files behind.",
 ["histories", "inputs"], "all sequences of valid lines, invalid lines, internal commands and completions up to the modelled length",
 "Tests run a few scripted sessions; equivalence is over all sequences.",
 ["tools/ksshell.py", "pykickstart/parser.py"], [("main loop, ClearCommand, KickstartCompleter", "tools/ksshell.py")],
 [], ["session output, output file"])

prop("C21", "ksverdiff reports exactly the differences between two versions",
 "For every ordered pair of versions, the report lists exactly the commands removed and added going from the first version to the second (a removed command counts as absent) and those present in both that are deprecated in the second, and likewise, per command in force in both, exactly the options (in every spelling) added, removed and deprecated, each once and sorted; comparing a version with itself reports no addition or removal. Unsupported versions are reported with a non-zero status.",
 ["configurations", "inputs"], "all ordered pairs of versions and unsupported names",
 "Tests compare one pair of versions.",
 ["tools/ksverdiff.py", "pykickstart/handlers"], [("main", "tools/ksverdiff.py")],
 [], ["printed report, status"])

prop("C22", "Settings made by a program behave like settings read from a file",
 "For every command in force: creating a command or data object with keyword arguments, or calling it with keyword arguments, sets exactly the attributes named that exist in that syntax version (derived settings aside), leaves all others as they were, ignores unknown ones and those of other releases (warning for removed keywords at creation), and marks a called command as seen. Objects never share list or other mutable values with one another or with class defaults, so changing one object changes no other object; two data objects of one class are equal exactly if their identifying attributes are. A handler given by keywords the settings that another handler read from a file has the same settings and writes the same file.",
 ["inputs", "configurations", "histories"], "all command and data classes of all versions x all public attributes; all settings reachable by command lines",
 "Tests check that attributes exist and a few keyword cases; sharing, removed attributes and what is written over the full class matrix are not covered.",
 ["pykickstart/base.py", "pykickstart/commands"], [("KickstartCommand.__call__/BaseData.__call__/deleteRemovedAttrs", "pykickstart/base.py"), ("__init__, __eq__ and __str__ of command and data classes", "pykickstart/commands/*.py")],
 [], ["attributes of created objects, equality, warnings, written text"])

prop("C23", "handler.method shows and sets the installation source",
 "In every version, after any mixture of command lines, assignments and resets, handler.method.method names an installation source (cdrom, harddrive, nfs, url, where they exist liveimg and hmc) that is marked as given, and None if none is. Assigning a source's name makes it the only one that is marked, assigning None leaves none marked, and any other value raises AttributeError and changes nothing. Every other setting read or assigned through handler.method is that of the source's own command (url while none is given); names that command does not have raise AttributeError and change nothing. The line number of handler.method is its own, nothing else in this or another handler changes, and the written file contains exactly the sources that are marked. A line with the word method is no command and is rejected as a kickstart parse error (only warned about where deprecated). repo.methodToRepo() gives the url as a repository, and raises KickstartError whenever the source is not a url.",
 ["inputs", "configurations", "histories"], "all versions x sources x settings; all sequences of lines, assignments, copies, resets and marks",
 "The tests walk through one fixed sequence in one version; which command an attribute goes to depends on the whole history of the handler.",
 ["pykickstart/commands/method.py", "pykickstart/commands/repo.py", "pykickstart/base.py"], [("FC3_Method.method, __getattr__, __setattr__", "pykickstart/commands/method.py"), ("F8_Repo.methodToRepo", "pykickstart/commands/repo.py")],
 [], ["handler.method.method", "attributes and seen of the source commands", "written text", "exceptions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
