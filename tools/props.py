#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
J = "src/jomlib/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if "/" in f else J + f for f in files],
                          "mechanism": [{"name": n, "where": w if w.startswith("src") else J + w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": J + c} for a, b, c in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {}),
                          "hook_needed": hook}})
NOBUILD = "The unit tests only call the parser, preprocessor and inference-rule code; none of the stable tests runs a build, so no process is ever started under test. "
START = "process starts and ends as seen by the operating system"

p("C01", "A target's commands start only after its dependents are finished",
  "When jom starts a command for a target, every command of every target that it directly or indirectly depends on has already ended (targets that need no update count as finished). This holds for every number of jobs, every order in which processes end, however the dependent is spelled in the makefile (upper or lower case, slashes or backslashes, quotes, repeated mentions, several description blocks), and across several requested targets.",
  ["programs", "schedules", "configurations"], "all makefiles (dependency graphs and spellings), all -J values, all orders of process completion",
  NOBUILD + "Ordering is a property of all graphs times all completion orders.",
  ["dependencygraph.cpp", "targetexecutor.cpp", "makefile.h", "parser.cpp"],
  [("nodes become leaves only when the last child is removed", "dependencygraph.cpp removeLeaf"), ("one executor per started target, removal on completion", "targetexecutor.cpp onChildFinished"), ("case and slash insensitive target lookup", "makefile.h Makefile::target")],
  [("m_leaves", "targets without unfinished dependents", "dependencygraph.h")], [START])
p("C02", "Exactly the out-of-date targets are rebuilt, each once",
  "A run executes the command block of exactly those targets reachable from the requested ones that do not exist, are older than the newest of their dependents (after those were brought up to date), or have a dependent that is a non-existing target with commands; with /A it executes those of all reachable targets. Each block is executed once per requested root and nothing else is executed.",
  ["programs", "histories", "configurations"], "all dependency graphs, all combinations of existing files and time stamps, all commands that do or do not update their target, several goals, /A",
  NOBUILD + "The time-stamp rule is quantified over all graphs and file ages.",
  ["dependencygraph.cpp", "targetexecutor.cpp", "fastfileinfo.cpp", "filetime.cpp"],
  [("comparison of a target with its newest dependent", "dependencygraph.cpp isTargetUpToDate"), ("re-reading of file times after a target was built", "targetexecutor.cpp onChildFinished"), ("fresh time stamps for every requested target", "makefile.cpp invalidateTimeStamps")], (), [START])
p("C03", "Every build ends, with the right exit status",
  "For every acyclic makefile, job count and order of events jom terminates by itself without deadlock and without leaving a process it started still running. The exit status is 0 exactly if every command that was run succeeded or had its failure explicitly tolerated, 1 if commands failed under /K and 2 if the build was stopped by a failed command, whatever exit code a command returned.",
  ["programs", "schedules", "fault_sequences"], "all graphs, job counts, completion orders, exit codes",
  NOBUILD + "Liveness and truthfulness of the exit status need all interleavings of process ends, job tokens and output.",
  ["targetexecutor.cpp", "commandexecutor.cpp", "jomprocess.cpp", "jobclient.cpp", "src/app/main.cpp"],
  [("main loop: findNextTarget/startProcesses/onChildFinished", "targetexecutor.cpp"), ("finishBuild", "targetexecutor.cpp finishBuild"), ("exit code retrieval", "jomprocess.cpp tryToRetrieveExitCode")], (), ["exit status of jom", START])
p("C04", "The job limit is respected and fully used, and every job token is returned",
  "At no time are more than N commands running under -J N (one, if the makefile contains .NOTPARALLEL), and a target that is ready is started as long as a job slot is free. Job tokens are taken one per extra running target and all of them are back when jom ends, also when the build fails.",
  ["schedules", "programs", "configurations"], "all graphs, -J values, completion orders, token delays caused by other clients, failures at any point",
  NOBUILD + "The bound has to hold at every moment of every schedule.",
  ["targetexecutor.cpp", "jobclient.cpp", "jobclientacquirehelper.cpp", "jobserver.cpp", "src/app/main.cpp"],
  [("one implicit token plus a counting semaphore of N-1", "jobserver.cpp start"), ("acquire before start, release on completion", "targetexecutor.cpp startProcesses/onChildFinished"), ("pool of N executors", "targetexecutor.cpp constructor")], (), [START, "operations on the job server semaphore"])
p("C05", "Recursive jom runs share one job budget",
  "A jom started by a jom uses the job server of its parent unless /J asks for a different number, in which case it says so and uses a new one of that size. While sharing, it runs one target on the slot it inherited and holds one token for each further one, waits for tokens held by others without failing, and never changes the total number of tokens.",
  ["schedules", "configurations", "programs"], "all inherited job counts and keys, /J values, token availability over time, graphs",
  NOBUILD + "Sharing involves a second process taking and returning tokens at arbitrary times.",
  ["jobserver.cpp", "jobclient.cpp", "targetexecutor.cpp", "src/app/main.cpp", "src/app/application.cpp"],
  [("_JOMSRVKEY_/_JOMJOBCOUNT_ in the environment of children", "jobserver.cpp start"), ("initJobServer", "src/app/main.cpp"), ("asynchronous acquisition", "jobclient.cpp asyncAcquire")], (), ["operations on the job server semaphore", "stderr", START])
p("C06", "A failed command stops the build in an orderly way",
  "When a command ends with an exit code above its tolerance, no later command of its target and no command of any other target is started from then on, apart from finishing targets that are already being built. jom waits for those, reports the failed target and its exit code on stderr, leaves every target that depends on the failed one unbuilt and exits with 2.",
  ["schedules", "programs", "fault_sequences"], "all graphs, positions and codes of failing commands, several failures, job counts, completion orders",
  NOBUILD + "What happens after a failure depends on what else is running at that moment.",
  ["targetexecutor.cpp", "commandexecutor.cpp", "jomprocess.cpp"],
  [("abort path", "targetexecutor.cpp onChildFinished"), ("waiting for running processes", "jomprocess.cpp waitForFinished"), ("exit code check", "commandexecutor.cpp onProcessFinished")], (), [START, "stderr", "exit status of jom"])
p("C07", "/K builds everything that does not depend on a failed target",
  "With /K, after a failure jom builds every out-of-date target none of whose direct or indirect dependents failed, builds none of the targets that do depend on a failed one, names each skipped target that has commands on stderr, and exits with 1 at the end. /I overrides /K.",
  ["programs", "schedules", "fault_sequences"], "all graphs, sets of failing commands, job counts, completion orders, several goals",
  NOBUILD + "The set of affected targets depends on the graph and on which target failed when.",
  ["targetexecutor.cpp", "dependencygraph.cpp", "options.cpp"],
  [("marking of all parents as unbuildable", "dependencygraph.cpp markParentsRecursivlyUnbuildable"), ("skipping unbuildable targets", "targetexecutor.cpp findNextTarget")], (), [START, "stderr", "exit status of jom"])
p("C08", "Only untolerated exit codes are failures",
  "A command's non-zero exit code is ignored exactly if /I was given, .IGNORE was in effect where the command was written, it has a - modifier without number, or a - modifier with a number that is at least the exit code; the last - modifier of a command counts and overrides /I and .IGNORE. A crashed process and a command that cannot be started count as exit code 2. This holds for processes run directly, through the shell and for built-in commands, for any exit code, any combination and order of modifiers, and in inference rules.",
  ["inputs", "programs", "configurations"], "all exit codes (32 bit), modifier strings, directive positions, ways to run a command",
  "The tests parse a few modifiers and never run a command.",
  ["commandexecutor.cpp", "makefile.cpp", "parser.cpp", "options.cpp"],
  [("modifier evaluation", "makefile.cpp evaluateModifiers"), ("threshold comparison", "commandexecutor.cpp onProcessFinished"), ("/I and .IGNORE defaults", "parser.cpp parseCommandLine")], (), [START, "exit status of jom"])
p("C09", "A target's commands run one after the other, in order, with cd and set effects",
  "The commands of a target run strictly in the order in which they are written, each starting after the previous one ended. A successful cd command changes the working directory of the following commands of the same target only (a relative directory is relative to the target's current one), a failing cd is a failed command, and a set command changes the environment of all commands started afterwards and nothing else.",
  ["programs", "schedules"], "all command sequences mixing programs, cd, set, comments; parallel targets; completion orders",
  NOBUILD + "State carried from command to command is a property of sequences.",
  ["commandexecutor.cpp", "jomprocess.cpp", "targetexecutor.cpp", "processenvironment.h"],
  [("executeCurrentCommandLine and its built-ins", "commandexecutor.cpp"), ("environmentChanged fan-out", "targetexecutor.cpp constructor"), ("reset of the working directory", "commandexecutor.cpp start")], (), ["command line, working directory and environment of each started process"])
p("C10", "Commands are echoed and executed exactly as written",
  "Each executed command is printed once before it is started, preceded by a tab, unless it is silenced by @, .SILENT, /C or /S; what is executed is the text after macro expansion without its modifiers and with %% turned into %. Comment commands run nothing; commands that are plain are started directly, and those that use redirection, pipes, & or shell built-ins, or that cannot be started, are passed unchanged to the command interpreter.",
  ["inputs", "configurations"], "all command texts, modifiers, quotes and special characters, /S /N /C and .SILENT",
  "Whether the right process is started with the right text can only be seen by running commands; the tests never do.",
  ["commandexecutor.cpp", "makefile.cpp", "parser.cpp", "jomprocess.cpp"],
  [("echo and execution", "commandexecutor.cpp executeCurrentCommandLine"), ("isSimpleCommandLine/startsWithShellBuiltin", "commandexecutor.cpp"), ("! modifier expansion", "makefile.cpp expandFileNameMacros")], (), ["command line of each started process", "stdout"])
p("C11", "All output of all commands appears, in order and never mixed",
  "Everything a command writes to stdout or stderr appears on jom's stdout or stderr exactly once, byte for byte and in the order written, and so do the echoed command lines. Output of commands that run at the same time is kept apart: each stream is the echo line and output of one command after the other, except that one target at a time may be shown while it runs.",
  ["schedules", "inputs", "programs"], "all output sizes and bytes, interleavings of writes, reads and process ends, job counts",
  NOBUILD + "Losing, repeating or mixing output depends on the interleaving of the reader thread, the main loop and process ends.",
  ["jomprocess.cpp", "iocompletionport.cpp", "commandexecutor.cpp", "targetexecutor.cpp"],
  [("completion port thread and per-process buffers", "jomprocess.cpp completionPortNotified"), ("switch between buffered and direct output", "jomprocess.cpp setBufferedOutput"), ("hand-over of direct output", "targetexecutor.cpp onChildFinished")], (), ["stdout", "stderr"])
p("C12", "Inline files reach the command with exactly the written content",
  "For every inline file (<<) in a command, in a rule or in a description block, a file with the given name, or a fresh unused name in the temporary directory, exists when the command starts and contains the lines up to the closing << with macros (including file name macros) expanded and CR LF line ends. The << in the command is replaced by that file's name, quoted if it contains blanks.",
  ["inputs", "programs", "schedules"], "all inline texts, names, options, several inline files per command and target, several targets at the same time",
  "The tests check the parsed text of a few inline files; writing, naming and substituting is never run.",
  ["parser.cpp", "commandexecutor.cpp", "makefile.cpp"],
  [("parseInlineFiles", "parser.cpp"), ("createTempFiles", "commandexecutor.cpp")], (), ["files as they are when a process starts", "command lines"])
p("C13", "Temporary inline files never outlive the run, kept ones always do",
  "When jom ends, whether the build succeeded, failed, or was interrupted with Ctrl-C at any moment, no inline file without KEEP is left and every inline file with KEEP that was written is there with its content. No other file is removed by jom, and inline files are not removed before the target they belong to is finished.",
  ["schedules", "crash_points", "programs"], "all builds with inline files, failures, job counts, interruption at every scheduling point",
  NOBUILD + "Clean-up has to work from every intermediate state.",
  ["commandexecutor.cpp", "targetexecutor.cpp", "src/app/main.cpp"],
  [("cleanupTempFiles", "commandexecutor.cpp"), ("removeTempFiles from the console control handler", "targetexecutor.cpp")], (), ["file system after the run"])
p("C14", "A dry run starts nothing and prints what a real run would execute",
  "With /N jom starts no process, changes no directory or environment and removes or changes no file of the user, and exits with 0. It prints, each preceded by a tab, exactly the commands that a real run with one job from the same files would execute if every command created or updated its target, including those silenced by @.",
  ["programs", "configurations"], "all makefiles and file states",
  NOBUILD, ["commandexecutor.cpp", "targetexecutor.cpp", "dependencygraph.cpp"],
  [("dryRun branch", "commandexecutor.cpp executeCurrentCommandLine")], (), ["stdout", START, "file system after the run"])
p("C15", "The result does not depend on job count or timing",
  "For makefiles whose rules only write their own targets, the set of executed commands, the multiset of output lines, the final files and the exit status are the same for every -J value, every order in which processes end and every internal hash order.",
  ["schedules", "configurations", "programs"], "all such makefiles, all -J values, schedules and hash seeds, pairs of them",
  NOBUILD + "It relates many runs with each other.",
  ["targetexecutor.cpp", "dependencygraph.cpp", "parser.cpp", "makefile.cpp"],
  [("leaf selection", "dependencygraph.cpp findAvailableTarget"), ("inference rule application", "makefile.cpp applyInferenceRules")], (), [START, "stdout", "file system after the run"])
p("C16", "A build followed by the same build does nothing",
  "After a successful build of a makefile in which each rule creates or updates its target, a second run executes no command. After one source file is changed, the next run executes exactly the commands of the targets that directly or indirectly depend on it; after one built file is deleted, exactly those of that target and of the targets that depend on it.",
  ["histories", "programs", "configurations"], "all such makefiles incl. inference rules and batch rules, sequences of builds, changes and deletions, job counts",
  NOBUILD + "It is a property of histories of runs.",
  ["dependencygraph.cpp", "fastfileinfo.cpp", "makefile.cpp", "targetexecutor.cpp"],
  [("time stamp rule", "dependencygraph.cpp isTargetUpToDate"), ("inferred dependents of up-to-date targets", "dependencygraph.cpp isTargetUpToDate")], (), [START, "file system after the run"])
p("C17", "The right inference rule is applied, and only where one is needed",
  "A target without commands whose name fits a rule's target extension and directory gets the commands of the fitting rule whose source file exists and whose source extension comes first in the suffix list (the later definition among equals), with that source as additional dependent. Rules whose source extension is not in the suffix list are never used, .SUFFIXES lines extend or clear the list, and targets with commands or without an existing source get no rule.",
  ["programs", "inputs"], "all sets of rules (extensions, search paths), suffix lists, targets and files",
  "Three fixed makefiles are tested by looking at parsed targets; the choice is over all combinations of rules and files.",
  ["parser.cpp", "makefile.cpp"],
  [("findRulesByTargetName/preselectInferenceRules", "parser.cpp"), ("filterRulesByDependent, priorities", "makefile.cpp"), ("inferredDependent", "makefile.cpp")], (), ["command lines of started processes"])
p("C18", "Batch rules handle each out-of-date source exactly once",
  "A batch inference rule (::) applied to several targets runs its commands for groups of them such that every source that needs it appears in exactly one group's source list, in groups of max(1, round(number of sources / jobs)), and nothing else appears; targets that depend on any target of a group wait for the group. With /Y the rule is run once per target instead, and every target is treated as built afterwards.",
  ["programs", "configurations", "schedules"], "all numbers of targets, ages, -J values, chained rules, /Y",
  "The tests contain batch rules only as parsed text.",
  ["makefile.cpp", "dependencygraph.cpp", "targetexecutor.cpp"],
  [("batch splitting", "makefile.cpp applyInferenceRules"), ("applyInferenceRule for a batch", "makefile.cpp")], (), ["command lines of started processes"])
p("C19", ".SYNC orders dependents without changing what is built",
  "In a dependents line with .SYNC, no command of a dependent listed after the .SYNC starts before all dependents listed before it are finished, for every .SYNC in every line, just as if those dependents depended on the earlier ones (plain files have no commands and are not ordered). Otherwise the same targets are built as if .SYNC were not there.",
  ["programs", "schedules"], "all graphs and positions of .SYNC, dependents that are targets or plain files, hash orders, completion orders",
  NOBUILD + "Ordering is over all schedules.",
  ["parser.cpp"], [("sync points become dependencies", "parser.cpp apply/parseDescriptionBlock")], (), [START])
p("C20", "A dependency cycle is an error if and only if it is reachable",
  "If a requested target depends on itself, directly or indirectly, through makefile rules, jom reports a cycle, runs no command and exits with a non-zero status. Otherwise no cycle is reported, however many paths lead to a target. Targets are identified by name, regardless of case and slashes, where a relative name also finds the target with the corresponding absolute name.",
  ["programs"], "all directed graphs up to the generated size, spellings of names, several goals, several blocks for one target",
  "One fixed cyclic makefile is tested.",
  ["parser.cpp"], [("checkForCycles", "parser.cpp")], (), ["stderr", "exit status of jom", START])
p("C21", "Description blocks define the targets they say",
  "Each block gives every target on its left side all dependents and the commands of the block; several blocks for one target add up their dependents, and with :: also their commands in order, while mixing : and :: for a target is an error. The first target of the makefile is built by default, requested targets are found regardless of case and slash direction, quoted names may contain blanks, and a drive letter colon is not a separator.",
  ["programs", "inputs"], "all lists of blocks, names, separators, in-line commands after ;, blank lines and spellings",
  "A dozen fixed makefiles are parsed by the tests.",
  ["parser.cpp", "makefile.cpp", "makefile.h"],
  [("parseDescriptionBlock/isDescriptionBlock/splitTargetNames", "parser.cpp"), ("Makefile::append/target", "makefile.h")], (), ["dependency graph dump", START])
p("C22", "File name macros name the target and its dependents",
  "In commands and inline files $@, $*, $**, $? and $< (in rules), with or without the D, B, F and R modifiers and with substitution, expand to the target, target without extension, all dependents, dependents not older than the target and the rule's source, each name with blanks quoted ($< alone is not); $$@ in a dependents line is the target's name. In a command with the ! modifier, the command is run once for each dependent (not at all without dependents) with $** and $? reduced to it.",
  ["inputs", "programs"], "all target and dependent names, modifiers, substitutions, ages, positions in text",
  "A handful of fixed examples is tested.",
  ["makefile.cpp", "macrotable.cpp"], [("expandFileNameMacros/getFileNameMacroValues", "makefile.cpp"), ("magic escape in expandMacros", "macrotable.cpp")], (), ["command lines of started processes", "stdout"])
p("C23", "Wildcards in dependents expand to the matching files",
  "A dependent that contains * or ? stands for exactly the existing files (not directories) that match the pattern, in the current directory or in the directory it names, each once and spelled so that it is found again when up-to-dateness is decided. File name macros are not taken for wildcards.",
  ["inputs"], "all patterns, directories and file sets",
  "One example is tested.",
  ["parser.cpp"], [("expandWildcards/containsWildcard", "parser.cpp")], (), ["command lines of started processes"])
p("C24", "The dependency graph dump shows the graph that would be built",
  "/DUMPGRAPH and /DUMPGRAPHDOT print every dependency between targets reachable from the requested one and no other, the former as an indented tree of all paths, the latter as valid dot edges. They run no command, change no file and exit with 0.",
  ["programs"], "all graphs", "Not tested at all.",
  ["dependencygraph.cpp", "targetexecutor.cpp"], [("dump/dotDump", "dependencygraph.cpp")], (), ["stdout"])
p("C25", "Macro expansion follows its definition",
  "A macro reference $(X), $X or $(X:a=b) is replaced by the value that X has at that point, expanded recursively and with every occurrence of a replaced by b; undefined macros are empty, $$ is a dollar sign, a definition that uses its own name, with or without a substitution, sees the previous value, and unterminated, nameless or cyclic references are errors. Names are case-sensitive, and substitution may contain ^-escaped parentheses.",
  ["inputs", "programs"], "all sequences of definitions, undefinitions and uses, nested values, substitutions",
  "About thirty fixed definitions are tested.",
  ["macrotable.cpp", "preprocessor.cpp"], [("expandMacros", "macrotable.cpp"), ("parseSubstitutionStatement", "macrotable.cpp"), ("parseMacro", "preprocessor.cpp")], (), ["stdout of !MESSAGE and of a dry run"])
p("C26", "Macro sources have the documented precedence",
  "A macro given on the command line wins over everything. Without /E the last of environment, predefined macros (unless /R removes them) and makefile wins, with /E the environment wins over both of the others. A command line macro is also visible under its upper-case name unless that is given explicitly, and environment variables are visible in upper case.",
  ["configurations", "inputs", "programs"], "all combinations of sources, spellings, values, repeated definitions, /E, /R, !UNDEF and !IFDEF",
  "A few combinations are tested.",
  ["macrotable.cpp", "options.cpp", "makefilefactory.cpp"],
  [("read-only macros", "macrotable.cpp internalSetMacroValue"), ("defineEnvironmentMacroValue", "macrotable.cpp"), ("explicit and implicit command line macros", "options.cpp readCommandLineArguments")], (), ["stdout of !MESSAGE and of a dry run"])
p("C27", "Conditionals select exactly the active lines",
  "For every nesting of !IF, !IFDEF, !IFNDEF, !ELSE, !ELSEIF..., !ELSE IF... and !ENDIF, exactly the lines in the first branch whose condition holds are processed and nothing in the other branches has any effect, including directives, definitions, includes, errors and inline text there. Unbalanced conditionals, and an !ELSE or !ELSEIF after an !ELSE, are reported as errors. A directive within inline text is processed, too.",
  ["inputs", "programs"], "all nestings of conditionals up to the generated depth, conditions, contents of branches, spelling and spacing of directives",
  "One file of examples is tested.",
  ["preprocessor.cpp"], [("skipUntilNextMatchingConditional", "preprocessor.cpp"), ("conditional stack", "preprocessor.cpp")], (), ["stdout of !MESSAGE", "stderr", "exit status of jom"])
p("C28", "Constant expressions evaluate as documented",
  "Every preprocessor expression made of numbers, strings, comparison, logical, bit, shift and arithmetic operators, parentheses, DEFINED, EXIST and [command] has the value given by jom's operator precedence (logical and bit operators are on one level, left to right, below comparisons, shifts, sums, products and unary operators) and 32-bit arithmetic (shift counts outside 0..31 are not specified). Malformed expressions, and divisions and remainders by zero, are reported as errors and never crash jom or influence later expressions.",
  ["inputs"], "all expressions up to the generated depth, valid and malformed, in sequences",
  "Forty fixed expressions are tested.",
  ["ppexpr.g", "ppexpr.l", "ppexprparser.cpp", "ppexpr-lex.inc", "preprocessor.cpp"], [("grammar and evaluation", "ppexprparser.cpp"), ("lexer", "ppexpr-lex.inc")], (), ["stdout of !MESSAGE", "stderr"])
p("C29", "Includes behave as if the text were written in place",
  "Replacing an !INCLUDE (or old style include) line by the included file's text leaves the processed makefile unchanged, for any nesting and for includes in conditionals. Files are searched for in the current directory, then next to the including makefiles from inner to outer, then for <name> in the INCLUDE directories; a missing file or an include cycle is an error that names the place.",
  ["programs", "inputs"], "all trees of include files, directories, name spellings, splits of a makefile into files",
  "One include cycle and one include per file are tested.",
  ["preprocessor.cpp", "makefilelinereader.cpp"], [("findIncludeFile/internalOpenFile", "preprocessor.cpp"), ("file stack", "preprocessor.cpp basicReadLine")], (), ["stdout of !MESSAGE and of a dry run", "stderr"])
p("C30", "The same text means the same in every encoding, line length and line ending",
  "LF or CR LF line ends, a missing final newline, a UTF-8 or little-endian UTF-16 byte order mark, comments, and lines split by continuation backslashes or padded to any length do not change the meaning of a makefile. A backslash at the end of a line joins it with the next one by a single blank (directive lines without one), ^ before the line end keeps a line break, ^\\ and \\\\ keep a backslash, and # starts a comment unless escaped by ^ or in a command.",
  ["inputs"], "all makefile texts, encodings, line lengths around internal buffer sizes, positions of continuations and comments",
  "Two fixed files are tested; lengths and encodings are not.",
  ["makefilelinereader.cpp", "preprocessor.cpp", "parser.cpp"], [("readLine_impl_local8bit/readLine_impl_unicode", "makefilelinereader.cpp"), ("joinLines", "preprocessor.cpp"), ("comment removal", "parser.cpp")], (), ["stdout of !MESSAGE and of a dry run"])
p("C31", "Command line options mean the same in every spelling and reach sub-makes",
  "Options may be given with / or -, in upper or lower case, separately or combined, from the command line, a command file, JOMFLAGS or MAKEFLAGS (JOMFLAGS wins) and have the same effect. The value of $(MAKEFLAGS) contains the given single-letter options (except /F and /X, with the last number of jobs) such that a jom started with it behaves the same, and unknown options, missing or invalid arguments end the run with a message and status 128 before anything is built.",
  ["configurations", "inputs"], "all option sets, spellings, groupings, orders and sources",
  "Options are not tested.",
  ["options.cpp", "src/app/main.cpp"], [("handleCommandLineOption", "options.cpp"), ("JOMFLAGS/MAKEFLAGS", "src/app/main.cpp getCommandLineArguments")], (), ["stdout", "stderr", "exit status of jom", START])
p("C32", "Command files are the same as writing their words on the command line",
  "An argument @file stands for the words in that file (they come after all other arguments, and @ words in them are ignored), which may be spread over lines and separated by any white space, with \"...\" keeping blanks within a line and \"\" inside quotes standing for a quote. Targets are then built in the given order without repetition, and macro definitions keep everything after the first = sign.",
  ["inputs", "configurations"], "all word lists, quotings, line splits, mixtures with ordinary arguments",
  "Not tested beyond one word list.",
  ["options.cpp", "helperfunctions.cpp"], [("expandCommandFiles", "options.cpp"), ("splitCommandLine", "helperfunctions.cpp")], (), ["stdout of a dry run"])
p("C33", "No input makes jom crash, hang or touch memory it does not own",
  "For every makefile, include file, command file, environment and argument list, made of arbitrary bytes or of damaged valid text, jom either processes it or ends with an error message and a non-zero status. It never crashes, never runs forever and never reads or writes memory outside its objects.",
  ["inputs"], "all byte strings up to the generated size, mutations of valid makefiles, argument lists",
  "Tests only contain well-formed or mildly wrong files.",
  ["makefilelinereader.cpp", "preprocessor.cpp", "parser.cpp", "macrotable.cpp", "options.cpp", "helperfunctions.cpp", "ppexprparser.cpp", "makefile.cpp"],
  [("bounds handling in the line reader", "makefilelinereader.cpp"), ("error handling by exceptions", "makefilefactory.cpp apply")], (), ["exit status of jom", "sanitizer reports"])
p("C34", "Missing files and targets are reported before anything is run",
  "If a requested target is not in the makefile, jom names it on stderr and ends with a non-zero status without running a command; if a dependent reachable from a requested target neither exists as a file nor is a target nor has the target extension of a rule, jom names it and ends with 2 without running a command for that requested target. If it has the extension of a rule, but neither the file nor a source (a file or a target) for it exists, jom names it when its turn comes, starts nothing more, waits for what is running and ends with 2; nothing that depends on it is run. If everything needed exists no such error is reported, whichever way the names are spelled.",
  ["programs", "inputs"], "all graphs, missing files, spellings, rules that can or cannot make the file",
  NOBUILD + "The space of options, names and makefiles cannot be sampled by hand.",
  ["dependencygraph.cpp", "parser.cpp", "targetexecutor.cpp"], [("internalBuild", "dependencygraph.cpp"), ("check of active targets", "parser.cpp apply")], (), ["stderr", "exit status of jom", START])
p("C35", "Commands get the environment of jom plus the given macros",
  "Every started process receives each environment variable of jom unchanged (the makefile's new value if the makefile redefines the macro that came from it), the command line macros, the variables set by earlier set commands (with %NAME% replaced; setting nothing removes the variable) and the job server variables, and nothing else. Names are matched regardless of case, keep their spelling and never occur twice.",
  ["configurations", "inputs", "programs"], "all environments, macro definitions and set commands",
  NOBUILD + "The environment of a process is the sum of many sources.",
  ["macrotable.cpp", "jomprocess.cpp", "processenvironment.h", "commandexecutor.cpp"], [("environment macros", "macrotable.cpp"), ("environment block", "jomprocess.cpp createEnvBlock")], (), ["environment of each started process"])
p("C36", "Options that only report do not change what is built",
  "Adding /D, /P, /W, /U, /L, /NOLOGO, /S, /C, /X or /G to a command line changes only what is printed and where: the same commands are started in the same order with the same environment and files, and the exit status is the same. /W prints the working directory before and after, /U the content of inline files, /X sends jom's stderr to the given file.",
  ["configurations", "programs"], "all makefiles with all subsets of these options", NOBUILD + "The space of options, names and makefiles cannot be sampled by hand.",
  ["options.cpp", "src/app/main.cpp", "dependencygraph.cpp", "commandexecutor.cpp", "parser.cpp", "makefilefactory.cpp"],
  [("option flags", "options.cpp"), ("displayNodeBuildInfo", "dependencygraph.cpp")], (), ["stdout", "stderr", START])

p("C37", "Errors in makefiles are reported with the file and line they are in",
  "If a makefile or an included file has an erroneous statement in text that is not skipped (directive, expression, macro reference, syntax, missing include; also in commands and inline text), jom prints one error with the absolute path of the file the statement is in and a line number within the lines of that statement, runs nothing and ends with 2. The messages of !MESSAGE directives before it are printed, those after it are not. A makefile whose only errors are in skipped text has no error.",
  ["inputs"], "all makefiles with nested includes and conditionals, continuation lines, comments, inline text, encodings, and an error at any place",
  NOBUILD + "Line counting depends on every kind of line before the error.",
  ["makefilelinereader.cpp", "preprocessor.cpp", "parser.cpp", "exception.cpp"], [("m_nLineNumber", "makefilelinereader.cpp readLine"), ("error, currentFileName and lineNumber", "preprocessor.cpp")], (), ["stderr", "stdout", "exit status of jom"])
p("C38", "Large makefiles are built like small ones",
  "For chains, layers with many paths, wide targets, long command lists, deeply nested macro references, conditionals and includes, long lines and values, large inline files, many rules, batch rules, goals and command file entries (thousands of each, up to 200 jobs), jom runs every needed command exactly once, after all its dependents, with at most the given number of jobs, with exact command lines, messages and inline text. It finishes in reasonable time; after one failing command it stops, and with /K it runs exactly what does not depend on it.",
  ["inputs", "schedules", "histories"], "structures of up to 2000 elements, combinations, job counts, one failing command",
  NOBUILD + "Tests only use makefiles of a few lines.",
  ["dependencygraph.cpp", "targetexecutor.cpp", "macrotable.cpp", "preprocessor.cpp", "makefilelinereader.cpp", "parser.cpp", "makefile.cpp"], [("internalBuild", "dependencygraph.cpp"), ("startProcesses", "targetexecutor.cpp")], (), [START, "stdout", "exit status of jom"])
p("C39", "Handles and files are released when they are no longer needed",
  "While jom builds, it has none of the makefiles, included files, command files and inline files open when a command starts, and it holds a bounded number of handles per running command (its process and the two ends it reads), however many commands have been run before and whether they succeeded, failed, crashed, could not be started or were passed to the command interpreter. When it ends by itself no pipe, process or thread handle is open, and it never closes a handle twice.",
  ["histories", "programs"], "all sequences of commands of every kind, job counts, completion orders",
  NOBUILD + "A leak shows only after thousands of commands.",
  ["jomprocess.cpp", "iocompletionport.cpp", "preprocessor.cpp", "makefilelinereader.cpp", "commandexecutor.cpp"], [("onProcessFinished and start", "jomprocess.cpp"), ("m_fileStack", "preprocessor.cpp")], (), ["open handles and files of jom"])
p("C40", "Rewriting a makefile without changing its meaning does not change the build",
  "jom starts the same commands in the same order, directory and with the same inline files, and gives the same output and exit status, after a makefile was rewritten in ways that do not change its meaning. Such rewrites are: putting blocks into active conditionals (with anything in the inactive branches) or included files, changing the order of blocks other than the first, continuing lines, adding comments and blank lines, putting words into macros, substitutions without a match, splitting dependency lines or merging targets with equal blocks, the first command on the dependency line, quotes, other letter case and ./ before files, CR LF, and giving options and macros in another place.",
  ["programs", "inputs", "configurations"], "all makefiles, all sequences of rewrites",
  NOBUILD + "Interactions of language features are too many to list by hand.",
  ["parser.cpp", "preprocessor.cpp", "makefilelinereader.cpp", "macrotable.cpp", "makefile.cpp", "options.cpp", "makefilefactory.cpp"], [("parseDescriptionBlock", "parser.cpp"), ("readLine", "preprocessor.cpp"), ("expandMacros", "macrotable.cpp")], (), [START, "stdout", "stderr", "exit status of jom"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, s)
        assert x["statement"].replace("...", "").count(". ") <= 2, x["id"]
        assert len(x["title"]) <= 80, x["id"]
except ImportError:
    pass
print(len(P))
