ORACLE = {
"C01": "Invariant over the event log: no start event of a command lies before the exit event of a command of a direct or indirect dependent (the closure is computed from the generated graph).",
"C02": "Reference model (`mk.Ref`): computes from graph, times and options the exact multiset of command blocks; compared with the start events. Ages, equal time stamps and pseudo targets are generated deliberately.",
"C03": "Reference model of the exit status (failed, tolerated, /K, /I) and the invariants: status 'exit' (no deadlock, no step limit), no process of jom's left running. Notifications of process ends can be delayed by the schedule, other job clients can take tokens.",
"C04": "Invariants over the log: number of running processes, tokens held by jom at each start, semaphore value at the end; work conservation: whenever jom is idle waiting and a slot (own or a free token) and a ready target exist, the property is violated.",
"C05": "As C04 with an inherited server; the message about overriding and the creation of a new semaphore are predicted from /J, MAKEFLAGS and the inherited variables (including invalid ones).",
"C06": "Model of the failed command; invariants: no command of the failed target afterwards, no start of another target after the exit event of the failure was delivered, targets already being built are completed, error line names target and code, exit 2.",
"C07": "Model: set of targets blocked by failures is the upward closure; executed set, skipped messages and exit status are compared exactly.",
"C08": "Model of modifiers (parsed from a generated list, not from the text), .IGNORE position, /I; every command's effect on the target's continuation is compared.",
"C09": "Interpreter of the command list: current directory (Windows paths), environment per target/jom; every start event must have the predicted directory and environment, in order. Failing cd is compared as failed command.",
"C10": "Model of echo text, direct or shell execution, exact command line passed to CreateProcess (after macro expansion and %% handling), and number of echoes.",
"C11": "Every command has an own alphabet of bytes and unique chunks, so that for the streams it can be decided exactly which byte belongs to which command; checks completeness, order, and that segments do not interleave (one target at a time may be shown directly, which is allowed to be the outer one).",
"C12": "Snapshots of the file system at each process start: the file named in the command line must have the content expected by the model (macros, CR LF, KEEP irrelevant), names fresh and unique among files that exist.",
"C13": "Final file system against the model (kept files with content, nothing else new), also after Ctrl-C at every scheduling point and after failures; remove events only for files of jom's own and only after the target's last exit event.",
"C14": "Metamorphic: output of /N compared with echo of a real /J1 run whose commands all touch their target; plus no start events, no changed files, exit 0.",
"C15": "Differential: executed commands, sorted output lines, final files and exit status equal between two configurations (jobs, schedule, hash seed, processes running on their own).",
"C16": "Stateful: build, then rounds of (change or delete something, build again with another schedule); second build empty, later rounds exactly the dependent targets (closure in the generated graph, rules included).",
"C17": "Model of rule choice (suffix list at the end of the makefile, order of definitions, search paths, sources that exist or are targets) compared with the executed commands and $<.",
"C18": "Model: the multiset of sources over all groups, group sizes, order against parents and sources' own builds; /Y run by run.",
"C19": "Reference graph with extra edges for .SYNC: order invariant as C01, executed set as C02 of the graph without it.",
"C20": "Model: reachable cycle by depth-first search over names as jom identifies them; otherwise the set of executed targets as in C02. Ladders with 2^25 paths check for exponential time.",
"C21": "Model of blocks (targets × dependents × commands), printed as makefile text in many spellings; executed commands with $** are compared.",
"C22": "Model of all file name macros and modifiers for the generated target and dependents; exact command lines.",
"C23": "Model of wildcard matching against the generated directory tree; dependents seen by $** and by up-to-dateness.",
"C24": "Parser for both dump formats; edges (dot) and paths (tree) equal those of the generated graph, plus no start events and no changed files.",
"C25": "Interpreter of macro definitions and references over an abstract syntax (printed into text), values compared through commands and messages; malformed references must be errors.",
"C26": "Model of the precedence; every name probed through commands, messages and !IFDEF.",
"C27": "Interpreter of the generated tree of conditionals; compared are messages, final macro values, targets, commands, inline texts. Text in branches that are not taken is damaged on purpose.",
"C28": "Reference evaluator over generated syntax trees (values in 32 bit), reference recogniser for mutated token lists; asan build.",
"C29": "The same makefile in one piece (metamorphic) and the interpreter of C27; search order with decoys in directories of lower priority.",
"C30": "Model of logical lines from generated parts; the encodings, line ends and paddings are variations with the same expected result.",
"C31": "Expected effect per option, and differential runs: separate against combined, command line against JOMFLAGS/MAKEFLAGS, $(MAKEFLAGS) fed back.",
"C32": "Words known before they are quoted; expected macro values and order of targets; differential run with the words as arguments.",
"C33": "No crash, sanitizer report, step/CPU/memory limit; error exits have a message. Token soup, damaged valid makefiles, hostile environment and arguments.",
"C34": "Model of which names exist, are targets or can be made by a rule; predicts message, status and that nothing runs (or, for rule-only dependents, that nothing depending on it runs).",
"C35": "Model of the environment block: every start event's raw block is compared with the predicted one, incl. odd names such as `=C:`.",
"C36": "Metamorphic: the run with reporting options has the same start events (order, environment, directories, files) and the same status; extra output is checked for /W, /U and /X.",
"C37": "The generator knows the file and the physical lines of the one error it placed (or that there is none); the message, status, absence of commands and the !MESSAGE output before it are compared.",
"C38": "Every structure (chain, ladder, layers, ...) adds its targets, commands, messages and output to an expected set; the events of the run must be exactly these, each once, in an order allowed by the dependencies, and at most /J at a time.",
"C39": "The simulated machine counts the handles and files jom has open; the bound follows from the number of jobs, and the count must be 0 at the end.",
"C40": "The same makefile without rewrites: command lines, directories, inline files, output, messages (with the name of the makefile normalized), kept files and exit status must be equal; with several jobs as sets.",
}
