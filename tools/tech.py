DEFAULT = "property-based testing with a reference model (generated makefiles and schedules on a simulated machine)"
NOTE_DEFAULT = ("Random search over generated scenarios with a fixed number of cases per tier; every failure is shrunk and replayed. Trusts the "
                "simulated Windows machine in sim/ (file system, processes, pipes, semaphores, cmd.exe subset) and the model in the check.")
TECH = {
 "C14": "metamorphic property-based testing: dry run against real run",
 "C15": "differential property-based testing: same makefile under two job counts and schedules",
 "C16": "stateful property-based testing: build, change, build again",
 "C29": "metamorphic property-based testing: includes against the text in place",
 "C30": "metamorphic property-based testing: encodings, line ends, continuations",
 "C31": "differential property-based testing of option spellings and sources",
 "C32": "differential property-based testing: command file against command line",
 "C33": "generative and mutational fuzzing with address and undefined-behaviour sanitizers",
 "C40": "metamorphic property-based testing: random meaning-preserving rewrites of whole makefiles",
 "C36": "metamorphic property-based testing: with and without reporting options",
}
NOTE = {}
NA = {}
