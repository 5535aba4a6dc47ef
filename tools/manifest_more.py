T["C04"] = ("runtime monitor: literal spellings generated together with the value they denote, planted in real programs and compared with the value the compiled JSON holds",
  "Observed executions only. Spelling and value are generated together (no second parser of literals is trusted), floats are checked against Rust's correctly rounded decimal parser and exact arithmetic.")
NEG = "runtime monitor: one mistake planted at a marked place of a random valid multi-file program; "
T["C09"] = (NEG + "the real compiler must reject it",
  "Observed executions only: about 200 kinds of mistake at random sites. The kinds themselves are reviewed by hand against the grammar and the Avro specification.")
T["C10"] = (NEG + "the returned diagnostic must name the marked file and cover the mark",
  "Observed executions only. The mark is put into the rendered text and removed again, so the expected span does not depend on any offset computed by the code under test.")
T["C14"] = ("runtime monitor: metamorphic oracle; one random program is spelled in several styles and the real compiler's results are compared with each other",
  "Observed executions only. No model is involved: both results come from the code under test. Styles cover white space, comments, line ends, quoting, literal spellings, grouping of variables, grouping of annotations, SUB.")
T["C18"] = ("runtime monitor: independent validity oracle for defaults, run over valid, nearly valid and arbitrary default values of random types in random programs",
  "Observed executions only. The validity rules are re-implemented from the Avro specification and this project's documentation (any string for enum, fixed and bytes; extra record keys allowed; any branch of a union).")
T["C22"] = ("runtime monitor: metamorphic oracle; declarations of a random program are permuted or moved into imported files and the resolved results compared",
  "Observed executions only. Results are compared after name resolution by the monitor's own Avro JSON reader.")
T["C17"] = ("runtime monitor: conditions that deserve a warning are planted at known places of random programs; the warnings delivered are matched one to one with them",
  "Observed executions only. Stray doc comments and unrecognised characters are inserted at token boundaries found by the monitor's own scanner; the result is compared with that of the program without them.")
T["C23"] = ("runtime monitor: several independent mistakes are planted at marked places of random programs; the reported errors are matched one to one with them, then again with one mistake put right",
  "Observed executions only. Expected places come from marks in the rendered text; suggestions are judged with the monitor's own edit distance.")
T["C11"] = ("runtime monitor: hostile and mutated inputs under a panic guard, a hang watchdog, an allocation budget and a diagnostic checker (labels inside the source, renderable); the same workload with AddressSanitizer",
  "Observed executions only. Nesting and length are probed up to 60000; undefined behaviour is what AddressSanitizer and debug assertions see.")
T["C12"] = ("runtime monitor: every outcome (JSON, errors, warnings, positions, rendering) of a compilation is compared with that of repetitions: in other processes with other hash seeds, on used builders, after other compilations, by the command line program",
  "Observed executions only. Both outcomes come from the code under test; hash seeds differ per process and per map, so each comparison samples new orders.")
T["C13"] = ("runtime monitor: 2 to 16 threads start compiling at the same moment in a fresh process, with random delays; outcomes compared with a sequential process; a quarter of the runs under ThreadSanitizer",
  "Observed executions only: schedules are those the operating system and the injected delays give; data races are those ThreadSanitizer sees on them.")
T["C15"] = ("runtime monitor: the real command line program is run as a process, with write faults (full device, size limits, occupied or missing paths), and its exit status, output streams and every file below its directory are compared with the library's outcome",
  "Observed executions only. Texts on standard error are compared without white space and frames. Faults are those an unprivileged scratch directory, /dev/full and ulimit can produce.")
T["C20"] = ("runtime monitor: counting allocator, run-away budget and watchdog over families of programs compiled at doubling sizes",
  "Observed executions only: some 70 fixed families and random chains of types, doubled two or three times. Growth that shows only beyond these sizes, or work that allocates nothing and stays within seconds, is not seen.")
T["C24"] = ("runtime monitor: random slips in random valid programs; what the real compiler's first syntax error states about the source is checked against the monitor's own scan of it, and the suggestion it makes is applied and compiled",
  "Observed executions only. Messages that name no cause are not judged; for two slips at once only the weaker rules apply.")
