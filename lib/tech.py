"""Technique and assurance notes of individual checks, for MANIFEST.json."""
TECH = {
 "C13": ("runtime monitoring: ThreadSanitizer build under perturbed schedules; offline checker over per-IP event histories (positions, instructions, stacks), ids, output conservation, final fungespace and exit code",
         "Exploration: race reports, hangs and crashes on the schedules that occurred, and an order-insensitive comparison of every IP's history with the model; schedules that did not occur are not decided."),
 "C26": ("runtime monitoring: lock-step comparison with an independent model of several universes whose turns a scheduler draws at random; order-insensitive history comparison for free-running isolated universes; ThreadSanitizer build for free-running connected ones",
         "Exploration: every generated execution is decided in full under the order of turns that was drawn; free-running connected universes are only watched for races, crashes and threads that wait for each other for ever."),
}
TECH["C25"] = ("runtime monitoring: lock-step comparison of debugged executions with an independent model of the debugger (commands from standard input, breakpoints, watchpoints, listings, DBUG), including every line it prints",
         "Exploration: every generated debugging session is decided in full up to its step limit. Vectors are compared without trailing zero coordinates; prompts of several universes at once and native threads are outside.")
TECH["C32"] = ("runtime monitoring: every random choice of the ASan+UBSan-built interpreter is observed, checked for membership and counted; offline statistical monitor over the counts of the whole run",
         "Exploration: a violation is a count that is at least 30% too low and has a probability below 1e-12 under fairness; smaller biases are not decided.")
TECH["C33"] = ("runtime monitoring: pseudo-terminal as standard input; the monitor compares the terminal's settings before each instruction and at exit; lock-step comparison of the values read; perturbed schedules of reading threads",
         "Exploration: printable keys and line ends; keys that the terminal itself interprets, and ends by signals, are outside. Executions of native threads are decided by exit status and settings only.")
TECH["C34"] = ("runtime monitoring: lock-step comparison with an independent model; the monitor records how much output has been written when a command runs; pseudo-terminal on which keys are typed only once their question is visible; native threads under perturbed schedules with an order checker on their output",
         "Exploration: every generated execution is decided; a question that stays invisible shows as a program that waits for ever.")
TECH["C35"] = ("runtime monitoring: live heap bytes (AddressSanitizer's allocator statistics), open files, threads and address space sampled in every round of generated programs that an independent model finds in the same state round after round; offline growth checker; ASan+UBSan build",
         "Exploration: 400 rounds of every generated program; a loss of less than about 3 bytes per round (300 bytes with native threads) or one that appears only after more rounds is not decided.")
NA = {}
