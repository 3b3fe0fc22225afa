[
{"id": "P03", "title": "The CPU limit cuts a run at one point and nothing else",
 "statement": "A run that ends within the CPU limit is the same as under any larger limit. Under a smaller limit it is the same run cut at one point: the events before that point are unchanged, then exactly one CPU-limit error, then the final disposition (the message is kept unless already disposed of); the point never moves backwards when the limit grows, and every executed command is charged, in loops, included scripts and tests alike, so that no loop runs without end.",
 "over": ["programs", "histories", "configurations"], "forall": "every compiled script, message, sequence of answers and CPU limit",
 "why": "Fixtures have one script that loops beyond the limit; the property relates the same program under all limits.",
 "files": ["src/runtime/context.rs", "src/runtime/mod.rs"],
 "mech": [("instruction counter", "src/runtime/context.rs"), ("conditional jumps and loops", "src/runtime/context.rs")],
 "state": [("num_instructions", "commands executed so far", "src/runtime/context.rs")],
 "observe": ["event streams of the same program under several limits"],
 "rule": "A case is a generated program (whole language, loops, includes) run without a limit and then under limits chosen between one and its cost; the streams are compared; distinct by script and answers.",
 "technique": "runtime monitoring: metamorphic comparison of event logs under different limits",
 "note": "Exploration. Programs whose output depends on the clock or on generated ids are skipped."},
{"id": "P07", "title": "Outgoing messages never exceed the configured limits",
 "statement": "Redirects never exceed max_redirects, and redirects, vacation replies and mailto notifications together never exceed max_out_messages, also in loops, part iterations and included scripts; within the limits each one is sent. A message that has reached max_received_headers is not redirected and one beyond it is not replied to; a refused redirect leaves the keep in force, and a mailto notification beyond the limit is handed to the host as a notification.",
 "over": ["programs", "histories", "configurations"], "forall": "every program of outgoing actions with loops and includes, every limit, every message and answer of the host",
 "why": "Limits protect against mail loops and abuse; fixtures never combine the kinds of outgoing messages or repeat them.",
 "files": ["src/runtime/actions/action_redirect.rs", "src/runtime/actions/action_vacation.rs", "src/runtime/actions/action_notify.rs", "src/runtime/context.rs"],
 "mech": [("limits on redirects and outgoing messages", "src/runtime/actions/action_redirect.rs"), ("received headers", "src/runtime/actions/action_redirect.rs")],
 "state": [("num_out_messages", "messages sent so far", "src/runtime/context.rs"), ("num_redirects", "redirects so far", "src/runtime/context.rs")],
 "observe": ["SendMessage, Notify, DuplicateId, FileInto and final events"],
 "rule": "A case is a random program of redirects, vacations, notifications, loops and includes under random limits over a message with some Received fields, compared with a counting model; distinct by scripts and limits, trivial when nothing but the final event happened.",
 "technique": "runtime monitoring: event log checked against a counting model, plus a limit monitor independent of it",
 "note": "Exploration.",
 "need": ["redirects refused by a limit", "mailto beyond the limit", "replies refused by the limit", "observed redirect", "observed reply", "observed mailto"]},
{"id": "P08", "title": "Included scripts are found by name and run in their own frame",
 "statement": "include asks the host for a script exactly once per location and name, runs it every time (once with :once), and continues after the include when it ends or returns; stop and errors end the whole run. An included script has its own local and match variables and shares global variables (however declared) with its includers; a missing script is skipped; nesting beyond max_nested_includes is an error that keeps the message.",
 "over": ["programs", "histories", "configurations"], "forall": "every set of scripts including each other in any shape, every answer of the host, every nesting limit",
 "why": "Fixtures include a few scripts; frames, caching, once and depth interact with loops, recursion and variables.",
 "files": ["src/runtime/actions/action_include.rs", "src/runtime/context.rs", "src/compiler/grammar/actions/action_include.rs"],
 "mech": [("script cache", "src/runtime/actions/action_include.rs"), ("script stack", "src/runtime/context.rs")],
 "state": [("script_cache", "scripts the host supplied", "src/runtime/context.rs"), ("script_stack", "frames of the including scripts", "src/runtime/context.rs")],
 "observe": ["IncludeScript events", "trace marks carrying the values of variables"],
 "rule": "A case is four random scripts that include each other under random names, a random store of the host and a random nesting limit, compared with a reference interpreter; distinct by scripts, store and limit.",
 "technique": "runtime monitoring: trace of includes and variable values compared with a reference interpreter",
 "note": "Exploration. The host never answers with a script of another name."},
{"id": "P09", "title": "Capabilities are enforced by the compiler and by the host's configuration",
 "statement": "A script compiles only when every command, test and tagged argument that belongs to an extension is used where that extension's capability is required, in its block or an enclosing one; otherwise the error names the missing capability. At run time a script that requires a capability the host does not allow ends at that point with an error naming it, no later command takes effect and the message is kept. ihave tells exactly which capabilities the host allows, and with ihave required unknown commands and tests are errors only when they are reached.",
 "over": ["programs", "configurations"], "forall": "every construct of the language in every position, every set of required and of allowed capabilities",
 "why": "Each extension has one fixture that requires all it needs; that each construct is refused without its capability, in every block structure, is not sampled.",
 "files": ["src/compiler/grammar/mod.rs", "src/compiler/grammar/actions/action_require.rs", "src/compiler/grammar/test.rs", "src/compiler/grammar/instruction.rs", "src/runtime/context.rs", "src/runtime/tests/mod.rs"],
 "mech": [("validate_argument", "src/compiler/grammar/mod.rs"), ("capabilities of a block", "src/compiler/grammar/instruction.rs"), ("Require instruction", "src/runtime/context.rs")],
 "state": [("allowed_capabilities", "what the host allows", "src/runtime/mod.rs")],
 "observe": ["compile results and errors", "CapabilityNotAllowed, CapabilityNotSupported and InvalidInstruction errors with the events around them"],
 "rule": "A case is a generated script over the whole language compiled with exactly its capabilities and without each of them and then run with some denied, or a random block structure of requires, uses, ihave tests and unknown names compared with a reference model; plus a table of every construct and its capabilities. Distinct by script and denied set.",
 "technique": "runtime monitoring: compile verdicts and event logs compared with a table of constructs and a reference model of scopes",
 "note": "Exploration plus a complete table of the constructs. Comparators, encoded-character, variable interpolation and variable names of flag actions are not tied to a capability by the library and not claimed.",
 "need": ["runs ended by CapabilityNotAllowed", "runs ended by CapabilityNotSupported", "runs ended by InvalidInstruction", "scripts refused for an unknown name", "scripts refused for a capability out of scope", "rows of the table"]},
]
