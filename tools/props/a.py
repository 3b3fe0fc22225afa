[
{"id": "P01", "title": "Compiling a script always ends with a script or an error, never with a crash",
 "statement": "For every byte string and every compiler configuration, compiling ends normally: it returns a compiled script or one compile error, without panicking, aborting, overflowing the stack, running away or using memory out of proportion to the input. The error names a line inside the script.",
 "over": ["inputs", "configurations"], "forall": "every byte string offered as a script (valid, mutated, truncated, binary, deeply nested) under every combination of compiler limits and of the no-capability-check setting",
 "why": "The fixtures compile about a hundred well-formed scripts and a handful of erroneous ones under the default limits; hosts compile whatever users upload.",
 "files": ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/string.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/compiler/grammar/expr/tokenizer.rs", "src/compiler/grammar/expr/parser.rs"],
 "mech": [("block and test stacks bounded by the nesting limits", "src/compiler/grammar/instruction.rs"), ("token and string size limits", "src/compiler/lexer/tokenizer.rs")],
 "observe": ["Compiler::compile result", "process exit, panics, memory limit, progress of the worker"],
 "rule": "A case is a script made by the grammar-directed generator, by mutating one (bytes, tokens, truncation, splicing, nesting) or at random, compiled under random limits with overflow checks and debug assertions on; distinct by its bytes and limits.",
 "technique": "runtime monitoring: panic, hang and memory monitors around the real compiler under generated hostile scripts",
 "note": "Exploration: holds on every generated script. Arithmetic overflow is checked by the compiler's instrumentation (overflow-checks, debug-assertions)."},
{"id": "P02", "title": "Running a compiled script always ends, obeys the host protocol and never crashes",
 "statement": "Any script that compiles, run over any message with a well-formed part tree and any answers of the host, ends after a number of events bounded by its CPU limit, without panicking. The events follow the protocol: message ids are consecutive and created before they are used, at most one error is reported and only the message and its final disposition follow it, the final keep or discard is the last event and happens at most once, and afterwards the run reports nothing more. A run that ends without keep or discard has filed, sent or rejected the message.",
 "over": ["programs", "inputs", "histories", "configurations"], "forall": "every compiled script, every message, every sequence of answers by the host, every runtime configuration",
 "why": "Fixtures run cooperative scripts to their end with one scripted host; the property is about all programs, hostile messages and arbitrary hosts.",
 "files": ["src/runtime/context.rs", "src/runtime/mod.rs", "src/runtime/eval.rs", "src/runtime/actions", "src/runtime/tests"],
 "mech": [("the interpreter loop and its queue of events", "src/runtime/context.rs"), ("final event", "src/runtime/context.rs")],
 "state": [("final_event", "what happens to the message at the end", "src/runtime/context.rs")],
 "observe": ["every event returned by Context::run"],
 "rule": "A case is a generated script over the whole language (at times with changed bytes) run over a generated or damaged message under random limits and a random host; distinct by script, message and answers; trivial when nothing but the final event happened.",
 "technique": "runtime monitoring: online protocol automaton over the event stream plus panic and hang monitors",
 "note": "Exploration. Messages on which the message parser (a dependency) crashes or returns no tree are skipped and counted.",
 "assume": ["mail-parser returns a well-formed part tree; damaged nested messages for which it does not are counted, not judged"]},
{"id": "P04", "title": "No message is lost: every run disposes of the message as the script says",
 "statement": "Unless an executed action cancels it (discard, fileinto or redirect without :copy, reject), the message is kept at the end of every run, also when the run ends by stop, an error, a limit or a refused capability; an explicit keep is never undone by a later discard, fileinto or redirect. An action that is refused (redirect to an invalid address, to the user's own address, beyond a limit) does not cancel the keep, and after an error no further command takes effect.",
 "over": ["programs", "histories", "fault_sequences", "configurations"], "forall": "every program of actions, host answers, limits and every point at which an error can end the run",
 "why": "Fixtures show single combinations of actions; losing mail depends on the order of actions, limits and the place of an error.",
 "files": ["src/runtime/context.rs", "src/runtime/actions/action_fileinto.rs", "src/runtime/actions/action_redirect.rs", "src/runtime/eval.rs"],
 "mech": [("final event kept by the context", "src/runtime/context.rs"), (":copy and refusal leave the final event", "src/runtime/actions/action_redirect.rs")],
 "state": [("final_event", "what happens to the message at the end", "src/runtime/context.rs")],
 "observe": ["final events, FileInto, SendMessage, Reject, errors"],
 "rule": "A case is a random action script (keep, discard, fileinto, redirect, reject, flags, edits, conditions, stop, errors) under random limits, run against a reference model of Sieve's implicit keep; distinct by script, answers and limits.",
 "technique": "runtime monitoring: event log checked against a reference model of the implicit keep",
 "note": "Exploration against an independent model of RFC 5228 2.10, RFC 3894, RFC 5429 and the library's documented limits.",
 "need": ["observed keep", "observed discard", "observed fileinto", "observed redirect", "observed reject", "observed error"]},
{"id": "P05", "title": "Actions reach the host exactly once, in order and with the arguments as written",
 "statement": "Every executed keep, fileinto, redirect, reject and ereject produces exactly one event, in the order of execution, and nothing else produces one; its folder, mailbox id, special use, creation request, flags, recipient, delivery-status and deliver-by parameters and reason are the ones written in the script after expanding variables (flags taken from the internal flag variable when the action gives none). The message an action refers to is the original unless it was edited before (for a keep: by the end of the run), in which case exactly one new message is created first.",
 "over": ["programs", "histories", "configurations"], "forall": "every sequence of actions with every combination of their tagged arguments in any order",
 "why": "Each fixture exercises one combination of arguments; the argument table of each action has many combinations and interacts with earlier actions.",
 "files": ["src/runtime/actions", "src/compiler/grammar/actions", "src/runtime/context.rs"],
 "mech": [("one event per action", "src/runtime/eval.rs"), ("tagged arguments", "src/compiler/grammar/actions")],
 "observe": ["all events with all their fields"],
 "rule": "As P04, comparing all events with all their fields (flags as sets); distinct by script, answers and limits.",
 "technique": "runtime monitoring: event log (exactly-once, ordering, arguments) checked against a reference model",
 "note": "Exploration. Flags are compared as sets.",
 "need": ["observed keep", "observed fileinto", "observed redirect", "observed reject"]},
{"id": "P06", "title": "Commands run exactly as the structure, the tests and the host's answers say",
 "statement": "if/elsif/else, anyof, allof, not, while, foreverypart (with names), break, continue, stop, return and include run exactly the commands the language prescribes, in order and as often as prescribed; tests are evaluated left to right and only as far as needed, so the host is asked exactly the questions that decide the outcome.",
 "over": ["programs", "histories"], "forall": "every nesting of control structures and tests with every sequence of answers",
 "why": "Jump targets, short-circuiting and loop state are computed by the compiler for every nesting; fixtures cover isolated shapes.",
 "files": ["src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/runtime/context.rs", "src/runtime/actions/action_mime.rs"],
 "mech": [("jump patching", "src/compiler/grammar/instruction.rs"), ("short-circuit jumps", "src/compiler/grammar/test.rs"), ("part iteration stack", "src/runtime/context.rs")],
 "observe": ["calls of external functions used as trace marks", "questions to the host"],
 "rule": "A case is a random structured program (three scripts) with trace marks, a message with a random part tree and random answers, compared with a reference interpreter; all test trees up to depth two are enumerated; distinct by program and answers, trivial when no mark was reached.",
 "technique": "runtime monitoring: trace of marks and questions compared with a reference interpreter",
 "note": "Exploration, plus an exhaustive enumeration of small test trees.",
 "need": ["while iterations", "while breaks", "part iterations", "part breaks", "labelled breaks", "includes"]},
]
