[
{"id": "P10", "title": "Compiler limits refuse exactly the scripts that exceed them",
 "statement": "A script is refused with the matching error, at the line that goes beyond, exactly when it exceeds a limit of the compiler: script size, string size, nested blocks, nested anyof/allof, nested foreverypart, includes, local variables (those in scope at once, at most 256), match variable numbers (at most 63), names declared global, header values. Below the limits they change nothing: the compiled program is the same as under wider limits and each variable keeps a value of its own.",
 "over": ["programs", "configurations"], "forall": "every script and every setting of the limits, at and around each boundary",
 "why": "Limits keep compiled scripts bounded; fixtures run under one setting and do not combine structure, scopes and limits.",
 "files": ["src/compiler/mod.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/compiler/grammar/actions/action_set.rs", "src/compiler/grammar/actions/action_editheader.rs", "src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/string.rs"],
 "mech": [("block and loop nesting", "src/compiler/grammar/instruction.rs"), ("variables in scope", "src/compiler/grammar/actions/action_set.rs"), ("string size", "src/compiler/lexer/tokenizer.rs")],
 "state": [("vars_num, vars_num_max, vars_local", "variables in scope", "src/compiler/grammar/instruction.rs"), ("block_stack", "open blocks", "src/compiler/grammar/instruction.rs")],
 "observe": ["compile verdicts with error and line, compiled programs, values of variables at run time"],
 "rule": "A case is a random script whose structure stays near one of the limits, compiled under random limits and compared with a counting model and with the program compiled under wide limits; or a script that fills all variables up to the limit and reads them back. Distinct by script and limits.",
 "technique": "runtime monitoring: compile verdicts checked against a counting model, values observed at run time",
 "note": "Exploration. The string size limit is exclusive, and foreverypart nesting does not count the loop directly around, as implemented and pinned by the fixtures.",
 "need": ["accepted", "values of all variables read back", "refused HeaderTooLong", "refused InvalidMatchVariable", "refused ScriptTooLong", "refused StringTooLong", "refused TooManyIncludes", "refused TooManyNestedBlocks", "refused TooManyNestedForEveryParts", "refused TooManyNestedTests", "refused TooManyVariables", "refused VariableTooLong"]},
{"id": "P11", "title": "Variables hold what was set, in their scope, cut to the size limit",
 "statement": "A variable reads back the value last set after its modifiers applied in order of precedence, cut at a character boundary to max_variable_size. Names are case-insensitive; a local variable lives from its first assignment to the end of its block (with :local, of the script), a global one for the whole run and for the host, unknown ones are empty and malformed references stay literal text; setting an envelope variable tells the host and changes the envelope. A string given through a variable acts like the same constant in every argument that allows variables.",
 "over": ["programs", "inputs", "configurations"], "forall": "every program of assignments, blocks and references, every value and size limit, every string argument of the language",
 "why": "Fixtures set a few variables to short ASCII values; slots are reused and remapped by the compiler, and each argument handles variables by code of its own.",
 "files": ["src/runtime/actions/action_set.rs", "src/compiler/grammar/actions/action_set.rs", "src/compiler/grammar/instruction.rs", "src/compiler/lexer/string.rs", "src/runtime/eval.rs", "src/runtime/context.rs"],
 "mech": [("Modifier::apply", "src/runtime/actions/action_set.rs"), ("register_variable, Clear, map_local_vars", "src/compiler/grammar/instruction.rs"), ("tokenize_string", "src/compiler/lexer/string.rs")],
 "state": [("vars_local, vars_global", "values of variables", "src/runtime/context.rs")],
 "observe": ["values passed to functions, folder names, SetEnvelope events; whole event logs for substitution"],
 "rule": "A case is a random program of assignments with modifiers, scopes, loops and interpolated references under a size limit compared with a reference interpreter, or a generated script over the whole language and the same script with constants moved to local, global or :local variables, whose logs and messages are compared. Distinct by script.",
 "technique": "runtime monitoring: values compared with a reference interpreter; metamorphic comparison of event logs (constants against variables)",
 "note": "Exploration. Variables left behind by a break out of their block are a known limitation (DESIGN.md) and not generated; :upper together with :replace has no defined order.",
 "need": ["programs", "substituted: local", "substituted: declared global", "substituted: global namespace", "substituted: :local in a block"]},
]
