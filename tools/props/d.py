[
{"id": "P12", "title": "Match types and comparators give the documented result",
 "statement": "For all values and keys, :is, :contains, :matches (wildcards ? and *, escaped by backslash), :value, :count and :regex hold exactly when some value and some key stand in that relation under the comparator: i;octet compares exactly, i;ascii-numeric as numbers (what is no number is infinite), others ignoring case. Empty keys are contained in everything, unset environment items match nothing, and not inverts the result.",
 "over": ["inputs", "programs"], "forall": "every list of values and keys (any Unicode text, any number syntax, any wildcard pattern), every match type and comparator, in the string, environment and header tests",
 "why": "Matching is a function over unbounded strings and patterns with backtracking; fixtures compare a few short ASCII values.",
 "files": ["src/runtime/tests/comparator.rs", "src/runtime/tests/glob.rs", "src/runtime/tests/test_string.rs", "src/runtime/tests/test_header.rs", "src/runtime/mod.rs", "src/compiler/grammar/test.rs"],
 "mech": [("Comparator::is/contains/relational/matches/regex", "src/runtime/tests/comparator.rs"), ("GlobPattern", "src/runtime/tests/glob.rs"), ("Variable::to_number, Number comparison", "src/runtime/mod.rs")],
 "state": [("LazyRegex", "compiled regular expressions", "src/compiler/mod.rs")],
 "observe": ["outcome of every test, seen as calls of an external function"],
 "rule": "A case is a script of up to six tests over random values and keys derived from them (case changed, cut, with wildcards and escapes, as constants or through variables); every outcome is compared with a reference matcher. Distinct by kind of test, match type, comparator, values and keys.",
 "technique": "runtime monitoring: outcomes of tests compared with a reference matcher (dynamic programming for wildcards, backtracking for regular expressions)",
 "note": "Exploration. Known findings: later keys of string and environment tests, numbers in text values, case folding of unusual letters in wildcards (code under src/runtime/tests/, which may not be changed).",
 "need": ["String is true", "String matches true", "String value false", "Header matches true", "Header count true", "Environment regex true", "i;ascii-numeric value", "i;octet contains"]},
{"id": "P13", "title": "Match variables hold what the last successful match captured",
 "statement": "After a successful :matches or :regex test, ${0} is the text that matched and ${1}, ${2}, … what each wildcard (as short as possible from the left, in the original case) or group stands for; numbers that take no part are empty. Tests that fail, or compare otherwise, change nothing, a later match replaces all values, and the values last until the block with the test ends.",
 "over": ["programs", "inputs"], "forall": "every combination of tests, blocks, loops and references whose value comes from a test of the nearest block that has match tests",
 "why": "The compiler decides per test which variables to capture and when to clear them; fixtures use one test and one reference.",
 "files": ["src/runtime/variables.rs", "src/runtime/tests/glob.rs", "src/runtime/tests/comparator.rs", "src/compiler/grammar/instruction.rs", "src/compiler/lexer/string.rs", "src/compiler/grammar/test.rs"],
 "mech": [("set_match_variables, clear_match_variables", "src/runtime/variables.rs"), ("register_match_var", "src/compiler/grammar/instruction.rs"), ("GlobPattern::capture", "src/runtime/tests/glob.rs")],
 "state": [("vars_match", "match variables", "src/runtime/context.rs"), ("match_test_pos, match_test_vars", "tests that capture, variables in use", "src/compiler/grammar/instruction.rs")],
 "observe": ["values passed to functions, folder names, outcomes of tests whose arguments use match variables"],
 "rule": "A case is a random program of nested conditions, loops and tests with references to match variables in strings and in the arguments of later tests, compared with an interpreter that follows RFC 5229; programs that read values from another block's tests are not counted. Distinct by script.",
 "technique": "runtime monitoring: values of match variables compared with a reference interpreter",
 "note": "Exploration. Known findings: a match in which no variable in use takes part keeps older values, U+FFFD is dropped from captures. References across nested blocks that both have match tests are a known limitation (DESIGN.md).",
 "need": ["matches", "variables shown after a match", "in loops", "with :regex"]},
{"id": "P14", "title": "Expressions compute the value and make the calls their text says",
 "statement": "The value of an expression is that of its syntax tree: unary ! and -, then * /, + -, < <= > >=, == !=, ^, &, |, binary ones from the left, with parentheses, array literals and indexes; strings written like numbers count as numbers in arithmetic and comparison, + joins when an operand is text, integers saturate, division by zero gives 0. Operands and arguments are evaluated from the left, exactly once, and && and || skip the right operand when the left one decides.",
 "over": ["inputs", "programs"], "forall": "every expression over constants of any kind, variables of any scope, native and external functions, arrays and indexes, in let, eval and while",
 "why": "Tokenizer, shunting-yard parser, jump offsets and a stack machine must agree on every nesting; fixtures contain a few dozen short expressions.",
 "files": ["src/compiler/grammar/expr/tokenizer.rs", "src/compiler/grammar/expr/parser.rs", "src/compiler/grammar/expr/mod.rs", "src/runtime/expression.rs", "src/runtime/mod.rs", "src/compiler/grammar/actions/action_eval.rs"],
 "mech": [("Tokenizer::next", "src/compiler/grammar/expr/tokenizer.rs"), ("ExpressionParser::parse", "src/compiler/grammar/expr/parser.rs"), ("eval_expression, Variable::op_*", "src/runtime/expression.rs")],
 "state": [("expr_stack, expr_pos", "state of an expression suspended for an external call", "src/runtime/context.rs")],
 "observe": ["values and their types passed to external functions, order of the calls, branch taken"],
 "rule": "A case is a script of up to six random expressions printed from syntax trees with random spacing, parentheses and quoting; all values and calls are compared with an evaluator over the trees. Distinct by script.",
 "technique": "runtime monitoring: values and external calls compared with a reference evaluator",
 "note": "Exploration. Float results are compared exactly with IEEE double arithmetic.",
 "need": ["values and calls compared", "short circuits", "long expressions"]},
]
