#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Parsing any text ends in an expression or an error, never in a crash",
  "For every UTF-8 text (empty, blank, truncated, non-ASCII included) and every parser context, parsing returns either an expression or a parse error: it never panics, aborts, reads outside the text, or otherwise leaves defined behaviour. Every expression it returns can then be displayed, listed for variables and evaluated (all variables supplied) without panicking either.",
  ["inputs", "configurations"], "all texts, all feature sets (pemdas/pejmdas, with and without compile-time optimizations, stable and nightly)",
  "The unit tests parse about 60 fixed, mostly well-formed texts; no test covers the empty text, stray operators next to '!', or non-ASCII bytes, and the parser slices bytes with unchecked UTF-8 conversions.",
  ["src/parser.rs", "src/element/simplify.rs", "src/xprs.rs", "src/token/operator.rs"],
  [("cursor-driven recursive descent with unchecked UTF-8 slices", "src/parser.rs ParserImpl"), ("unreachable!() arms for operator/arity mismatches", "src/xprs.rs, src/element/simplify.rs, src/element/binop.rs")],
  ["Parser::parse", "Xprs::try_from", "Xprs::eval", "Display"],
  [("cursor", "byte offset of the next unread byte, always <= text length and on a character boundary", "src/parser.rs ParserImpl")])

p("C02", "Accepted expressions mean what the documented order of operations says",
  "For every accepted text and every assignment of its variables, evaluating the (unoptimised) expression gives bit-for-bit the value obtained by reading the text with the documented rules: + - below * / % below ^, all left-associative, unary + and - binding tighter than * but looser than ^, postfix ! tightest, parentheses overriding. Implicit multiplication (juxtaposition) binds like * under `pemdas`, and tighter than * and / but looser than ^ under `pejmdas`.",
  ["inputs", "configurations"], "all accepted texts, all variable values, both precedence features",
  "Tests check a few dozen fixed texts with one assignment each; interactions of unary minus, !, ^, implicit multiplication and spacing are a product space they only sample.",
  ["src/parser.rs", "src/utils/precedence.rs", "src/token/operator.rs", "src/xprs.rs"],
  [("precedence climbing", "src/parser.rs element/get_operator_infos"), ("precedence table", "src/utils/precedence.rs"), ("tree evaluation", "src/xprs.rs eval_element")],
  ["Parser::parse + Xprs::eval"])

p("C03", "Exactly the well-formed texts are accepted, in every feature set",
  "A text parses if and only if it is a well-formed expression of the documented language: balanced parentheses, operands where required, no trailing tokens, function names always followed by a parenthesised list of at least one argument, at most one ! per operand, juxtaposition allowed before a letter or '(' in general, and before a digit only when the operand to its left is not a number (a literal, a named constant, or one of those in parentheses or with a sign or !). Whether a text is accepted does not depend on the optimization feature or the precedence feature.",
  ["inputs", "configurations"], "all texts, all feature sets",
  "Only 10 rejected texts are tested, all ASCII and short; acceptance in one feature set is never compared with another.",
  ["src/parser.rs"],
  [("atom/element/parse_arguments/end-of-input check", "src/parser.rs"), ("implicit multiplication guard", "src/parser.rs get_operator_infos")],
  ["Parser::parse (Ok or Err)"])

p("C04", "Numeric literals denote exactly the number written",
  "A numeric literal evaluates to the f64 nearest to the decimal number written, with underscores ignored and an exponent recognised only when e/E is followed by a digit or by a sign and a digit; otherwise the e/E starts a name multiplied implicitly. A digit/dot/underscore run that is not a number is rejected as malformed, quoting the run.",
  ["inputs"], "all digit, dot, underscore, exponent and sign combinations",
  "Tests try 9 literals, none with underscores, several dots or an upper-case exponent.",
  ["src/parser.rs"],
  [("literal scanner and exponent lookahead", "src/parser.rs parse_number")],
  ["Parser::parse + Xprs::eval", "ErrorKind::MalformedNumber"])

p("C05", "Parse errors quote the text and point inside it",
  "Every parse error carries the parsed text unchanged and a source span that lies inside that text on character boundaries, and its labels, help and message can be produced without panicking. The character, number or argument counts it quotes are those actually found at (or missing from) that place.",
  ["inputs"], "all rejected texts",
  "No test inspects a span, a source or an error kind (the test file says so in a TODO); errors at the first or last character and next to multi-byte characters are never exercised.",
  ["src/parser.rs"],
  [("ParseError constructors compute spans from the cursor", "src/parser.rs ParseError::new_*"), ("Diagnostic impl", "src/parser.rs")],
  ["miette::Diagnostic::labels/source_code/help", "Display of ParseError"])

p("C06", "Names resolve to the context first, then built-ins, else variables",
  "A maximal run of letters, digits, _ and ' starting with a letter is one name. It denotes the context's constant or function of that name if there is one, otherwise the built-in constant (pi, e) or function of exactly that name, otherwise a variable whose value is taken from the evaluation map; context entries therefore shadow built-ins and no name is resolved by prefix or case-insensitively.",
  ["inputs", "configurations"], "all names and all contexts",
  "Tests use a handful of names in one context, never shadow a built-in and never try near-misses such as sinx, Sin or e1.",
  ["src/parser.rs", "src/token/identifier.rs", "src/context.rs"],
  [("name scanner", "src/parser.rs parse_identifier"), ("lookup order", "src/parser.rs parse_identifier, src/token/identifier.rs from_str")],
  ["Parser::parse + Xprs::vars + Xprs::eval"])

p("C07", "Function calls get exactly the declared number of arguments, in order",
  "A call to a function declared with n arguments is accepted only with exactly n arguments and otherwise rejected reporting n and the number found; a variadic function accepts any number from one up. The implementation is called with the values of the written arguments in the written order, whether evaluated at run time or folded while parsing, and for functions wrapped from 1 up to 9 parameters by the definition macro.",
  ["inputs", "configurations"], "all arities, argument lists and argument values",
  "Tests call functions of one and two parameters with the right count and one wrong count.",
  ["src/parser.rs", "src/element/function_call.rs", "src/token/function.rs", "src/xprs.rs", "src/element/simplify.rs"],
  [("arity comparison", "src/parser.rs parse_identifier"), ("argument list", "src/parser.rs parse_arguments"), ("wrapping macro", "src/token/function.rs xprs_fn!")],
  ["Parser::parse", "Xprs::eval", "ErrorKind::TooFewArguments/TooManyArguments"])

p("C08", "Evaluation fails exactly when a needed variable is missing",
  "Evaluating with a map succeeds if and only if the map contains every variable of the expression, ignores extra entries, and otherwise returns an error naming a variable that is really missing. The unchecked evaluation returns the same value whenever the checked one succeeds and panics whenever it fails, and neither changes the expression.",
  ["inputs"], "all expressions, all maps, all values",
  "Two tests evaluate with a missing variable; checked and unchecked evaluators are separate recursive functions that are never compared.",
  ["src/xprs.rs"],
  [("checked evaluator", "src/xprs.rs eval_element"), ("unchecked evaluator", "src/xprs.rs eval_element_unchecked")],
  ["Xprs::eval", "Xprs::eval_unchecked", "Xprs::eval_no_vars"])

p("C09", "Optimization never changes the value of an expression",
  "For every expression and every assignment for which evaluating the text as written produces only finite intermediate results, the optimised expression (compile-time optimizations, on stable and nightly rules) evaluates to the same number, a zero being equal to a negative zero (functions that tell the two zeros apart, such as atan2 or 1/x called on a zero, excluded). Rewrites must therefore be valid for every value of the sub-expressions they drop.",
  ["inputs", "configurations"], "all expressions, all variable values with finite intermediates, both rule sets",
  "Tests compare optimised trees of 13 texts with expected trees and never evaluate an optimised tree against the original for varying values.",
  ["src/element/simplify.rs", "src/parser.rs", "src/element/binop.rs"],
  [("algebraic rewrite rules", "src/element/simplify.rs"), ("structural, commutative equality used by x-x, x/x, x%x", "src/element/binop.rs")],
  ["Parser::parse + Xprs::eval with and without the feature"])

p("C10", "Constant expressions fold to exactly what evaluating them gives",
  "An expression without variables evaluates to bit-for-bit the same result (any NaN counting as the same NaN) whether or not it was folded while parsing, including divisions by zero, overflow, infinities, NaN and signed zeros.",
  ["inputs", "configurations"], "all operator/operand combinations including special values",
  "Tests fold only expressions with small positive results.",
  ["src/element/simplify.rs", "src/xprs.rs", "src/utils/factorial.rs"],
  [("constant folding arms", "src/element/simplify.rs"), ("evaluator", "src/xprs.rs")],
  ["Parser::parse + Xprs::eval_no_vars"])

p("C11", "Substituting a variable and then evaluating equals evaluating with it bound",
  "For every expression, variable and value, simplifying the expression for that variable and evaluating the rest gives the value of the original expression with that variable bound (finite intermediates, zeros equal up to sign, functions that tell the two zeros apart excluded), the variable no longer being needed. The in-place, by-value and multi-variable forms agree with one another and with substituting one variable after the other; substituting an absent variable changes nothing but may fold.",
  ["inputs", "histories"], "all expressions, substitution sequences and values",
  "One test and doc examples substitute small positive integers into one linear expression.",
  ["src/xprs.rs", "src/element/simplify.rs"],
  [("substitution + rewriting", "src/element/simplify.rs simplify_for"), ("in-place replacement", "src/xprs.rs simplify_for_in_place/simplify_for_multiple_in_place")],
  ["Xprs::simplify_for*", "Xprs::eval"])

p("C12", "The reported variable set is exactly the set of variables left",
  "At all times (after parsing, optimising and any sequence of substitutions) the variable set of an expression is exactly the set of variables its evaluation needs: evaluation succeeds with just those, and fails if any one of them is withheld.",
  ["inputs", "histories"], "all expressions and substitution sequences",
  "Tests compare the set for a few texts; no substitution that makes other variables disappear is tested.",
  ["src/xprs.rs", "src/parser.rs", "src/element/mod.rs"],
  [("variable collection", "src/element/mod.rs find_variables, src/parser.rs parse"), ("set update on substitution", "src/xprs.rs simplify_for*")],
  ["Xprs::vars", "Xprs::eval"])

p("C13", "Bound functions check and pass variables faithfully",
  "Binding an expression to a list of variable names (bind to bind9, array and slice forms) succeeds if and only if every variable of the expression is listed, and otherwise the error names precisely the unlisted ones, singular or plural as appropriate, however many there are. A bound function called with values returns what evaluating with each name mapped to the value in the same position returns; the slice form returns an error when too few values are given for the needed names.",
  ["inputs"], "all expressions, name lists, positions and values",
  "Doc examples bind sums, where every permutation of the arguments gives the same result; more than nine variables or failing binds are not tested.",
  ["src/xprs.rs"],
  [("set difference + closure", "src/xprs.rs bind*"), ("error construction", "src/xprs.rs BindError::from_diff")],
  ["Xprs::bind..bind9, bind_n, bind_n_runtime"])

p("C14", "Factorial is n! on integers and NaN or infinity elsewhere, for every number",
  "For every f64 value, factorial (operator or function) is NaN for negative numbers, non-integers and NaN, n! for integers 0 to 170 (minus zero counting as 0; exactly up to 22!, the last one an f64 can hold, and within a relative error of 2e-15 above), and infinity for larger integers and infinity.",
  ["inputs"], "all 2^64 f64 values",
  "The test checks 14 values; the table of 171 constants and the unchecked float-to-index conversion are otherwise unchecked.",
  ["src/utils/factorial.rs"],
  [("range guards before an unchecked conversion", "src/utils/factorial.rs factorial"), ("table", "src/utils/factorial.rs FACTORIALS")],
  ["factorial(x), x! through Xprs::eval"])

p("C15", "Contexts: the last definition of a name wins, declared variables are enforced",
  "After any sequence of definitions through any of the setters, looking up a name gives the value or function most recently defined under it and nothing for other names. When variables are declared, a text whose expression contains an undeclared variable is rejected naming one such variable, and every other text parses as it would without the declaration.",
  ["inputs", "histories"], "all setter sequences, names, and texts",
  "One test sets four distinct names once; redefinition, function/constant clashes and rejection of undeclared variables are only in doc examples.",
  ["src/context.rs", "src/parser.rs"],
  [("single name map", "src/context.rs"), ("expected variables check", "src/parser.rs Parser::parse")],
  ["Context::get", "Context::get_expected_vars", "Parser::parse"])

p("C16", "Displayed expressions read back as the same expression",
  "Displaying an expression whose literals are finite and parsing the displayed text again gives an expression with the same variables and the same value for every assignment; displaying that one gives the same text, except that a negative literal left by folding or substitution may come back as a negation (that text then stays the same). In particular the shown parentheses are the actual order of operations.",
  ["inputs", "configurations"], "all expressions with finite literals, including substituted and folded ones",
  "Display is exercised by three doc examples, none with !, negative literals, nested functions or ^.",
  ["src/element/mod.rs", "src/element/binop.rs", "src/element/unop.rs", "src/element/function_call.rs", "src/token/operator.rs"],
  [("Display impls", "src/element/*.rs, src/token/operator.rs")],
  ["Display of Xprs", "Parser::parse"])

p("C17", "A panicking user function never corrupts an expression or memory",
  "If a user-defined function panics while an expression is parsed, simplified or evaluated, the panic unwinds to the caller with every allocation released at most once, and any expression still owned by the caller, the one operated on included, is what it was before and can be displayed, evaluated and dropped afterwards without touching freed memory.",
  ["fault_sequences", "inputs"], "all points at which a user function may panic",
  "No test uses a panicking function; the in-place substitutions duplicate the expression bitwise while foreign code runs.",
  ["src/xprs.rs", "src/element/simplify.rs", "src/element/function_call.rs"],
  [("bitwise read/write of the root around user code", "src/xprs.rs simplify_for_in_place, simplify_for_multiple_in_place")],
  ["Xprs::simplify_for_in_place", "Xprs::simplify_for_multiple_in_place", "Drop"])

p("C18", "Each built-in function computes its own mathematical function",
  "For all argument values, calling a built-in by name gives exactly the result of the mathematical function of that name on the arguments in the written order (atan2(y, x), logn(value, base), hypot, min, max, sum and mean over all arguments, recip and invert as 1/x, ln natural, log base 10), NaN results counting as equal and the sign of a zero that sum, mean, min or max gives being left open.",
  ["inputs"], "all argument values, argument counts for the variadic ones",
  "Only sin, cos, abs and a user-defined mean are ever called by a test.",
  ["src/utils/built_in_functions.rs", "src/token/identifier.rs"],
  [("table of built-ins", "src/utils/built_in_functions.rs"), ("name table", "src/token/identifier.rs")],
  ["Parser::parse + Xprs::eval"])

p("C19", "Results do not depend on what a parser or expression was used for before",
  "Parsing the same text with the same context always gives an equal outcome, and evaluating the same expression with the same values always gives the same result, whatever other texts were parsed, evaluated, simplified copies made, or errors met in between; neither parsing nor evaluating changes the parser's context.",
  ["histories", "inputs"], "all interleavings of uses of one parser and expression",
  "Tests reuse one parser over a fixed list but never re-check an earlier text after other uses.",
  ["src/parser.rs", "src/xprs.rs"],
  [("parse takes &self and builds a fresh state per call", "src/parser.rs Parser::parse"), ("eval takes &self", "src/xprs.rs")],
  ["Parser::parse", "Xprs::eval", "Clone"])

p("C20", "Expressions that compare equal always evaluate equal",
  "If two expressions compare equal then for every assignment they evaluate to the same value (zeros equal up to sign, functions that tell the two zeros apart excluded); comparison is symmetric, and an expression without NaN literals equals itself and its clone.",
  ["inputs"], "all pairs of expressions, all assignments",
  "Equality is hand-written for commutative operators and only used by tests on identical or once-swapped trees; the optimizer relies on it for x-x, x/x and x%x.",
  ["src/element/binop.rs", "src/element/mod.rs", "src/token/function.rs"],
  [("commutative equality", "src/element/binop.rs PartialEq"), ("function identity", "src/token/function.rs FnPointer PartialEq")],
  ["PartialEq of Xprs"])

p("C21", "The REPL answers every line and ends cleanly",
  "Every line given to the REPL binary is answered, before the next prompt and independently of the lines before it, with the parsed expression or the report of its error; an accepted expression's variables are each asked for once (again while the answer is no number) and its value at the given values is printed. `exit` (with any surrounding blanks) and the end of input, wherever it comes, end the session successfully, and no line of text, including blank and malformed ones, crashes it.",
  ["inputs", "histories"], "all input sessions",
  "The REPL has no tests.",
  ["src/bin/repl.rs"],
  [("read-parse-print loop", "src/bin/repl.rs main")],
  ["stdin/stdout of the repl binary"])

p("C22", "Parsers and expressions can be shared between threads",
  "Parsers, contexts and expressions can be sent to and shared between threads, and concurrent parsing and evaluation give the same results as sequential use.",
  ["schedules"], "all interleavings of concurrent read-only use",
  "The existing test only checks the Send/Sync markers at compile time.",
  ["src/token/function.rs", "src/context.rs", "src/xprs.rs"],
  [("no interior mutability; Send + Sync bounds on dynamic functions", "src/token/function.rs")],
  ["Send/Sync", "Parser::parse", "Xprs::eval"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
