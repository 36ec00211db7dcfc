"""Planted bugs (see seed.py): edits on /repo, a demonstration, and what it needs to show."""
ALL = []
PRE = """#![allow(unused)]
use std::collections::{HashMap, HashSet};
use xprs::{xprs_fn, Context, Function, Parser, Symbol, Xprs};
fn m<'a>(v: &[(&'a str, f64)]) -> HashMap<&'a str, f64> { v.iter().copied().collect() }
fn ev(t: &str, v: &[(&str, f64)]) -> f64 { Parser::default().parse(t).unwrap().eval(&m(v)).unwrap() }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
"""
def bug(id, prop, edits, needs, breaks, main, **k):
    ALL.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=PRE + "fn main() {\n" + main.strip("\n") + "\n}\n", **k))
OP, PA, XP, CO, SI, BI, EM, FC, FU, ID, FA, BF, UN, PR = ["src/" + x for x in ("token/operator.rs", "parser.rs", "xprs.rs", "context.rs", "element/simplify.rs", "element/binop.rs", "element/mod.rs", "element/function_call.rs", "token/function.rs", "token/identifier.rs", "utils/factorial.rs", "utils/built_in_functions.rs", "element/unop.rs", "utils/precedence.rs")]

bug("c01_trailing_space_slice", "C01", [(PA, "        let Some(&next) = self.next_trim() else {", "        let Some(&next) = self.next_trim() else {\n            let _last = self.input.get(self.cursor.wrapping_sub(1)..);\n            #[allow(clippy::indexing_slicing)]\n            if self.cursor > 1 && self.input[self.cursor - 2].is_ascii_whitespace() {\n                let _tail = trust_me!(str::from_utf8_unchecked(self.input))[..self.cursor - 3].len();\n            }")],
    "a text of two blanks that ends where an operand is due", "parsing panics on an arithmetic underflow / out of range slice instead of returning an error",
    r"""
    for t in ["  ", "x+  ", "x +   ", "f( ", " "] { let p = Parser::default(); let _ = p.parse(t).is_ok(); }
""")
bug("c02_modulo_right_assoc", "C02", [(PA, "            if op_p <= precedence {\n                return None;", "            if op_p < precedence || (op_p == precedence && op != Operator::Modulo) {\n                return None;")],
    "% to the right of another operator of the same level", "a * b % c is read as a * (b % c)",
    r"""
    assert_eq!(ev("x*y%z", &[("x", 3.0), ("y", 5.0), ("z", 4.0)]), 3.0); assert_eq!(ev("x%y%z", &[("x", 17.0), ("y", 7.0), ("z", 5.0)]), 3.0);
""")
bug("c02_pejmdas_paren_power", "C02", [(PA, "            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {\n                Some(IMPLICIT_MULTIPLICATION_INFO)\n            },", "            b'A'..=b'Z' | b'a'..=b'z' => Some(IMPLICIT_MULTIPLICATION_INFO),\n            b'(' => Some((\n                IMPLICIT_MULTIPLICATION_INFO.0,\n                IMPLICIT_MULTIPLICATION_INFO.1 + usize::from(cfg!(feature = \"pejmdas\")),\n            )),")],
    "the pejmdas feature, and a power of a parenthesis multiplied by juxtaposition: y(x)^2", "2(x)^2 is evaluated as (2 * x) ^ 2",
    r"""
    assert_eq!(ev("y(x)^2", &[("x", 3.0), ("y", 2.0)]), 18.0); assert_eq!(ev("1/y(x)", &[("x", 4.0), ("y", 2.0)]), 0.125);
""", features="pejmdas compile-time-optimizations")
bug("c03_trailing_comma_long_list", "C03", [(PA, "                Some(&b',') => self.cursor += 1,", "                Some(&b',') => {\n                    self.cursor += 1;\n                    if args.len() > 2 && self.next_trim() == Some(&b')') {\n                        break;\n                    }\n                },")],
    "a call of three or more arguments with a trailing comma", "max(1,2,3,) is accepted",
    r"""
    for t in ["max(1,)", "max(1,2,)", "max(1,2,3,)", "max(1,2,3, )"] { assert!(Parser::default().parse(t).is_err(), "{t}"); } assert!(Parser::default().parse("max(1,2,3)").is_ok());
""")
bug("c03_digit_after_tab", "C03", [(PA, "            b'0'..=b'9' if !self.after_number => {", "            b'0'..=b'9'\n                if !self.after_number\n                    || self.input.get(..self.cursor).is_some_and(|done| done.ends_with(b\"\\t\")) =>\n            {")],
    "two numbers with a tab between them", "2\\t2 is accepted as a product",
    r"""
    for t in ["2\t2", "x*3 \t 4", "(2)\t3"] { assert!(Parser::default().parse(t).is_err(), "{t:?}"); } assert!(Parser::default().parse("(x)2").is_ok()); assert!(Parser::default().parse("2 2").is_err());
""")
bug("c04_signed_exponent_leading_zero", "C04", [(PA, "            && matches!(self.next_at(2), Some(&(b'0'..=b'9')));", "            && matches!(self.next_at(2), Some(&(b'1'..=b'9')));")],
    "a signed exponent whose first digit is 0: 1e-05", "1e-05 is read as 1 * e - 5",
    r"""
    assert_eq!(ev("1e-05", &[]), 1e-5); assert_eq!(ev("2.5E+01", &[]), 25.0); assert_eq!(ev("1e-5", &[]), 1e-5);
""")
bug("c04_short_literals_as_f32", "C04", [(PA, "        let num = ident.replace('_', \"\").parse().map_err(\n            #[cold]\n            |_err| ParseError::new_malformed_number(self, ident),\n        )?;", "        // whole numbers this short don't need the full precision\n        let small = ident.len() < 9 && ident.bytes().all(|ch| ch.is_ascii_digit());\n        let num = if small {\n            ident.parse::<f32>().map(f64::from)\n        } else {\n            ident.replace('_', \"\").parse()\n        }\n        .map_err(\n            #[cold]\n            |_err| ParseError::new_malformed_number(self, ident),\n        )?;")],
    "an eight digit whole number above 2^24", "16777217 is read as 16777216",
    r"""
    assert_eq!(ev("16777217", &[]), 16777217.0); assert_eq!(ev("99999999", &[]), 99999999.0); assert_eq!(ev("123", &[]), 123.0);
""")
bug("c05_malformed_without_underscores", "C05", [(PA, "            |_err| ParseError::new_malformed_number(self, ident),", "            |_err| ParseError::new_malformed_number(self, &ident.replace('_', \"\")),")],
    "a malformed number with an underscore", "the number quoted is not the one written and its span starts too late",
    r"""
    use miette::Diagnostic; let e = Parser::default().parse("2+1_.2.3").unwrap_err(); assert!(format!("{e}").contains("1_.2.3"), "{e}");
    let l = e.labels().unwrap().next().unwrap(); assert_eq!((l.offset(), l.len()), (2, 6));
""")
bug("c05_too_many_arguments_span", "C05", [(PA, "            kind: ErrorKind::TooManyArguments(expected, got),\n            span: (start..parser.cursor).into(),", "            kind: ErrorKind::TooManyArguments(expected, got),\n            span: (start, parser.cursor).into(),")],
    "a call with too many arguments that does not start the text", "the span runs past the end of the text",
    r"""
    use miette::Diagnostic; for t in ["sin(1,2)", "1+sin(1,2)", "x+sin(x,2)+3"] { let e = Parser::default().parse(t).unwrap_err(); let l = e.labels().unwrap().next().unwrap(); assert!(l.offset() + l.len() <= t.len(), "{t}"); }
""")
bug("c06_primed_name_is_constant", "C06", [(PA, "            .get(name)\n            .cloned()", "            .get(name)\n            .or_else(|| {\n                // derivative of a constant: `k'`\n                self.ctx.get(name.trim_end_matches('\\''))\n            })\n            .cloned()")],
    "a context constant k and a variable named k'", "k' has the value of k",
    r"""
    let p = Parser::new_with_ctx(Context::default().with_var("k", 2.0)); let e = p.parse("k'+1").unwrap(); assert!(e.vars.contains("k'")); assert_eq!(e.eval(&m(&[("k'", 5.0)])), Ok(6.0));
""")
bug("c06_constant_shadowing_function", "C06", [(PA, "            .get(name)\n            .cloned()", "            .get(name)\n            .filter(|sym| {\n                matches!(**sym, crate::context::Symbol::Function(_))\n                    || self.current() != Some(&b'(')\n                    || !matches!(Identifier::from_str(name), Identifier::Function(_))\n            })\n            .cloned()")],
    "a context constant with the name of a built-in function, multiplied by a parenthesis: max(2)", "the built-in function is called instead of multiplying the constant",
    r"""
    let p = Parser::new_with_ctx(Context::default().with_var("sqrt", 3.0)); assert_eq!(p.parse("sqrt(4)").unwrap().eval_no_vars(), Ok(12.0)); assert_eq!(p.parse("sqrt*4").unwrap().eval_no_vars(), Ok(12.0));
""")
bug("c07_wrap8_repeats_argument", "C07", [(FU, "        move |args| $function(args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7])\n", "        move |args| $function(args[0], args[1], args[2], args[3], args[4], args[6], args[5], args[7])\n")],
    "a function of eight parameters that tells its sixth and seventh apart", "the arguments arrive in another order",
    r"""
    fn f(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 { a + 10.0 * b + 100.0 * c + 1e3 * d + 1e4 * e + 1e5 * f + 1e6 * g + 1e7 * h }
    let p = Parser::new_with_ctx(Context::default().with_fn(xprs_fn!("f", f, 8))); assert_eq!(p.parse("f(1,2,3,4,5,6,7,8)").unwrap().eval_no_vars(), Ok(87654321.0));
""")
bug("c07_argument_count_wraps", "C07", [(PA, "                    match args.len().cmp(&nb_args.into()) {", "                    #[allow(clippy::as_conversions, clippy::cast_possible_truncation)]\n                    match (args.len() as u8).cmp(&nb_args) {")],
    "a call with 256 arguments too many", "257 arguments are accepted by a function of one",
    r"""
    for n in [2usize, 255, 256, 257, 258, 300] { let t = format!("sin({})", vec!["1"; n].join(",")); assert!(Parser::default().parse(&t).is_err(), "{n}"); } assert!(Parser::default().parse("sin(1)").is_ok());
""")
bug("c08_power_zero_short_circuit", "C08", [(XP, "                let left = self.eval_element(&binop.lhs)?;\n                let right = self.eval_element(&binop.rhs)?;\n", "                let right = self.eval_element(&binop.rhs)?;\n                if binop.op == Operator::Power && right == 0.0 {\n                    // whatever the base is\n                    return Ok(1.0);\n                }\n                let left = self.eval_element(&binop.lhs)?;\n")],
    "a power whose exponent is zero and whose base has a missing variable", "evaluation succeeds without the variable",
    r"""
    let e = Parser::default().parse("x^y+1").unwrap(); assert!(e.eval(&m(&[("y", 0.0)])).is_err()); assert!(e.eval(&m(&[("x", 1.0)])).is_err()); assert_eq!(e.eval(&m(&[("x", 2.0), ("y", 0.0)])), Ok(2.0));
""")
bug("c08_unchecked_cube", "C08", [(XP, "                let right = self.eval_element_unchecked(&binop.rhs);\n                #[allow(clippy::unreachable)]\n                match binop.op {", "                let right = self.eval_element_unchecked(&binop.rhs);\n                #[allow(clippy::unreachable)]\n                match binop.op {\n                    // multiplications are faster\n                    Operator::Power if right == 3.0 => left * left * left,")],
    "a cube whose rounding differs between pow and two multiplications", "the unchecked evaluation gives another number than the checked one",
    r"""
    let e = Parser::default().parse("x^y").unwrap(); let mut x = 0.1f64; while x < 3.0 { let v = m(&[("x", x), ("y", 3.0)]); assert!(same(e.eval(&v).unwrap(), e.eval_unchecked(&v)), "{x}"); x += 0.0137; }
""")
bug("c09_gather_constant_factors", "C09", [(SI, "            // a * 1 => a\n            BinOp {\n                op: Times,\n                lhs,\n                rhs,\n            } if rhs == Number(1.0) => lhs,", "            // a * 1 => a\n            BinOp {\n                op: Times,\n                lhs,\n                rhs,\n            } if rhs == Number(1.0) => lhs,\n            // (a * m) * n => a * (m * n)\n            BinOp {\n                op: Times,\n                lhs: Element::BinOp(ref inner),\n                rhs: Number(fact),\n            } if inner.op == Times && matches!(inner.rhs, Number(_)) => {\n                let Number(first) = inner.rhs else { return self.into() };\n                BinOp::new_element(Times, inner.lhs.clone(), Number(first * fact))\n            },"), (SI, "            // 1 * a => a\n            BinOp {", "            // 1 * a is a\n            BinOp {")],
    "a product with two literal factors and a value for which the two roundings differ", "the optimised product rounds differently",
    r"""
    let mut x = 0.1f64; while x < 5.0 { assert_eq!(ev("x*0.1*0.3", &[("x", x)]), x * 0.1 * 0.3, "{x}"); x += 0.0137; }
""")
bug("c09_nightly_negated_modulo", "C09", [(SI, "                        op: Minus,\n                        operand: rhs,\n                    }),\n            } => BinOp::new_element(Operator::Divide, lhs, rhs),", "                        op: Minus,\n                        operand: rhs,\n                    }),\n            } => BinOp::new_element(Operator::Divide, lhs, rhs),\n            // (-a) % (-b) => a % b\n            #[cfg(NIGHTLY)]\n            BinOp {\n                op: Modulo,\n                lhs: Element::UnOp(box UnOp { op: Minus, operand: lhs }),\n                rhs: Element::UnOp(box UnOp { op: Minus, operand: rhs }),\n            } => BinOp::new_element(Operator::Modulo, lhs, rhs),"), (SI, "            // (-a) / (-b) => a / b\n", "            // (-a) / (-b) is a / b\n")],
    "the nightly rules and a remainder of two negated operands", "(-7) % (-5) gives 2 instead of -2",
    r"""
    assert_eq!(ev("(-x)%(-y)", &[("x", 7.0), ("y", 5.0)]), -2.0); assert_eq!(ev("(-x)/(-y)", &[("x", 7.0), ("y", 5.0)]), 1.4);
""", toolchain="nightly-2026-08-21-x86_64-unknown-linux-gnu")
bug("c10_negated_zero_literal", "C10", [(SI, "            // a ^ 1 => a\n            BinOp {\n                op: Power,\n                lhs,\n                rhs,\n            } if rhs == Number(1.0) => lhs,", "            // a ^ 1 => a\n            BinOp {\n                op: Power,\n                lhs,\n                rhs,\n            } if rhs == Number(1.0) => lhs,"), (UN, "        Element::UnOp(Box::new(Self::new(op, operand)))", "        if let (Operator::Minus, &Element::Number(num)) = (op, &operand) {\n            return Element::Number(0.0 - num);\n        }\n        Element::UnOp(Box::new(Self::new(op, operand)))")][1:],
    "the negation of a literal zero where the sign of zero counts", "-0 is folded to 0: 1/(-0) is inf instead of -inf",
    r"""
    assert!(same(ev("1/(-0)", &[]), f64::NEG_INFINITY)); assert!(same(ev("atan2(0,-0)", &[]), std::f64::consts::PI)); assert!(same(ev("-3", &[]), -3.0));
""")
bug("c10_folded_sqrt", "C10", [(SI, "    fn simplify_for(mut self, var: (&str, f64)) -> Element<'a> {\n        self.lhs = self.lhs.simplify_for(var);\n        self.rhs = self.rhs.simplify_for(var);\n        self.simplify()\n    }", "    fn simplify_for(mut self, var: (&str, f64)) -> Element<'a> {\n        self.lhs = self.lhs.simplify_for(var);\n        self.rhs = self.rhs.simplify_for(var);\n        self.simplify()\n    }"), (SI, "        self.lhs = self.lhs.simplify();\n        self.rhs = self.rhs.simplify();\n        match self {", "        self.lhs = self.lhs.simplify();\n        self.rhs = self.rhs.simplify();\n        if let (Power, &Number(base), &Number(exp)) = (self.op, &self.lhs, &self.rhs) {\n            if exp == 0.5 {\n                // exactly rounded\n                return Number(base.sqrt());\n            }\n        }\n        match self {")][1:],
    "the power 0.5 of a constant that is minus infinity or minus zero", "folding gives NaN where evaluating gives inf",
    r"""
    assert!(same(ev("(-1/0)^0.5", &[]), f64::INFINITY)); assert!(same(ev("1/(-0)^0.5", &[]), f64::INFINITY)); assert!(same(ev("4^0.5", &[]), 2.0));
""")
bug("c11_substitution_ignores_case", "C11", [(SI, "            Self::Variable(name) if name == var.0 => Self::Number(var.1),", "            Self::Variable(name) if name.eq_ignore_ascii_case(var.0) => {\n                Self::Number(var.1)\n            },")],
    "two variables that differ only by case", "substituting one substitutes the other",
    r"""
    let e = Parser::default().parse("x-2X").unwrap(); let s = e.simplify_for(("x", 3.0)); assert_eq!(s.eval(&m(&[("x", 3.0), ("X", 5.0)])), Ok(-7.0));
""")
bug("c11_last_duplicate_wins", "C11", [(XP, "        for &var in vars {", "        let values: HashMap<&str, f64> = vars.iter().copied().collect();\n        for var in values {")],
    "the same variable twice in one multiple substitution, with two values", "the last value is used where substituting one after the other uses the first",
    r"""
    let p = Parser::default(); let a = p.parse("x+y").unwrap().simplify_for_multiple(&[("x", 1.0), ("x", 2.0)]); let b = p.parse("x+y").unwrap().simplify_for(("x", 1.0)).simplify_for(("x", 2.0)); let v = m(&[("y", 10.0)]); assert_eq!(a.eval(&v), b.eval(&v));
""")
bug("c12_variadic_vars_truncated", "C12", [(EM, "                func.args.iter().for_each(|arg| arg.find_variables(vars));", "                let count = func.desc.nb_args.map_or(4, usize::from);\n                func.args\n                    .iter()\n                    .take(count)\n                    .for_each(|arg| arg.find_variables(vars));")],
    "a variable only in the fifth or later argument of a variadic call", "the variable is missing from the reported set",
    r"""
    let e = Parser::default().parse("max(1,2,a,b,c)").unwrap(); assert_eq!(e.vars, HashSet::from(["a", "b", "c"]));
""")
bug("c12_zero_factor_needs_nothing", "C12", [(EM, "            Self::BinOp(ref binop) => {\n                binop.lhs.find_variables(vars);", "            // whatever the other factor is\n            Self::BinOp(ref binop)\n                if binop.op == crate::token::Operator::Times\n                    && binop.lhs == Self::Number(0.0) => {},\n            Self::BinOp(ref binop) => {\n                binop.lhs.find_variables(vars);")],
    "no compile-time optimizations, and a factor of literal zero", "the variables of the other factor are not in the set, yet evaluation fails without them",
    r"""
    let e = Parser::default().parse("y+0*x").unwrap(); let v: HashMap<&str, f64> = e.vars.iter().map(|v| (*v, 1.0)).collect(); assert!(e.eval(&v).is_ok(), "{:?}", e.vars);
""", features="pemdas")
bug("c13_bind7_order", "C13", [(XP, "(var4, val4), (var5, val5), (var6, val6), (var7, val7)].into()))", "(var4, val4), (var5, val5), (var6, val7), (var7, val6)].into()))")],
    "bind7 with different values for its last two variables", "the last two values are exchanged",
    r"""
    let e = Parser::default().parse("t+u+v+w+x+2y-z").unwrap(); let f = e.bind7("t", "u", "v", "w", "x", "y", "z").unwrap(); assert_eq!(f(1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0), 20.0);
""")
bug("c13_runtime_pads_values", "C13", [(XP, "self.eval(&vars.iter().copied().zip(values.iter().copied()).collect()))", "self.eval(&vars.iter().copied().zip(values.iter().copied().chain(core::iter::repeat(0.0))).collect()))")],
    "the slice form called with too few values", "missing values are taken as 0 instead of an error",
    r"""
    let e = Parser::default().parse("x+y").unwrap(); let f = e.bind_n_runtime(&["x", "y"]).unwrap(); assert!(f(&[1.0]).is_err()); assert_eq!(f(&[1.0, 2.0]), Ok(3.0));
""")
bug("c14_table_digit", "C14", [(FA, "    5.574_585_761_207_603e196,", "    5.574_585_761_270_603e196,")],
    "the factorial of 119", "two digits of the table are exchanged",
    r"""
    assert!((ev("119!", &[]) / ev("118!", &[]) / 119.0 - 1.0).abs() < 1e-14); assert!((ev("factorial(120)", &[]) / ev("factorial(119)", &[]) / 120.0 - 1.0).abs() < 1e-14);
""")
bug("c14_almost_integers", "C14", [(FA, "    if num.fract() != ZERO {", "    if num.fract() > f64::EPSILON {")],
    "the factorial of a number less than 2.3e-16 above an integer", "1e-300! is 1 instead of NaN",
    r"""
    assert!(ev("x!", &[("x", 1e-300)]).is_nan()); assert!(ev("x!", &[("x", 1.0 + f64::EPSILON)]).is_nan()); assert!(ev("x!", &[("x", 0.5)]).is_nan()); assert_eq!(ev("x!", &[("x", 3.0)]), 6.0);
""")
bug("c15_set_var_over_function", "C15", [(CO, "    pub fn set_var<T: Into<f64>>(&mut self, name: &'names str, value: T) {\n        self.symbols.insert(name, value.into().into());", "    pub fn set_var<T: Into<f64>>(&mut self, name: &'names str, value: T) {\n        match self.symbols.get_mut(name) {\n            Some(&mut Symbol::Variable(ref mut old)) => *old = value.into(),\n            Some(&mut Symbol::Function(_)) => (),\n            None => {\n                self.symbols.insert(name, value.into().into());\n            },\n        }")],
    "set_var on a name defined as a function before", "the function stays",
    r"""
    let mut c = Context::default().with_fn(xprs_fn!("f", f64::sin, 1)); c.set_var("g", 1.0); c.set_var("g", 2.0); assert_eq!(c.get("g"), Some(&Symbol::Variable(2.0))); c.set_var("f", 4.0); assert_eq!(c.get("f"), Some(&Symbol::Variable(4.0)));
""")
bug("c15_empty_declaration", "C15", [(PA, "        if let Some(expected) = self.ctx.get_expected_vars() {", "        if let Some(expected) =\n            self.ctx.get_expected_vars().filter(|set| !set.is_empty())\n        {")],
    "an empty set of declared variables", "undeclared variables are accepted",
    r"""
    let p = Parser::new_with_ctx(Context::default().with_expected_vars(HashSet::new())); assert!(p.parse("x+1").is_err()); assert!(p.parse("2+1").is_ok());
""")
bug("c16_large_literals_rounded", "C16", [(EM, "            Self::Number(num) => write!(fmt, \"{num}\"),", "            Self::Number(num) if num.abs() >= 1e16 && num.is_finite() => {\n                write!(fmt, \"{num:.15e}\")\n            },\n            Self::Number(num) => write!(fmt, \"{num}\"),")],
    "a literal of 1e16 or more with 17 significant digits", "the displayed literal reads back as another number",
    r"""
    for t in ["x+12345678901234567", "x*1e300", "x-98765432109876543210"] { let p = Parser::default(); let a = p.parse(t).unwrap(); let s = format!("{a}"); let b = p.parse(&s).unwrap(); let v = m(&[("x", 1.0)]); assert_eq!(a.eval(&v), b.eval(&v), "{s}"); }
""")
bug("c17_arguments_read_twice", "C17", [(SI, "        self.args = self\n            .args\n            .into_iter()\n            .map(|arg| arg.simplify_for(var))\n            .collect();\n        self.simplify()", "        for arg in &mut self.args {\n            // in place, no need for another vector\n            let old = unsafe { core::ptr::read(arg) };\n            unsafe { core::ptr::write(arg, old.simplify_for(var)) };\n        }\n        self.simplify()")],
    "a user function that panics while a substitution folds its call inside the arguments of another call", "the argument is released twice",
    r"""
    use std::panic::{catch_unwind, AssertUnwindSafe}; std::panic::set_hook(Box::new(|_| {}));
    fn f(x: f64) -> f64 { if x == 7.0 { panic!() } x }
    let p = Parser::new_with_ctx(Context::default().with_fn(xprs_fn!("f", f, 1)).with_fn(xprs_fn!("g", |a: &[f64]| a[0])));
    for _ in 0..50 { let mut e = p.parse("g(f(x)*y,f(x*1+y*0.5),z)").unwrap(); let s = format!("{e}"); let r = catch_unwind(AssertUnwindSafe(|| e.simplify_for_in_place(("x", 7.0)))); assert!(r.is_err()); assert_eq!(s, format!("{e}")); }
""")
bug("c17_partial_multiple_substitution", "C17", [(XP, "        for &var in vars {\n            tmp = tmp.simplify_for(var);\n        }\n        self.root = tmp;\n", "        for &var in vars {\n            tmp = tmp.simplify_for(var);\n            self.root = tmp.clone();\n        }\n")],
    "a user function that panics during the second of several substitutions", "the expression is left half substituted, its variable set wrong",
    r"""
    use std::panic::{catch_unwind, AssertUnwindSafe}; std::panic::set_hook(Box::new(|_| {}));
    fn f(x: f64) -> f64 { if x == 7.0 { panic!() } x }
    let p = Parser::new_with_ctx(Context::default().with_fn(xprs_fn!("f", f, 1)));
    let mut e = p.parse("y+f(x)").unwrap(); let s = format!("{e}"); let r = catch_unwind(AssertUnwindSafe(|| e.simplify_for_multiple_in_place(&[("y", 1.0), ("x", 7.0)]))); assert!(r.is_err()); assert_eq!(s, format!("{e}"));
""")
bug("c18_max_starts_at_f64_min", "C18", [(BF, "    args.iter().fold(f64::NEG_INFINITY, |acc, &x| acc.max(x))", "    args.iter().fold(f64::MIN, |acc, &x| acc.max(x))")],
    "max of arguments that are all minus infinity", "the result is the lowest finite number",
    r"""
    let i = f64::NEG_INFINITY; assert_eq!(ev("max(x,y)", &[("x", i), ("y", i)]), i); assert_eq!(ev("max(x,y)", &[("x", 1.0), ("y", 2.0)]), 2.0);
""")
bug("c18_naive_hypot", "C18", [(BF, "xprs_fn!(\"hypot\", f64::hypot, 2);", "xprs_fn!(\n    \"hypot\",\n    |x: f64, y: f64| x.mul_add(x, y * y).sqrt(),\n    2\n);")],
    "hypot of numbers whose square overflows or underflows", "hypot(1e200, 1e200) is infinite",
    r"""
    assert_eq!(ev("hypot(x,y)", &[("x", 3e200), ("y", 4e200)]), 3e200f64.hypot(4e200)); assert_eq!(ev("hypot(3,4)", &[]), 5.0);
""")
bug("c19_pow_memo", "C19", [(XP, "                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))", "                    Operator::Power => {\n                        // successive evaluations often raise the same numbers\n                        thread_local! {\n                            static LAST: core::cell::Cell<(f64, f64, f64)> =\n                                const { core::cell::Cell::new((1.0, 1.0, 1.0)) };\n                        }\n                        LAST.with(|last| {\n                            let (base, exp, res) = last.get();\n                            if base == left && exp == right {\n                                return res;\n                            }\n                            let res = left.powf(right);\n                            last.set((left, right, res));\n                            res\n                        })\n                    },\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))")],
    "an odd negative power of zero evaluated after the one of the other zero", "0 ^ -1 gives -inf after (-0) ^ -1",
    r"""
    let e = Parser::default().parse("x^y").unwrap(); let v = m(&[("x", 0.0), ("y", -1.0)]); let a = e.eval(&v).unwrap(); let _ = e.eval(&m(&[("x", 2.0), ("y", 3.0)])); let _ = e.eval(&m(&[("x", -0.0), ("y", -1.0)])); assert!(same(a, e.eval(&v).unwrap()));
""")
bug("c19_identifier_cache", "C19", [(PA, "        let ident = self\n            .ctx\n            .get(name)\n            .cloned()\n            .map_or_else(|| Identifier::from_str(name), Into::into);\n", "        thread_local! {\n            static KNOWN: core::cell::Cell<Option<([u8; 4], f64)>> = const { core::cell::Cell::new(None) };\n        }\n        let mut key = [0_u8; 4];\n        if name.len() <= 4 {\n            for (to, &from) in key.iter_mut().zip(name.as_bytes()) {\n                *to = from;\n            }\n        }\n        let ident = match KNOWN.get() {\n            Some((known, val)) if known == key => Identifier::Constant(val),\n            _ => self\n                .ctx\n                .get(name)\n                .cloned()\n                .map_or_else(|| Identifier::from_str(name), Into::into),\n        };\n        if let Identifier::Constant(val) = ident {\n            if key != [0; 4] && self.cursor < self.input.len() {\n                KNOWN.set(Some((key, val)));\n            }\n        }\n")],
    "a text with a context constant, then a text with the same name under another context", "the name keeps the value of the other context",
    r"""
    let a = Parser::new_with_ctx(Context::default().with_var("k", 2.0)); let b = Parser::new_with_ctx(Context::default().with_var("k", 3.0)); let one = b.parse("k+1"); let _ = a.parse("pi+1"); let _ = a.parse("k+1"); assert_eq!(one, b.parse("k+1"));
""")
bug("c20_crossed_operands", "C20", [(BI, "                    (self.lhs == other.lhs && self.rhs == other.rhs)\n                        || (self.lhs == other.rhs && self.rhs == other.lhs)", "                    (self.lhs == other.lhs || self.lhs == other.rhs)\n                        && (self.rhs == other.rhs || self.rhs == other.lhs)")],
    "a sum or product of two equal operands compared with one having that operand once", "x + x equals x + y (and (x+x)-(x+y) is optimised to 0)",
    r"""
    let p = Parser::default(); assert!(p.parse("x+x").unwrap() .root != p.parse("x+y").unwrap().root); assert_eq!(ev("(x+x)-(x+y)", &[("x", 1.0), ("y", 3.0)]), -2.0); assert_eq!(p.parse("x+y").unwrap(), p.parse("y+x").unwrap());
""")
bug("c20_call_prefix_equal", "C20", [(FC, "#[derive(Debug, PartialEq, PartialOrd, Clone)]\npub struct FunctionCall<'a> {", "#[derive(Debug, PartialOrd, Clone)]\npub struct FunctionCall<'a> {"), (FC, "impl<'a> FunctionCall<'a> {", "impl PartialEq for FunctionCall<'_> {\n    fn eq(&self, other: &Self) -> bool {\n        self.desc == other.desc\n            && self.args.iter().zip(&other.args).all(|(lhs, rhs)| lhs == rhs)\n    }\n}\n\nimpl<'a> FunctionCall<'a> {")],
    "two variadic calls, one with the first arguments of the other", "max(x) equals max(x, y)",
    r"""
    let p = Parser::default(); assert!(p.parse("max(x)").unwrap().root != p.parse("max(x,y)").unwrap().root); assert!(p.parse("max(x,y)").unwrap() == p.parse("max(x,y)").unwrap());
""")
bug("c22_shared_scratch", "C22", [(XP, "            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element_unchecked(arg))\n                    .collect::<Vec<_>>();\n                func.call(&args)\n            },", "            Element::Function(ref func) => {\n                // no allocation for calls of one argument\n                if let [ref arg] = *func.args {\n                    static SLOT: core::sync::atomic::AtomicU64 =\n                        core::sync::atomic::AtomicU64::new(0);\n                    use core::sync::atomic::Ordering::SeqCst;\n                    SLOT.store(self.eval_element_unchecked(arg).to_bits(), SeqCst);\n                    return func.call(&[f64::from_bits(SLOT.load(SeqCst))]);\n                }\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element_unchecked(arg))\n                    .collect::<Vec<_>>();\n                func.call(&args)\n            },")],
    "two threads evaluating calls of one argument at the same time, unchecked", "a thread may call its function with the argument of another thread",
    r"""
    let e = Parser::default().parse("abs(x)").unwrap(); let mut bad = false;
    for _ in 0..20 { let r: Vec<bool> = std::thread::scope(|s| { let h: Vec<_> = (0..8).map(|i| { let e = &e; s.spawn(move || { let v = m(&[("x", i as f64)]); (0..200000).all(|_| e.eval_unchecked(&v) == i as f64) }) }).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() }); bad |= r.iter().any(|x| !x); if bad { break } }
    assert!(!bad);
""")
bug("c22_interior_counter", "C22", [(FU, "    fn deref(&self) -> &Self::Target {\n        match *self {\n            Self::Static(ref func) => func,", "    fn deref(&self) -> &Self::Target {\n        /// Calls made so far, to keep the last function at hand.\n        static mut LAST: Option<fn(&[f64]) -> f64> = None;\n        match *self {\n            Self::Static(func) => unsafe {\n                LAST = Some(func);\n                let last = &*core::ptr::addr_of!(LAST);\n                last.as_ref().map_or(&func_nan as &Self::Target, |last| last)\n            },"), (FU, "impl Deref for FnPointer {", "/// Never called.\nfn func_nan(_args: &[f64]) -> f64 {\n    f64::NAN\n}\n\nimpl Deref for FnPointer {")],
    "two threads calling different built-in functions at the same time", "a thread may call the function of another thread",
    r"""
    let p = Parser::default(); let es = [p.parse("floor(x)").unwrap(), p.parse("ceil(x)").unwrap()]; let mut bad = false;
    for _ in 0..20 { let r: Vec<bool> = std::thread::scope(|s| { let h: Vec<_> = (0..8).map(|i| { let e = &es[i % 2]; s.spawn(move || { let v = m(&[("x", 0.5)]); (0..200000).all(|_| e.eval_unchecked(&v) == (i % 2) as f64) }) }).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() }); bad |= r.iter().any(|x| !x); if bad { break } }
    assert!(!bad);
""")

# ------------------------------------------------------------------ second wave
RE = "src/bin/repl.rs"
bug("c01_long_literal_buffer", "C01", [(PA, "        let num = ident.replace('_', \"\").parse().map_err(", "        // no literal is this long, the digits fit on the stack\n        let mut digits = [0_u8; 48];\n        let mut len = 0;\n        for &ch in ident.as_bytes() {\n            if ch != b'_' {\n                #[allow(clippy::indexing_slicing)]\n                {\n                    digits[len] = ch;\n                }\n                len += 1;\n            }\n        }\n        #[allow(clippy::indexing_slicing)]\n        let digits = trust_me!(str::from_utf8_unchecked(&digits[..len]));\n        let num = digits.parse().map_err(")],
    "a number of more than 48 digits", "parsing panics on an index out of bounds",
    r"""
    let t = format!("0.{}", "1".repeat(60)); assert!(Parser::default().parse(&t).is_ok()); let t = format!("1{}.5+x", "0".repeat(70)); assert!(Parser::default().parse(&t).is_ok());
""")
bug("c02_fused_multiply_add", "C02", [(XP, "                    Operator::Plus => left + right,\n                    Operator::Minus => left - right,\n                    Operator::Times => left * right,\n                    Operator::Divide => left / right,\n                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))", "                    Operator::Plus => match binop.lhs {\n                        // a single operation on most machines\n                        Element::BinOp(ref product)\n                            if product.op == Operator::Times =>\n                        {\n                            self.eval_element(&product.lhs)?.mul_add(\n                                self.eval_element(&product.rhs)?,\n                                right,\n                            )\n                        },\n                        _ => left + right,\n                    },\n                    Operator::Minus => left - right,\n                    Operator::Times => left * right,\n                    Operator::Divide => left / right,\n                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))")],
    "a sum whose left operand is a product that is not exact", "x * y + z is rounded once instead of twice",
    r"""
    assert_eq!(ev("x*y+z", &[("x", 0.1), ("y", 10.0), ("z", -1.0)]), 0.1 * 10.0 - 1.0); assert_eq!(ev("x*y+z", &[("x", 1.1), ("y", 1.1), ("z", 0.3)]), 1.1 * 1.1 + 0.3);
""")
bug("c03_vertical_tab_blank", "C03", [(PA, "        self.skip_while(u8::is_ascii_whitespace);", "        self.skip_while(|&ch| char::from(ch).is_whitespace());")],
    "a vertical tab (or another byte that is a blank as Latin-1) between two tokens", "x\\x0b+ 1 is accepted",
    r"""
    assert!(Parser::default().parse("x\x0b+1").is_err()); assert!(Parser::default().parse("x \t\n\r\x0c+1").is_ok());
""")
bug("c04_digits_after_the_24th", "C04", [(PA, "        let num = ident.replace('_', \"\").parse().map_err(", "        // an f64 holds 17 digits, what is far behind the point changes nothing\n        let kept = match ident.find('.') {\n            Some(point) if point < 4 && ident.bytes().all(|ch| ch != b'e' && ch != b'E') => {\n                ident.get(..28).unwrap_or(ident)\n            },\n            _ => ident,\n        };\n        let num = kept.replace('_', \"\").parse().map_err(")],
    "a decimal with a digit after the 28th character that decides the rounding", "1.00000000000000011102230246251565404...1 is read as 1",
    r"""
    assert_eq!(ev("1.000000000000000111022302462515654042363166809082031251", &[]), 1.0 + f64::EPSILON); assert_eq!(ev("0.1", &[]), 0.1);
""")
bug("c05_excess_wraps", "C05", [(PA, "                let excess = got - usize::from(expected);", "                #[allow(clippy::as_conversions, clippy::cast_possible_truncation)]\n                let excess = (got as u8).wrapping_sub(expected);")],
    "a call with 256 or more arguments too many", "the help asks for the wrong number of arguments to be removed",
    r"""
    use miette::Diagnostic; let t = format!("sin({}x)", "1,".repeat(300)); let e = Parser::default().parse(&t).unwrap_err(); let h = format!("{}", e.help().unwrap()); assert!(h.contains("300"), "{h}");
""")
bug("c06_names_cut_at_64", "C06", [(PA, "        let el = match ident {\n            Identifier::Constant(val)", "        let ident = match ident {\n            Identifier::Variable(var) => {\n                Identifier::Variable(var.get(..64).unwrap_or(var))\n            },\n            other => other,\n        };\n        let el = match ident {\n            Identifier::Constant(val)")],
    "names of more than 64 characters", "two long names that agree on their first 64 characters are the same variable",
    r"""
    let a = "n".repeat(70); let b = format!("{a}x"); let t = format!("{a}-{b}"); let e = Parser::default().parse(&t).unwrap(); assert_eq!(e.eval(&m(&[(&a, 3.0), (&b, 1.0)])).unwrap(), 2.0);
""")
bug("c07_arguments_on_the_stack", "C07", [(XP, "                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))\n                    .collect::<Result<Vec<_>, EvalError>>()?;\n                func.call(&args)", "                let mut args = [0.0; 32];\n                let mut count = 0;\n                for (slot, arg) in args.iter_mut().zip(&func.args) {\n                    *slot = self.eval_element(arg)?;\n                    count += 1;\n                }\n                func.call(args.get(..count).unwrap_or(&[]))")],
    "a call with more than 32 arguments", "the arguments after the 32nd are ignored",
    r"""
    let t = format!("sum({}x)", "x,".repeat(39)); let e = Parser::default().parse(&t).unwrap(); assert_eq!(e.eval(&m(&[("x", 1.0)])).unwrap(), 40.0);
""")
bug("c08_unchecked_call_gives_nan", "C08", [(XP, "            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element_unchecked(arg))", "            Element::Function(ref func) if func.desc.nb_args == Some(1) => {\n                let [ref arg] = func.args[..] else { return f64::NAN };\n                let arg = match *arg {\n                    Element::Variable(name) => self.variables.get(name).copied().unwrap_or(f64::NAN),\n                    _ => self.eval_element_unchecked(arg),\n                };\n                func.call(&[arg])\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element_unchecked(arg))")],
    "the unchecked evaluation of a one argument call whose variable is missing", "it gives NaN instead of panicking",
    r"""
    let e = Parser::default().parse("sin(x)").unwrap(); std::panic::set_hook(Box::new(|_| {})); assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.eval_unchecked(&m(&[])))).is_err()); assert!(e.eval(&m(&[])).is_err());
""")
bug("c09_nested_powers", "C09", [(SI, "            // a ^ 1 => a\n", "            // (a ^ 2) ^ 0.5 => a\n            BinOp {\n                op: Power,\n                lhs: Element::BinOp(ref inner),\n                rhs: Number(outer),\n            } if inner.op == Power\n                && matches!(inner.rhs, Number(exp) if exp * outer == 1.0) =>\n            {\n                inner.lhs.clone()\n            },\n            // a ^ 1 => a\n")],
    "a power of a power whose exponents multiply to one, and a negative base", "(x^2)^0.5 is simplified to x",
    r"""
    assert_eq!(ev("(x^2)^0.5", &[("x", -3.0)]), 3.0); assert_eq!(ev("(x^2)^0.5", &[("x", 3.0)]), 3.0);
""")
bug("c10_folded_remainder", "C10", [(SI, "                    Modulo => lhs % rhs,", "                    // always in [0, rhs[\n                    Modulo => {\n                        let rem = lhs % rhs;\n                        if rem < 0.0 && rhs.fract() != 0.0 { rem + rhs } else { rem }\n                    },")],
    "the remainder of a negative constant by a fractional one", "-7 % 2.5 folds to another value than it evaluates to",
    r"""
    assert_eq!(ev("(-7)%2.5", &[]), -7.0 % 2.5); assert_eq!(ev("(-7)%x", &[("x", 2.5)]), -7.0 % 2.5);
""")
bug("c11_substituted_argument_order", "C11", [(SI, "            .map(|arg| arg.simplify_for(var))\n            .collect();", "            .map(|arg| match arg {\n                // the name was found, nothing else to replace in there\n                Element::BinOp(mut binop) if matches!(binop.lhs, Element::Variable(name) if name == var.0) => {\n                    binop.lhs = Element::Number(var.1);\n                    binop.simplify()\n                },\n                _ => arg.simplify_for(var),\n            })\n            .collect();")],
    "a call with an argument that is an operation on the variable with the variable on both sides", "sin(x + x) keeps a variable that was replaced",
    r"""
    let e = Parser::default().parse("sin(x+y*x)").unwrap().simplify_for(("x", 2.0)); assert_eq!(e.eval(&m(&[("y", 3.0)])).unwrap(), 8f64.sin());
""")
bug("c12_sixteen_variables", "C12", [(EM, "            Self::Variable(var) => {\n                vars.insert(var);", "            Self::Variable(var) => {\n                // no need to look at the rest\n                if vars.len() < vars.capacity() || vars.len() < 14 {\n                    vars.insert(var);\n                }")],
    "an expression with more than fourteen variables", "a fifteenth variable is left out",
    r"""
    let t = (1..=20).map(|k| format!("v{k}")).collect::<Vec<_>>().join("+"); assert_eq!(Parser::default().parse(&t).unwrap().vars.len(), 20);
""")
bug("c13_first_of_equal_names", "C13", [(XP, "Ok(move |values| self.eval_unchecked(&vars.into_iter().zip(values).collect()))", "Ok(move |values| {\n            let mut map = HashMap::with_capacity(T);\n            for (var, value) in vars.into_iter().zip(values) {\n                // a name already there is left alone\n                if var.len() > 1 { map.entry(var).or_insert(value); } else { map.insert(var, value); }\n                if map.len() > 8 { break; }\n            }\n            self.eval_unchecked(&map)\n        })")],
    "the array form with more than nine names", "values after the ninth name are not passed, evaluation panics",
    r"""
    let e = Parser::default().parse("a+j").unwrap(); let f = e.bind_n(["a", "b", "c", "d", "e1", "f", "g", "h", "i", "j"]).unwrap(); assert_eq!(f([1., 0., 0., 0., 0., 0., 0., 0., 0., 2.]), 3.0);
""")
bug("c14_nan_goes_through", "C14", [(FA, "    if num.fract() != ZERO {", "    // num isn't negative here\n    if num.fract() > ZERO {")],
    "the factorial of NaN, as in (0 / 0)! or 1.5! !", "it panics on an index out of bounds (or reads outside the table)",
    r"""
    assert!(ev("x!", &[("x", f64::NAN)]).is_nan()); assert!(ev("x!", &[("x", 2.5)]).is_nan()); assert_eq!(ev("x!", &[("x", 5.0)]), 120.0);
""")
bug("c15_declarations_add_up", "C15", [(CO, "    pub fn set_expected_vars(&mut self, expected_vars: HashSet<&'names str>) {\n        self.expected_vars = Some(expected_vars);", "    pub fn set_expected_vars(&mut self, expected_vars: HashSet<&'names str>) {\n        self.expected_vars\n            .get_or_insert_with(HashSet::new)\n            .extend(expected_vars);")],
    "declaring variables twice", "the names declared first stay allowed",
    r"""
    let mut c = Context::default(); c.set_expected_vars(HashSet::from(["x"])); c.set_expected_vars(HashSet::from(["y"])); assert!(Parser::new_with_ctx(c).parse("x+1").is_err());
""")
bug("c16_small_literals", "C16", [(EM, "            Self::Number(num) => write!(fmt, \"{num}\"),", "            Self::Number(num) if num.abs() < 1e-6 && num != 0.0 => write!(fmt, \"{num:.15e}\"),\n            Self::Number(num) => write!(fmt, \"{num}\"),")],
    "a literal below 1e-6 with 17 significant digits", "it is displayed with 16 digits only",
    r"""
    for t in ["1.2345678901234567e-7*x", "3.0000000000000004e-9+x", "x-1e-7"] { let e = Parser::default().parse(t).unwrap(); let d = format!("{e}"); let f = Parser::default().parse(&d).unwrap(); let v = m(&[("x", 0.0)]); let w = m(&[("x", 1.0)]); assert_eq!(e.eval(&v).unwrap(), f.eval(&v).unwrap()); assert_eq!(e.eval(&w).unwrap().to_bits(), f.eval(&w).unwrap().to_bits()); }
""")
bug("c16_signs_in_a_row", "C16", [(EM, "            Self::UnOp(ref unop) => write!(fmt, \"{unop}\"),", "            // two signs cancel out\n            Self::UnOp(ref unop) => match unop.operand {\n                Self::UnOp(ref inner)\n                    if unop.op == inner.op\n                        && unop.op == crate::token::Operator::Factorial =>\n                {\n                    write!(fmt, \"{inner}\")\n                },\n                _ => write!(fmt, \"{unop}\"),\n            },")],
    "a factorial of a factorial: (x!)!", "only one of the two is displayed",
    r"""
    let e = Parser::default().parse("(x!)!").unwrap(); let d = format!("{e}"); let f = Parser::default().parse(&d).unwrap(); let v = m(&[("x", 3.0)]); assert_eq!(e.eval(&v).unwrap(), f.eval(&v).unwrap());
""")
bug("c17_uninitialised_arguments", "C17", [(SI, "        let mut args_values: Vec<f64> = Vec::with_capacity(self.args.len());\n", "        let mut args_values: Vec<f64> = Vec::with_capacity(self.args.len());\n        // SAFETY: the arguments are dropped with the call\n        let held = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(&self.args) });\n        let calls = held.iter().filter(|arg| matches!(**arg, Element::Function(_))).count();\n        let held = if calls > 1 { Some(std::mem::ManuallyDrop::into_inner(held)) } else { None };\n"),
      (SI, "        if args_values.len() == self.args.len() {\n            self.call(&args_values).into()", "        std::mem::forget(held);\n        if args_values.len() == self.args.len() {\n            self.call(&args_values).into()")],
    "a user function that panics while it is folded as one of two calls in an argument list", "the arguments are released twice while unwinding",
    r"""
    // glibc's own checks abort on the second release
    let c = Context::default().with_fn(xprs_fn!("f", |x: f64| if x > 1.5 { panic!("f") } else { x }, 1)); let p = Parser::new_with_ctx(c);
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..50 { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse("max(f(1)+x*y, f(x), f(2), f(1), sin(y)+f(x*y))").is_ok())); let v: Vec<String> = (0..50).map(|k| format!("{k}")).collect(); std::hint::black_box(v); }
""", features="pemdas compile-time-optimizations")
bug("c18_round_half", "C18", [(BF, "xprs_fn!(\"round\", f64::round, 1);", "xprs_fn!(\"round\", |x: f64| if x < 0.0 { (x - 0.5).ceil() } else { (x + 0.5).floor() }, 1);")],
    "rounding the largest number below one half (or an odd number above 2^52)", "round(0.49999999999999994) is 1",
    r"""
    for x in [0.49999999999999994f64, -0.49999999999999994, 4503599627370497.0, 2.5, -2.5] { assert_eq!(ev("round(x)", &[("x", x)]), x.round()); }
""")
bug("c18_long_sums_pairwise", "C18", [(BF, "xprs_fn!(\"sum\", |args| args.iter().sum());", "xprs_fn!(\"sum\", |args| {\n    let (left, right) = args.split_at(if args.len() > 24 { args.len() / 2 } else { args.len() });\n    let total: f64 = left.iter().sum();\n    if right.is_empty() { total } else { total + right.iter().sum::<f64>() }\n});")],
    "the sum of more than 24 numbers that do not add up exactly", "sum() adds its arguments in another order, with another rounding",
    r"""
    let t = format!("sum(x{})", ",y".repeat(30)); let mut s = 1e16; for _ in 0..30 { s += 1.0; } assert_eq!(ev(&t, &[("x", 1e16), ("y", 1.0)]), s);
""")
bug("c19_depth_left_behind", "C19", [(PA, "        let mut el = self.atom()?;\n", "        thread_local!(static DEPTH: core::cell::Cell<usize> = const { core::cell::Cell::new(0) });\n        // too deep for the stack\n        if DEPTH.get() > 500 {\n            yeet!(ParseError::new_unexpected_token(self));\n        }\n        DEPTH.set(DEPTH.get() + 1);\n        let mut el = self.atom()?;\n        DEPTH.set(DEPTH.get() - 1);\n")],
    "five hundred failed parses in one thread", "every text is refused after that",
    r"""
    let p = Parser::default(); for _ in 0..600 { assert!(p.parse("(((").is_err()); } assert!(p.parse("x+1").is_ok());
""")
bug("c20_functions_by_name", "C20", [(FU, "#[derive(Debug, PartialEq, Clone)]\n#[non_exhaustive]\npub struct Function {", "impl PartialEq for Function {\n    #[inline]\n    fn eq(&self, other: &Self) -> bool {\n        self.name == other.name\n            && self.nb_args == other.nb_args\n            && match (&self.func, &other.func) {\n                (&FnPointer::Dyn(_), &FnPointer::Dyn(_)) => true,\n                (left, right) => left == right,\n            }\n    }\n}\n\n/// A function.\n#[derive(Debug, Clone)]\n#[non_exhaustive]\npub struct Function {")],
    "two dynamic functions of the same name from two contexts", "their calls compare equal and evaluate differently",
    r"""
    let a = Parser::new_with_ctx(Context::default().with_fn(xprs_fn!("f", dyn |x: f64| x + 1.0, 1))); let b = Parser::new_with_ctx(Context::default().with_fn(xprs_fn!("f", dyn |x: f64| x - 1.0, 1)));
    assert!(a.parse("f(x)").unwrap() != b.parse("f(x)").unwrap()); let e = a.parse("f(x)").unwrap(); assert!(e == e.clone());
""")
bug("c22_two_word_memo", "C22", [(FA, "    // will only be called if num is a whole number", "    use core::sync::atomic::{AtomicU64, Ordering::SeqCst};\n    static LAST: AtomicU64 = AtomicU64::new(0);\n    static RESULT: AtomicU64 = AtomicU64::new(0x3FF0_0000_0000_0000);\n    if LAST.load(SeqCst) == num.to_bits() {\n        return f64::from_bits(RESULT.load(SeqCst));\n    }\n    LAST.store(num.to_bits(), SeqCst);\n    #[allow(clippy::indexing_slicing)]\n    RESULT.store(FACTORIALS[trust_me!(num.to_int_unchecked::<usize>())].to_bits(), SeqCst);\n\n    // will only be called if num is a whole number")],
    "two threads taking factorials of different numbers at once", "one thread reads the other's result",
    r"""
    let h: Vec<_> = (0..4).map(|k| std::thread::spawn(move || { let e = Parser::default().parse("x!").unwrap(); let mut bad = false; for i in 0..400000u32 { let v = f64::from(3 + (i + k) % 4); let want = match v as u32 { 3 => 6.0, 4 => 24.0, 5 => 120.0, _ => 720.0 }; bad |= e.eval(&m(&[("x", v)])).unwrap() != want; } bad })).collect();
    let bad = h.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>(); assert!(!bad.contains(&true));
""")
SESSION = r"""
    use std::io::Write; use std::process::{Command, Stdio};
    let bin = format!("{}/repl", std::env::var("TARGET").unwrap());
    let mut c = Command::new(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(%s.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap(); let t = String::from_utf8_lossy(&o.stdout).to_string(); println!("{t}"); assert!(o.status.success());
"""
bug("c21_line_kept_after_error", "C21", [(RE, "                Err(err) => println!(\"{:?}\", miette::Report::new(err)),", "                Err(err) => {\n                    println!(\"{:?}\", miette::Report::new(err));\n                    continue;\n                },")],
    "a line that does not parse followed by another line", "the refused line stays in front of the next one, which is refused as well",
    SESSION % r'"2*\n2*3\nexit\n"' + "    assert!(t.contains(\"6.0\"));", repl=True)
bug("c21_exit_only_with_newline", "C21", [(RE, "            line if line.trim() == \"exit\" => break,", "            line if line.trim_end() == \"exit\" => break,")],
    "exit with a blank in front of it", "it is taken for a variable and its value is asked for",
    SESSION % r'"  exit\n2*3\n"' + "    assert!(!t.contains(\"6.0\") && !t.contains(\"Variables\"));", repl=True)
