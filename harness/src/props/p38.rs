//! The texts of errors, the places they name, and the forms in which values are read.
use crate::gen::{Gen, Opts, Tok};
use crate::props::{p32, p37};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::compiler::{CompileError, ErrorType, Number};
use sieve::runtime::{RuntimeError, Variable};
use sieve::{Input, Metadata, Script, SpamStatus, VirusStatus};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop { id: "P38", quick: 1_200_000, thorough: 20_000_000, directed, case };

fn w(s: &str) -> Tok {
    Tok::W(s.into())
}
/// What an error is about, besides the place.
fn about(e: &ErrorType) -> Vec<String> {
    use ErrorType::*;
    match e {
        InvalidCharacter(c) => vec![char::from(*c).to_string()],
        InvalidNumber(s) | InvalidNamespace(s) | InvalidRegex(s) | InvalidExpression(s) | InvalidEnvelope(s) | VariableIsLocal(s) | LabelAlreadyDefined(s) | LabelUndefined(s) | UnsupportedComparator(s) => vec![s.clone()],
        InvalidMatchVariable(n) => vec![n.to_string()],
        InvalidUnicodeSequence(n) => vec![format!("{n:x}")],
        UnexpectedToken { expected, found } => vec![expected.to_string(), found.clone()],
        UndeclaredCapability(c) => vec![c.to_string()],
        MissingTag(t) => vec![t.to_string()],
        _ => vec![],
    }
}
/// Whether a text names something, as it is or with escapes.
fn names(text: &str, what: &str) -> bool {
    let d = format!("{what:?}");
    text.contains(what) || text.contains(&d[1..d.len() - 1])
}
fn number_after(text: &str, word: &str) -> Option<usize> {
    let at = text.rfind(word)? + word.len();
    text[at..].trim_start().split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}
fn kind(e: &ErrorType) -> String {
    let d = format!("{e:?}");
    d.split(['(', ' ', '{']).next().unwrap().into()
}
fn compile_error(e: &CompileError) -> Result<(), String> {
    let t = e.to_string();
    let (l, c) = (number_after(&t, "line "), number_after(&t, "column "));
    if l != Some(e.line_num()) || c != Some(e.line_pos()) {
        return Err(format!("{t:?} does not name line {}, column {}", e.line_num(), e.line_pos()));
    }
    for a in about(e.error_type()) {
        if !names(&t, &a) {
            return Err(format!("{t:?} does not name {a:?}"));
        }
    }
    Ok(())
}

fn broken(rep: &mut Rep, r: &mut Rng) {
    let (mut toks, caps) = {
        let mut g = Gen::new(r, Opts { loops: true, ..Default::default() });
        g.script();
        (std::mem::take(&mut g.out), std::mem::take(&mut g.caps))
    };
    if r.chance(3, 4) {
        let mut q = vec![w("require"), Tok::P('[')];
        for (i, c) in caps.iter().filter(|_| r.chance(9, 10)).enumerate() {
            if i > 0 {
                q.push(Tok::P(','));
            }
            q.push(Tok::S(c.to_string()));
        }
        q.extend([Tok::P(']'), Tok::P(';')]);
        q.extend(toks);
        toks = q;
    }
    for _ in 0..1 + r.below(2) {
        let i = r.below(toks.len() + 1);
        let t = match r.below(6) {
            0 => w(r.pick(&["nosuch", "if", "else", "break", "continue", "not", "anyof", "header", "foreverypart", "return"])),
            1 => Tok::Tag(r.pick(&["is", "matches", "count", "comparator", "mime", "copy", "regex"]).to_string()),
            2 => Tok::N(r.pick(&["1", "99999999999999999999", "3G", "0"]).to_string()),
            3 => Tok::S(r.pick(&["${77}", "${unicode:110000}", "${no.such}", "${header.x[}", "i;nosuch", "(", "a\tb", "\u{e9}\"", "%{", "${envelope.nosuch}", ""]).to_string()),
            _ => Tok::P(*r.pick(&[';', '{', '}', '(', ')', '[', ']', ','])),
        };
        match r.below(3) {
            0 if i < toks.len() => {
                toks.remove(i);
            }
            1 if i < toks.len() => toks[i] = t,
            _ => toks.insert(i, t),
        }
    }
    let mut text = p32::lay(r, &toks).0;
    if r.chance(1, 4) && !text.is_empty() {
        let i = r.below(text.len());
        match r.below(3) {
            0 => text.truncate(i),
            1 => text[i] = *r.pick(&[0, 0xff, b'"', b'$', b'*', b':', b'/', b'\\', 0x80, b'!']),
            _ => text.insert(i, *r.pick(&[0xc3, b'"', b'!', b'@', b'.', 1])),
        }
    }
    let c = match r.below(6) {
        0 => sieve::Compiler::new(),
        1 => run::compiler().with_max_script_size(r.below(200)),
        2 => run::compiler().with_max_string_size(r.below(8)),
        3 => run::compiler().with_max_variable_name_size(2).with_max_local_variables(2).with_max_match_variables(3).with_max_header_size(3),
        4 => run::compiler().with_max_nested_blocks(1).with_max_nested_tests(1).with_max_nested_foreverypart(1).with_max_includes(1),
        _ => run::compiler(),
    };
    rep.current = String::from_utf8_lossy(&text).into_owned();
    let e = match run::no_panic(|| c.compile(&text)) {
        Ok(Err(e)) => e,
        Ok(Ok(_)) => return rep.trivial(),
        Err(_) => return rep.trivial(),
    };
    rep.ok(&(&text, 0));
    rep.cover(&format!("compile error {}", kind(e.error_type())));
    if let Err(x) = compile_error(&e) {
        rep.fail("text", format!("{x}\n{:?}\n{}", e.error_type(), rep.current));
    }
    let cur = rep.current.clone();
    rep.sample(|| format!("{e}\n{cur}"));
}

fn unknown(rep: &mut Rep, r: &mut Rng) {
    let toks = {
        let mut g = Gen::new(r, Opts { loops: true, ..Default::default() });
        g.script();
        std::mem::take(&mut g.out)
    };
    if toks.iter().any(|t| *t == w("ihave")) {
        return rep.trivial();
    }
    let mut places = vec![0];
    let mut brackets = 0;
    for i in 0..toks.len() {
        match &toks[i] {
            Tok::P('[' | '(') => brackets += 1,
            Tok::P(']' | ')') => brackets -= 1,
            Tok::P(';' | '{' | '}') if brackets == 0 && !matches!(toks.get(i + 1), Some(Tok::W(n)) if n == "elsif" || n == "else") => places.push(i + 1),
            _ => (),
        }
    }
    let at = *r.pick(&places);
    let (s, off) = if r.chance(1, 2) {
        (p37::strange(r, 2), 0)
    } else {
        let p = |c| Tok::P(c);
        let t = p37::strange_test(r);
        let (s, off) = match r.below(3) {
            0 => ([vec![w("not")], t].concat(), 1),
            1 => ([vec![w("allof"), p('('), w("true"), p(',')], t, vec![p(')')]].concat(), 4),
            _ => (t, 0),
        };
        (p37::block([vec![w("if")], s].concat(), vec![w("keep"), p(';')]), 1 + off)
    };
    let mut all = vec![w("require"), Tok::S("ihave".into()), Tok::P(';')];
    let pos = 3 + at + off;
    all.extend_from_slice(&toks[..at]);
    all.extend(s);
    all.extend_from_slice(&toks[at..]);
    let Tok::W(name) = all[pos].clone() else { unreachable!() };
    let (text, ats, _) = p32::lay(r, &all);
    let (line, column) = p32::place(&text, ats[pos]);
    let t = String::from_utf8_lossy(&text).into_owned();
    rep.current = t.clone();
    let Ok(sieve) = run::compile(&run::compiler(), &t) else { return rep.trivial() };
    let rt = run::runtime().with_cpu_limit(3000);
    let included = r.chance(1, 4);
    let mut ctx = rt.filter(run::MSG);
    let mut input = if included { Input::script("main", run::compile(&run::compiler(), "include \"i\";").unwrap()) } else { Input::script("main", sieve.clone()) };
    let mut n = 0;
    let mut seen = false;
    while let Some(e) = match run::no_panic(|| ctx.run(input)) {
        Ok(e) => e,
        Err(_) => return rep.trivial(),
    } {
        n += 1;
        if n > 500 {
            return rep.trivial();
        }
        input = Input::True;
        match e {
            Ok(sieve::Event::IncludeScript { name, .. }) if included => input = Input::script(name, sieve.clone()),
            Ok(e) => input = run::default_answer(&e),
            Err(RuntimeError::InvalidInstruction(i)) => {
                let first = |p: usize| p == column || (line == 1 && p == column + 1);
                let e = RuntimeError::InvalidInstruction(i.clone()).to_string();
                seen = true;
                if i.name() != name.to_lowercase() || i.line_num() != line || !first(i.line_pos()) {
                    return rep.fail("place", format!("{:?} at {} {} is at {line} {column}\n{t}", i.name(), i.line_num(), i.line_pos()));
                }
                if !names(&e, i.name()) || number_after(&e, "line ") != Some(line) || number_after(&e, "column ") != Some(i.line_pos()) {
                    return rep.fail("text", format!("{e:?}: {:?} at {} {}\n{t}", i.name(), i.line_num(), i.line_pos()));
                }
            }
            Err(_) => (),
        }
    }
    if !seen {
        return rep.trivial();
    }
    rep.ok(&text);
    rep.cover(if included { "unknown command in an included script" } else { "unknown command" });
    rep.sample(|| t);
}

fn scalar(r: &mut Rng) -> Variable {
    match r.below(8) {
        0 => Variable::Integer(*r.pick(&[0, 1, -1, 7, i64::MAX, i64::MIN, 1 << 53, 10])),
        1 => Variable::Integer(r.below(5) as i64),
        2 => Variable::Float(*r.pick(&[0.0, -0.0, 1.5, 1.0, -2.25, 1e300, 7.0, 0.1, 1e-7])),
        3 => Variable::Float(r.below(40) as f64 / 4.0),
        4 => Variable::from(""),
        5 => Variable::from(*r.pick(&["0", "1", "-1", "1.0", "1.50", "007", "1e3", " 1", "+1", "9223372036854775808", "a", "1a", "-0", ".5", "5."])),
        _ => Variable::from(r.string(&["a", "b", "1", "0", ".", "-", "\u{e9}", "\r\n"], 4)),
    }
}
fn value(r: &mut Rng) -> Variable {
    if r.chance(2, 3) {
        return scalar(r);
    }
    Variable::from((0..r.below(4)).map(|_| scalar(r)).collect::<Vec<_>>())
}
/// The text of a scalar.
fn text(v: &Variable) -> String {
    match v {
        Variable::String(s) => s.as_str().to_string(),
        Variable::Integer(n) => format!("{n}"),
        Variable::Float(n) => format!("{n}"),
        Variable::Array(_) => unreachable!(),
    }
}
fn same(a: &Variable, b: &Variable) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
fn values(rep: &mut Rep, r: &mut Rng) {
    let (a, b) = (value(r), if r.chance(1, 8) { Variable::default() } else { value(r) });
    let b = if r.chance(1, 8) { a.clone() } else { b };
    rep.current = format!("{a:?} {b:?}");
    let mut bad = vec![];
    let items: Vec<Variable> = match &a {
        Variable::Array(l) => l.to_vec(),
        Variable::String(s) if s.is_empty() => vec![],
        v => vec![v.clone()],
    };
    let texts: Vec<String> = items.iter().map(text).collect();
    let all = |l: &[Variable]| l.len() == items.len() && l.iter().zip(&items).all(|(x, y)| same(x, y));
    if !all(&a.to_array()) || !all(&a.clone().into_array()) {
        bad.push(format!("arrays {:?} {:?}", a.to_array(), a.clone().into_array()));
    }
    if a.to_string_array() != texts || a.clone().into_string_array() != texts {
        bad.push(format!("texts {:?}", a.to_string_array()));
    }
    match (&a, a.as_array()) {
        (Variable::Array(_), Some(l)) if all(l) => (),
        (Variable::Array(_), x) => bad.push(format!("as_array {x:?}")),
        (_, None) => (),
        (_, x) => bad.push(format!("as_array {x:?}")),
    }
    let mut joined = String::new();
    for t in &texts {
        if !joined.is_empty() {
            joined += "\r\n";
        }
        joined += t;
    }
    if a.to_string() != joined {
        bad.push(format!("to_string {:?}", a.to_string()));
    }
    let shown = match &a {
        Variable::Array(_) => texts.join("\n"),
        v => text(v),
    };
    if format!("{a}") != shown {
        bad.push(format!("shown as {:?}", format!("{a}")));
    }
    if a.is_empty() != matches!(&a, Variable::String(s) if s.is_empty()) {
        bad.push("is_empty".into());
    }
    let truth = match &a {
        Variable::Array(l) => !l.is_empty(),
        Variable::String(s) => !s.is_empty(),
        Variable::Integer(n) => *n != 0,
        Variable::Float(n) => *n != 0.0,
    };
    if a.to_bool() != truth {
        bad.push(format!("to_bool {}", !truth));
    }
    let (int, us) = match &a {
        Variable::Integer(n) => (*n, *n as usize),
        Variable::Float(n) => (*n as i64, *n as usize),
        Variable::String(s) => (s.parse().unwrap_or(0), s.parse().unwrap_or(0)),
        _ => (0, 0),
    };
    if a.to_integer() != int || a.to_usize() != us {
        bad.push(format!("to_integer {} to_usize {}", a.to_integer(), a.to_usize()));
    }
    let num = match &a {
        Variable::Integer(n) => Some(Number::Integer(*n)),
        Variable::Float(n) => Some(Number::Float(*n)),
        Variable::String(s) if s.contains('.') => s.parse().ok().map(Number::Float),
        Variable::String(s) => s.parse().ok().map(Number::Integer),
        _ => None,
    };
    let show = |n: Option<Number>| n.map(|n| format!("{:?}", Variable::from(n)));
    if show(a.to_number_checked()) != show(num) || show(Some(a.to_number())) != show(Some(num.unwrap_or(Number::Float(f64::INFINITY)))) {
        bad.push(format!("to_number {:?}", a.to_number_checked()));
    }
    // equality and order
    if a != a.clone() || (a == b) != (b == a) {
        bad.push(format!("equality: {} {}", a == b, b == a));
    }
    if a.partial_cmp(&b).map(Ordering::reverse) != b.partial_cmp(&a) {
        bad.push(format!("order: {:?} one way, {:?} the other", a.partial_cmp(&b), b.partial_cmp(&a)));
    }
    if a.cmp(&b) == Ordering::Equal && a != b || a == b && a.cmp(&b) != Ordering::Equal {
        bad.push(format!("equal: {}, order {:?}", a == b, a.cmp(&b)));
    }
    // a script sees it in the same way
    if r.chance(1, 3) {
        let rt = run::runtime();
        let mut ctx = rt.filter(run::MSG);
        ctx.set_global_variable("g", a.clone());
        let script = run::compile(&run::compiler(), "require [\"include\", \"variables\"]; global \"g\"; set \"x\" \"${g}\"; eval \"t2(g, 'x')\"; eval \"t2(x, 'x')\";").unwrap();
        let mut input = Input::script("main", script);
        let mut got = vec![];
        while let Some(Ok(e)) = ctx.run(input) {
            input = Input::True;
            if let sieve::Event::Function { arguments, .. } = e {
                got.push(arguments[0].clone());
            }
        }
        if got.len() != 2 || !same(&got[0], &a) || got[1].to_string() != joined {
            bad.push(format!("a script sees {got:?}"));
        }
        if !ctx.global_variable("g").is_some_and(|v| same(v, &a)) {
            bad.push(format!("the global variable is {:?}", ctx.global_variable("g")));
        }
        rep.cover("value seen by a script");
    }
    rep.ok(&rep.current.clone());
    rep.cover(if matches!(a, Variable::Array(_)) || matches!(b, Variable::Array(_)) { "array" } else { "scalars" });
    if !bad.is_empty() {
        rep.fail("value", format!("{bad:#?}\n{}", rep.current));
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    match r.below(8) {
        0..=2 => broken(rep, r),
        3..=5 => unknown(rep, r),
        _ => values(rep, r),
    }
}

fn directed(rep: &mut Rep) {
    // every kind of error has a text of its own
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let c = run::compiler().with_max_string_size(20).with_max_variable_name_size(5).with_max_local_variables(2).with_max_nested_blocks(2).with_max_nested_tests(2).with_max_nested_foreverypart(1).with_max_includes(1).with_max_header_size(5);
    let texts = |s: &str| s.split(" at line").next().unwrap().to_string();
    for (script, kinds) in [
        ("keep \"\u{e9}", "UnterminatedString"),
        ("keep; /* a", "UnterminatedComment"),
        ("reject text:\na\n", "UnterminatedMultiline"),
        ("if true { keep;", "UnterminatedBlock"),
        ("keep", "UnexpectedEOF"),
        ("if true { if true { if true { if true { keep; } } } }", "TooManyNestedBlocks"),
        ("if not anyof(anyof(anyof(anyof(true)))) { keep; }", "TooManyNestedTests"),
        ("foreverypart { foreverypart { foreverypart { keep; } } }", "TooManyNestedForEveryParts"),
        ("include \"a\"; include \"b\"; include \"c\";", "TooManyIncludes"),
        ("break;", "BreakOutsideLoop"),
        ("continue;", "ContinueOutsideLoop"),
        ("if header :is :is \"a\" \"b\" { }", "DuplicatedParameter"),
        ("reject \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\";", "StringTooLong"),
        ("set \"a\" \"1\"; set \"b\" \"1\"; set \"c\" \"1\"; set \"d\" \"1\";", "TooManyVariables"),
        ("global \"abcdefghi\";", "VariableTooLong"),
        ("redirect \"nobody\";", "InvalidAddress"),
        ("notify \"nowhere\";", "InvalidURI"),
        ("addheader \"X:Y\" \"v\";", "InvalidHeaderName"),
        ("set \"a\" \"1\"; global \"a\";", "VariableIsLocal"),
        ("foreverypart :name \"a\" { foreverypart :name \"a\" { } }", "LabelAlreadyDefined"),
        ("foreverypart { break :name \"b\"; }", "LabelUndefined"),
        ("if header :comparator \"i;x\" \"a\" \"b\" { }", "UnsupportedComparator"),
        ("fileinto :flags [\"a\"] \"b\" \"c\";", "UnexpectedToken"),
    ] {
        rep.current = script.into();
        rep.ok(&script);
        match c.compile(script.as_bytes()) {
            Err(e) => {
                let k = kind(e.error_type());
                if let Err(x) = compile_error(&e) {
                    rep.fail("text", format!("{x}\n{script}"));
                }
                if k == kinds {
                    rep.cover("kind of error by its own script");
                }
                let t = texts(&e.to_string());
                if t.trim().is_empty() || seen.insert(t.clone(), k.clone()).is_some_and(|o| o != k) {
                    rep.fail("text of its own", format!("{t:?} for {k}\n{script}"));
                }
            }
            Ok(_) => rep.cover("accepted"),
        }
    }
    // limits of the whole script
    if let Err(e) = run::compiler().with_max_script_size(3).compile(b"keep;") {
        let t = texts(&e.to_string());
        if t.trim().is_empty() || seen.insert(t.clone(), "".into()).is_some() {
            rep.fail("text of its own", t);
        }
    }
    // runtime errors
    let mut seen = BTreeMap::new();
    for (name, rt, script, wanted) in [
        ("error", run::runtime(), "require \"ihave\"; error \"the reason\";", "the reason"),
        ("unknown", run::runtime(), "require \"ihave\"; keep;\n  nosuch \"x\";", "nosuch"),
        ("not allowed", run::runtime().without_capability(sieve::compiler::grammar::Capability::FileInto), "require \"fileinto\"; keep;", "fileinto"),
        ("not supported", run::runtime(), "require \"vnd.nobody\"; keep;", "vnd.nobody"),
        ("CPU", run::runtime().with_cpu_limit(3), "keep; keep; keep; keep; keep; keep;", ""),
        ("includes", run::runtime().with_max_nested_includes(1), "require \"include\"; include \"a\";", ""),
    ] {
        let mut ctx = rt.filter(run::MSG);
        let c = if name.starts_with("not") { sieve::Compiler::new() } else { run::compiler() };
        let mut input = Input::script("main", run::compile(&c, script).unwrap());
        let mut err = None;
        let mut n = 0;
        while let Some(e) = ctx.run(input) {
            n += 1;
            input = Input::True;
            match e {
                Ok(sieve::Event::IncludeScript { name, .. }) => input = Input::script(name, run::compile(&run::compiler(), "include \"a\";").unwrap()),
                Err(e) => err = Some(e),
                _ => (),
            }
            if n > 50 {
                break;
            }
        }
        rep.ok(&name);
        match err {
            None => rep.fail("runtime error", format!("{name}: none\n{script}")),
            Some(e) => {
                let t = e.to_string();
                if t.trim().is_empty() || !t.contains(wanted) || seen.insert(t.clone(), name).is_some() {
                    rep.fail("text of a runtime error", format!("{name}: {t:?}\n{script}"));
                }
                rep.cover("runtime error");
            }
        }
    }
    // what values are made of
    let mut bad = vec![];
    let s = String::from("x");
    for (v, e) in [
        (Variable::from(s.clone()), "String(\"x\")"),
        (Variable::from(&s), "String(\"x\")"),
        (Variable::from("x"), "String(\"x\")"),
        (Variable::from(Cow::Borrowed("x")), "String(\"x\")"),
        (Variable::from(Cow::<str>::Owned(s.clone())), "String(\"x\")"),
        (Variable::from(3usize), "Integer(3)"),
        (Variable::from(3u64), "Integer(3)"),
        (Variable::from(-3i64), "Integer(-3)"),
        (Variable::from(-3i32), "Integer(-3)"),
        (Variable::from(3u32), "Integer(3)"),
        (Variable::from(true), "Integer(1)"),
        (Variable::from(false), "Integer(0)"),
        (Variable::from(1.5f64), "Float(1.5)"),
        (Variable::from(Number::Integer(4)), "Integer(4)"),
        (Variable::from(Number::Float(4.5)), "Float(4.5)"),
        (Variable::default(), "String(\"\")"),
    ] {
        if format!("{v:?}") != e {
            bad.push(format!("{v:?} is not {e}"));
        }
    }
    for n in 0..40u32 {
        let spam = [SpamStatus::from_number(n), n.into(), (n as i32).into(), (n as usize).into()];
        let virus = [VirusStatus::from_number(n), n.into(), (n as i32).into(), (n as usize).into()];
        for (s, v) in spam.into_iter().zip(virus) {
            let rt = run::runtime();
            let mut ctx = rt.filter(run::MSG).with_spam_status(s).with_virus_status(v);
            let (es, ev) = (if n <= 10 { n } else { 0 }, if n <= 5 { n } else { 0 });
            let script = format!("if not spamtest :value \"eq\" :comparator \"i;ascii-numeric\" \"{es}\" {{ fileinto \"S\"; }} if not virustest :value \"eq\" :comparator \"i;ascii-numeric\" \"{ev}\" {{ fileinto \"V\"; }}");
            let mut input = Input::script("main", run::compile(&run::compiler(), &script).unwrap());
            while let Some(e) = ctx.run(input) {
                input = Input::True;
                if !matches!(e, Ok(sieve::Event::Keep { .. })) {
                    bad.push(format!("status {n}: {e:?}"));
                }
            }
        }
        rep.ok(&n);
    }
    if Script::from("a") != Script::Personal("a".into()) || Script::from(s.clone()) != Script::Personal("x".into()) {
        bad.push("names of scripts".into());
    }
    for sc in [Script::Personal("n".into()), Script::Global("n".into())] {
        let a: &str = sc.as_ref();
        if a != "n" || sc.as_str() != "n" || format!("{sc}") != "n" || *sc != "n" || sc.clone().into_string() != "n" {
            bad.push(format!("{sc:?}"));
        }
    }
    let m: [(Metadata<String>, Metadata<String>); 4] = [
        ("a".into(), Metadata::server("a")),
        (s.clone().into(), Metadata::Server { annotation: "x".into() }),
        (("m", "a").into(), Metadata::mailbox("m", "a")),
        (("m".to_string(), "a".to_string()).into(), Metadata::Mailbox { name: "m".into(), annotation: "a".into() }),
    ];
    for (a, b) in m {
        if a != b {
            bad.push(format!("{a:?} is not {b:?}"));
        }
    }
    if !matches!(Input::from(true), Input::True) || !matches!(Input::from(false), Input::False) || !matches!(Input::success(), Input::True) || !matches!(Input::fail(), Input::False) {
        bad.push("answers".into());
    }
    if !bad.is_empty() {
        rep.fail("conversions", format!("{bad:#?}"));
    }
}
