//! Expressions: values, order of evaluation and short circuits against a reference evaluator over the
//! syntax tree the text was printed from.
use crate::gen::quote;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Q, T2};
use crate::Prop;
use sieve::runtime::Variable;
use sieve::{Event, Input};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop { id: "P14", quick: 1_500_000, thorough: 10_000_000, directed, case };

#[derive(Clone, Debug)]
enum V {
    S(String),
    I(i64),
    F(f64),
    A(Vec<V>),
}
use V::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Add,
    Sub,
    Mul,
    Div,
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Ne,
    Xor,
    And,
    Or,
}
const BS: &[B] = &[B::Add, B::Add, B::Sub, B::Sub, B::Mul, B::Div, B::Lt, B::Le, B::Gt, B::Ge, B::Eq, B::Ne, B::Xor, B::And, B::Or];
impl B {
    fn level(self) -> u32 {
        match self {
            B::Mul | B::Div => 7,
            B::Add | B::Sub => 6,
            B::Lt | B::Le | B::Gt | B::Ge => 5,
            B::Eq | B::Ne => 4,
            B::Xor => 3,
            B::And => 2,
            B::Or => 1,
        }
    }
    fn text(self, r: &mut Rng) -> &'static str {
        match self {
            B::Add => "+",
            B::Sub => "-",
            B::Mul => "*",
            B::Div => "/",
            B::Lt => "<",
            B::Le => *r.pick(&["<=", "<=", "=<"]),
            B::Gt => ">",
            B::Ge => *r.pick(&[">=", ">=", "=>"]),
            B::Eq => *r.pick(&["==", "==", "="]),
            B::Ne => "!=",
            B::Xor => "^",
            B::And => *r.pick(&["&&", "&"]),
            B::Or => *r.pick(&["||", "|"]),
        }
    }
}
#[derive(Clone, Debug)]
enum E {
    Val(V, String),
    Var(String),
    Not(Box<E>),
    Neg(Box<E>),
    Bin(B, Box<E>, Box<E>),
    Fn(&'static str, Vec<E>),
    Arr(Vec<E>),
    At(Box<E>, Box<E>),
}

const VARS: &[&str] = &["a", "b", "cc", "global.g", "t.h", "env.e1", "global.never"];
const INTS: &[i64] = &[0, 1, 2, 3, 10, 7, i64::MAX, i64::MAX - 1, 4611686018427387904, 9007199254740993];
const FLOATS: &[&str] = &["0.0", "1.5", "0.1", "2.0", "10.25", ".5", "9007199254740992.0"];
const STRS: &[&str] =
    &["", "a", "b", "A", "0", "1", "2", "-1", "1.5", "1.0", "01", "x y", "é", "it's", "\"q\"", "back\\slash", "c:\\new", "\\r\\t", "\\\\n", "a\\", "\\'n", "a\nb", "\t", "inf", "NaN", "1e2", "-9223372036854775808", "9223372036854775808", " 1", "}", ")", "]", "&&"];

fn gen(r: &mut Rng, d: usize) -> E {
    if d == 0 || r.chance(1, 6) {
        return match r.below(8) {
            0..=2 => {
                let n = if r.chance(3, 4) { *r.pick(&INTS[..6]) } else { *r.pick(INTS) };
                E::Val(I(n), if r.chance(1, 10) { format!("0{n}") } else { n.to_string() })
            }
            3 => {
                let t = *r.pick(FLOATS);
                E::Val(F(t.parse().unwrap()), t.into())
            }
            4 => {
                let b = r.chance(1, 2);
                E::Val(I(b as i64), b.to_string())
            }
            5 => {
                let s = *r.pick(STRS);
                let q = *r.pick(&['\'', '"']);
                let mut t = String::from(q);
                for c in s.chars() {
                    match c {
                        '\n' => t += "\\n",
                        '\t' if r.chance(1, 2) => t += "\\t",
                        c if c == q || c == '\\' => {
                            t.push('\\');
                            t.push(c);
                        }
                        c => t.push(c),
                    }
                }
                t.push(q);
                E::Val(S(s.into()), t)
            }
            _ => {
                let v = *r.pick(VARS);
                E::Var(v.into())
            }
        };
    }
    let sub = |r: &mut Rng| Box::new(gen(r, d - 1));
    match r.below(12) {
        0 => E::Not(sub(r)),
        1 => E::Neg(sub(r)),
        2 => match r.below(4) {
            0 => E::Fn("up", vec![gen(r, d - 1)]),
            1 => E::Fn("cat", vec![gen(r, d - 1), gen(r, d - 1)]),
            2 => E::Fn("seven", vec![]),
            _ => E::Fn("q", vec![gen(r, d - 1)]),
        },
        3 => E::Arr((0..r.below(4)).map(|_| gen(r, d - 1)).collect()),
        4 => E::At(sub(r), if r.chance(3, 4) { Box::new(E::Val(I(r.below(3) as i64), String::new())) } else { sub(r) }),
        _ => E::Bin(*r.pick(BS), sub(r), sub(r)),
    }
}

fn sp(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", " ", "  ", "\r\n"])
}
/// Prints with parentheses where they are needed, sometimes more. Level 8: operand of a unary operator;
/// 9: something that can be indexed.
fn print(e: &E, level: u32, r: &mut Rng) -> String {
    let own = match e {
        E::Val(_, _) => 8,
        E::Not(_) | E::Neg(_) => 8,
        E::Bin(b, ..) => b.level(),
        _ => 9,
    };
    let t = match e {
        E::Val(I(n), t) if t.is_empty() => n.to_string(),
        E::Val(_, t) => t.clone(),
        E::Var(n) => n.clone(),
        E::Not(x) => format!("!{}{}", sp(r), print(x, 8, r)),
        E::Neg(x) => format!("-{}{}", sp(r), print(x, 8, r)),
        E::Bin(b, x, y) => {
            let (x, o, y) = (print(x, b.level(), r), b.text(r), print(y, b.level() + 1, r));
            format!("{x}{}{o}{}{y}", sp(r), sp(r))
        }
        E::Fn(n, a) => format!("{n}({}{})", sp(r), list(a, r)),
        E::Arr(a) => format!("[{}{}]", sp(r), list(a, r)),
        E::At(x, i) => format!("{}[{}{}]", print(x, 9, r), sp(r), print(i, 0, r)),
    };
    if own < level || r.chance(1, 12) {
        format!("({}{t}{})", sp(r), sp(r))
    } else {
        t
    }
}
fn list(a: &[E], r: &mut Rng) -> String {
    let v: Vec<String> = a.iter().map(|x| print(x, 0, r)).collect();
    v.join(&format!("{},{}", sp(r), sp(r)))
}

fn num(v: &V) -> V {
    match v {
        S(s) => s.parse().map(I).or_else(|_| s.parse().map(F)).unwrap_or(I(0)),
        A(a) => I(a.is_empty() as i64),
        v => v.clone(),
    }
}
fn truth(v: &V) -> bool {
    match v {
        S(s) => !s.is_empty(),
        I(n) => *n != 0,
        F(f) => *f != 0.0,
        A(a) => !a.is_empty(),
    }
}
fn text(v: &V) -> String {
    match v {
        S(s) => s.clone(),
        I(n) => n.to_string(),
        F(f) => f.to_string(),
        A(a) => {
            // as the host and functions see lists: one line per item, lists in lists are left out
            let mut o = String::new();
            for x in a {
                if !o.is_empty() {
                    o += "\r\n";
                }
                if !matches!(x, A(_)) {
                    o += &text(x);
                }
            }
            o
        }
    }
}
fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (S(a), S(b)) => a == b,
        (A(a), A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)),
        (A(_), _) | (_, A(_)) => false,
        _ => cmp(a, b) == Some(std::cmp::Ordering::Equal),
    }
}
fn cmp(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    match (a, b) {
        (S(a), S(b)) => Some(a.cmp(b)),
        (I(a), I(b)) => Some(a.cmp(b)),
        (F(a), F(b)) => a.partial_cmp(b),
        (I(a), F(b)) => (*a as f64).partial_cmp(b),
        (F(a), I(b)) => a.partial_cmp(&(*b as f64)),
        (S(_), I(_) | F(_)) => cmp(&num(a), b),
        (I(_) | F(_), S(_)) => cmp(a, &num(b)),
        (A(a), A(b)) => {
            for (x, y) in a.iter().zip(b) {
                match cmp(x, y) {
                    Some(Equal) => (),
                    o => return o,
                }
            }
            Some(a.len().cmp(&b.len()))
        }
        (A(_), _) => Some(Greater),
        (_, A(_)) => Some(Less),
    }
}
fn float(v: &V) -> f64 {
    match v {
        I(n) => *n as f64,
        F(f) => *f,
        _ => unreachable!(),
    }
}
fn bin(b: B, x: V, y: V) -> V {
    let bool = |b: bool| I(b as i64);
    match b {
        B::And => bool(truth(&x) && truth(&y)),
        B::Or => bool(truth(&x) || truth(&y)),
        B::Xor => bool(truth(&x) != truth(&y)),
        B::Eq => bool(eq(&x, &y)),
        B::Ne => bool(!eq(&x, &y)),
        B::Lt => bool(cmp(&x, &y).is_some_and(|o| o.is_lt())),
        B::Le => bool(cmp(&x, &y).is_some_and(|o| o.is_le())),
        B::Gt => bool(cmp(&x, &y).is_some_and(|o| o.is_gt())),
        B::Ge => bool(cmp(&x, &y).is_some_and(|o| o.is_ge())),
        B::Add => match (x, y) {
            (I(a), I(b)) => I(a.saturating_add(b)),
            (a @ (I(_) | F(_)), b @ (I(_) | F(_))) => F(float(&a) + float(&b)),
            (A(mut a), A(b)) => {
                a.extend(b);
                A(a)
            }
            (A(mut a), b) => {
                a.push(b);
                A(a)
            }
            (a, A(b)) => A(std::iter::once(a).chain(b).collect()),
            // an empty string adds nothing
            (S(a), b) if a.is_empty() => b,
            (a, S(b)) if b.is_empty() => a,
            (a, b) => S(text(&a) + &text(&b)),
        },
        B::Sub => match (&x, &y) {
            (A(a), b) | (b, A(a)) => A(a.iter().filter(|v| !eq(v, b)).cloned().collect()),
            _ => match (num(&x), num(&y)) {
                (I(a), I(b)) => I(a.saturating_sub(b)),
                (a, b) => F(float(&a) - float(&b)),
            },
        },
        B::Mul => match (num(&x), num(&y)) {
            (I(a), I(b)) => I(a.saturating_mul(b)),
            (a, b) => F(float(&a) * float(&b)),
        },
        B::Div => {
            let (a, b) = (float(&num(&x)), float(&num(&y)));
            F(if b == 0.0 { 0.0 } else { a / b })
        }
    }
}

struct X {
    vars: BTreeMap<String, V>,
    calls: Vec<V>,
    shorts: u64,
    size: usize,
}
impl X {
    fn eval(&mut self, e: &E) -> V {
        match e {
            E::Val(v, _) => v.clone(),
            E::Var(n) => self.vars.get(n).cloned().unwrap_or(S(String::new())),
            E::Not(x) => I(!truth(&self.eval(x)) as i64),
            E::Neg(x) => match num(&self.eval(x)) {
                I(n) => n.checked_neg().map_or(F(-(n as f64)), I),
                F(f) => F(-f),
                _ => unreachable!(),
            },
            E::Bin(b, x, y) => {
                let x = self.eval(x);
                if (*b == B::And && !truth(&x)) || (*b == B::Or && truth(&x)) {
                    self.shorts += 1;
                    return x;
                }
                let y = self.eval(y);
                let v = bin(*b, x, y);
                self.size = self.size.max(size(&v));
                v
            }
            E::Fn(n, a) => {
                let a: Vec<V> = a.iter().map(|x| self.eval(x)).collect();
                match *n {
                    "up" => S(text(&a[0]).to_ascii_uppercase()),
                    "cat" => S(text(&a[0]) + &text(&a[1])),
                    "seven" => I(7),
                    _ => {
                        self.calls.push(a[0].clone());
                        a[0].clone()
                    }
                }
            }
            E::Arr(a) => A(a.iter().map(|x| self.eval(x)).collect()),
            E::At(x, i) => {
                let (x, i) = (self.eval(x), self.eval(i));
                let i = match i {
                    I(n) => usize::try_from(n).unwrap_or(usize::MAX),
                    F(f) => f as usize,
                    S(s) => s.parse().unwrap_or(0),
                    A(_) => 0,
                };
                let a = match x {
                    A(a) => a,
                    S(s) if s.is_empty() => vec![],
                    x => vec![x],
                };
                a.get(i).cloned().unwrap_or(S(String::new()))
            }
        }
    }
}
fn size(v: &V) -> usize {
    match v {
        S(s) => s.len(),
        A(a) => a.iter().map(|v| size(v) + 2).sum(),
        _ => 2,
    }
}
fn show(v: &V) -> String {
    match v {
        S(s) => format!("{s:?}"),
        I(n) => format!("int {n}"),
        F(f) => format!("float {f:?}"),
        A(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}
fn show_var(v: &Variable) -> String {
    match v {
        Variable::String(s) => format!("{s:?}"),
        Variable::Integer(n) => format!("int {n}"),
        Variable::Float(f) => format!("float {f:?}"),
        Variable::Array(a) => format!("[{}]", a.iter().map(show_var).collect::<Vec<_>>().join(", ")),
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut x = X { vars: BTreeMap::new(), calls: vec![], shorts: 0, size: 0 };
    let e1 = r.pick(STRS).to_string();
    x.vars.insert("env.e1".into(), S(e1.clone()));
    x.vars.insert("global.g".into(), S("host".into()));
    let mut script = String::new();
    let mut want = vec![];
    let names = ["a", "b", "cc", "global.g", "t.h"];
    // the local variables exist from the start
    for n in &names[..3] {
        script += &format!("let \"{n}\" \"''\";\n");
    }
    let mut ops = 0;
    for i in 0..1 + r.below(6) {
        let d = 1 + r.below(5);
        let mut e = gen(r, d);
        if r.chance(1, 60) {
            // many operands, to one side or the other
            let b = *r.pick(BS);
            for _ in 0..20 + r.below(150) {
                let d = r.below(2);
                let o = Box::new(gen(r, d));
                let b = if r.chance(1, 3) { *r.pick(BS) } else { b };
                e = if r.chance(4, 5) { E::Bin(b, Box::new(e), o) } else { E::Bin(b, o, Box::new(e)) };
            }
            rep.cover("many operands");
        }
        let t = print(&e, 0, r);
        ops += t.len();
        match r.below(5) {
            0..=2 => {
                let n = *r.pick(&names);
                script += &format!("let \"{n}\" {};\neval \"t2({i}, {n})\";\n", quote(&t));
                let v = x.eval(&e);
                want.append(&mut x.calls.iter().map(|c| format!("q {}", show(c))).collect());
                x.calls.clear();
                want.push(format!("{i} {}", show(&v)));
                x.vars.insert(n.into(), v);
            }
            3 => {
                let neg = r.chance(1, 3);
                script += &format!(
                    "if {}eval {} {{ eval \"t2({i}, 'yes')\"; }} else {{ eval \"t2({i}, 'no')\"; }}\n",
                    if neg { "not " } else { "" },
                    quote(&t)
                );
                let v = x.eval(&e);
                want.append(&mut x.calls.iter().map(|c| format!("q {}", show(c))).collect());
                x.calls.clear();
                want.push(format!("{i} {:?}", if truth(&v) != neg { "yes" } else { "no" }));
            }
            _ => {
                script += &format!("while {} {{ eval \"t2({i}, 'in')\"; break; }}\n", quote(&t));
                let v = x.eval(&e);
                want.append(&mut x.calls.iter().map(|c| format!("q {}", show(c))).collect());
                x.calls.clear();
                if truth(&v) {
                    want.push(format!("{i} \"in\""));
                }
            }
        }
    }
    rep.current = script.clone();
    if x.size > 50_000 {
        return rep.trivial();
    }
    let rt = run::runtime().with_max_variable_size(1_000_000).with_env_variable("e1", e1);
    let mut host = |ev: &Event| match ev {
        Event::Function { id, arguments } if *id == Q => Input::FncResult(arguments[0].clone()),
        e => run::default_answer(e),
    };
    let tr = match run::simple_with(&script, run::MSG, &rt, |c| c.set_global_variable("g", "host"), &mut host) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{script}")),
    };
    let got: Vec<String> = tr
        .events()
        .filter_map(|e| match e {
            Event::Function { id, arguments } if *id == Q => Some(format!("q {}", show_var(&arguments[0]))),
            Event::Function { id, arguments } if *id == T2 => Some(format!("{} {}", arguments[0].to_string(), show_var(&arguments[1]))),
            _ => None,
        })
        .collect();
    rep.ok(&script);
    rep.cover_n("values and calls compared", want.len() as u64);
    rep.cover_n("short circuits", x.shorts);
    if ops > 60 {
        rep.cover("long expressions");
    }
    rep.sample(|| script.clone());
    if got != want || !tr.errs().is_empty() {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        rep.fail("value of an expression", format!("{script}\nexpected [{k}] {:?}\nobserved [{k}] {:?}\n{:?}", want.get(k), got.get(k), tr.errs()));
    }
}

fn directed(rep: &mut Rep) {
    for (e, want) in [
        ("1 + 2 * 3", "int 7"),
        ("!-1", "int 0"),
        ("- -1", "int 1"),
        ("-!0", "int -1"),
        ("10 - 3 - 2", "int 5"),
        ("2 - -3", "int 5"),
        ("1 || q('never')", "int 1"),
        ("0 && q('never')", "int 0"),
        ("'' || 'x'", "int 1"),
        ("7 / 2", "float 3.5"),
        ("1 / 0", "float 0.0"),
        ("'a' + 1 + 2", "\"a12\""),
        ("1 + 2 + 'a'", "\"3a\""),
        ("[1, [2, 3]][1][0]", "int 2"),
        ("-9223372036854775807 - 1", "int -9223372036854775808"),
        ("9223372036854775807 + 1", "int 9223372036854775807"),
        ("1 < 2 == 1", "int 1"),
        ("1 ^ 1 | 1", "int 1"),
        ("up('a')[0]", "\"A\""),
        ("cat('a', 'b') == 'ab' && seven() == 7", "int 1"),
    ] {
        let s = format!("let \"v\" {};\neval \"t(v)\";", quote(e));
        match run::simple(&s, run::MSG) {
            Ok(t) => {
                rep.ok(e);
                let got: Vec<String> = t.calls(run::T).iter().map(|a| show_var(&a[0])).collect();
                if got != [want] {
                    rep.fail("directed", format!("{e}: expected {want}, observed {got:?}"));
                }
            }
            Err(x) => rep.fail("run", format!("{x}\n{e}")),
        }
    }
    for e in ["1 +* (", "(1", "1)", "[1", "1]", "unknown_name", "nofn(1)", "up()", "up(1, 2)", "cat(1)", "seven(1)", "9223372036854775808", "1.2.3", "'open", "a\u{e9}", "$x", "%", "a[]"] {
        let s = format!("let \"a\" \"1\";\nlet \"v\" {};", quote(e));
        rep.ok(e);
        if run::compile(&run::compiler(), &s).is_ok() {
            rep.fail("directed", format!("{e}: not refused"));
        }
    }
}
