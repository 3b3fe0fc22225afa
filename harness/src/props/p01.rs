//! Compilation is total: any bytes, any limits -> a script or an error located in the text.
use crate::report::Rep;
use crate::rng::Rng;
use crate::{gen, run, Prop};
use sieve::Compiler;

pub const PROP: Prop = Prop { id: "P01", quick: 4_000_000, thorough: 20_000_000, directed, case };

/// Kind of the error without its texts.
fn kind(e: &sieve::compiler::CompileError) -> String {
    let d = format!("{:?}", e.error_type());
    d.chars().take_while(|c| c.is_alphanumeric()).collect()
}

pub fn check(rep: &mut Rep, c: &Compiler, bytes: &[u8]) -> bool {
    let show = || format!("script ({} bytes):\n{}", bytes.len(), String::from_utf8_lossy(bytes));
    rep.current = show();
    let one = run::no_panic(|| c.compile(bytes).map_err(|e| (kind(&e), e.line_num(), e.line_pos(), e.to_string())));
    let two = run::no_panic(|| c.compile(bytes).map_err(|e| (kind(&e), e.line_num(), e.line_pos(), e.to_string())));
    let lines = bytes.iter().filter(|b| **b == b'\n').count() + 1;
    match (one, two) {
        (Err(p), _) | (_, Err(p)) => {
            rep.fail("compiling panics", format!("{p}\n{}", show()));
            false
        }
        (Ok(a), Ok(b)) => {
            if a != b {
                rep.fail("compiling the same text twice gives different results", show());
            }
            match a {
                Ok(_) => {
                    rep.cover("compiled");
                    true
                }
                Err((k, l, p, text)) => {
                    rep.cover(&format!("rejected:{k}"));
                    if k != "ScriptTooLong" && (l == 0 || l > lines || p > bytes.len() + 1) {
                        rep.fail("the error is outside of the script", format!("{k} {text} at line {l} pos {p}\n{}", show()));
                    }
                    false
                }
            }
        }
    }
}

fn limits(r: &mut Rng) -> Compiler {
    let c = run::compiler();
    if r.chance(2, 3) {
        return c.with_no_capability_check(r.chance(1, 2));
    }
    let small = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 3, 10, 100, 1 << 20]);
    c.with_max_string_size(small(r))
        .with_max_variable_name_size(small(r))
        .with_max_nested_blocks(small(r))
        .with_max_nested_tests(small(r))
        .with_max_nested_foreverypart(small(r))
        .with_max_match_variables(small(r))
        .with_max_local_variables(small(r))
        .with_max_header_size(small(r))
        .with_max_includes(small(r))
        .with_no_capability_check(r.chance(1, 2))
}

const FRAG: &[&str] = &[
    "if", "elsif", "else", "{", "}", "(", ")", "[", "]", ",", ";", "not", "anyof", "allof", "true", ":is", ":matches", ":regex", ":value", "\"ge\"",
    "\"\"", "\"a", "text:\n", "text:#x\n", ".\n", "/*", "*/", "#", "\n", "1K", "99999999999999999999999", "18446744073709551615G", ":index", ":last",
    "foreverypart", "while", "break", "continue", "let", "eval", "set", "require", "\"${", "\"${1}\"", "\"${hex:", "\"${unicode:110000}\"", "\"(\"",
    "\"((((((\"", "\"[1,[2]]\"", "\"1 +\"", "\"- - 1\"", "\"!\"", ":name", "\"l\"", "include", "global", "return", ":comparator", "\"i;octet\"",
    "envelope", "\"bymode\"", "currentdate", ":zone", "\"-9999\"", "\"+0000\"", "\\", "\"\\\"", "\u{0}", "\u{ff}", ":", "::", "a:b", "\"${header.[1]}\"",
    "\"${header.x[99999999999]}\"", "\"${a.b.c}\"", "ihave", "error", "\"header.to[\"", "\"header.*[1].attr.x\"", "date", "\"std11\"", "\"${63}\"", "\"${99999999999999999999}\"",
];

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(6) {
        let n = b.len();
        let p = r.below(n + 1);
        match r.below(8) {
            0 if n > 0 => b.truncate(p),
            1 if n > 0 => b[p.min(n - 1)] = (r.next() & 0xff) as u8,
            2 if n > 0 => {
                let q = (p + r.below(12)).min(n);
                b.drain(p..q);
            }
            3 if n > 0 => {
                let q = (p + r.below(40)).min(n);
                let s = b[p..q].to_vec();
                let at = r.below(b.len() + 1);
                b.splice(at..at, s);
            }
            4 => b.insert(p, *r.pick(b"\"\\{}()[];,:#/*.\n\r\t ${\0\xff\x80")),
            _ => {
                let f = *r.pick(FRAG);
                b.splice(p..p, f.bytes());
            }
        }
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let c = limits(r);
    let bytes = match r.below(10) {
        0 => {
            // noise
            let n = r.below(60);
            (0..n).map(|_| (r.next() & 0xff) as u8).collect::<Vec<_>>()
        }
        1 | 2 => {
            // fragments
            let n = 1 + r.below(25);
            let mut s = String::new();
            for _ in 0..n {
                s += *r.pick(FRAG);
                if r.chance(3, 4) {
                    s.push(' ');
                }
            }
            s.into_bytes()
        }
        3 => {
            // deep nesting
            let n = 1 + r.below(400);
            let (a, b) = *r.pick(&[
                ("if not ", "true {}"),
                ("if anyof(", "true"),
                ("if true {", "}"),
                ("foreverypart {", "}"),
                ("while \"1\" {", "}"),
                ("if (", "true"),
                ("eval \"(((((((", "\";"),
                ("[", "]"),
                ("let \"a\" \"[[[[[[", "\";"),
                ("set \"a\" \"${a", "}\";"),
                ("if allof(not anyof(", "true))"),
            ]);
            let mut s = a.repeat(n);
            s += &b.repeat(if r.chance(1, 2) { n } else { 1 });
            s.into_bytes()
        }
        4 => {
            // an expression put together from anything
            let n = 1 + r.below(14);
            let mut e = String::new();
            for _ in 0..n {
                e += *r.pick(&[
                    "1", "a", "(", ")", "[", "]", ",", "+", "-", "!", "*", "/", "&&", "||", "==", "<", "'x'", "'", "up", "cat", "t(", "q(1)", "2.5", ".", "..",
                    "true", "header.to", "header.to[1].addr[*]", "env.x", " ", "=", "^", "seven()", "up(1)", "cat(1,2)", "99999999999999999999",
                ]);
                if r.chance(1, 2) {
                    e.push(' ');
                }
            }
            let w = *r.pick(&["eval", "let \"a\"", "while", "if eval"]);
            format!("set \"a\" \"1\"; {w} {}{}", gen::quote(&e), if w.starts_with("while") || w.starts_with("if") { " {}" } else { ";" }).into_bytes()
        }
        n => {
            let (s, _) = gen::script(r, gen::Opts::default());
            let mut b = s.into_bytes();
            if n > 5 {
                mutate(r, &mut b);
            }
            b
        }
    };
    check(rep, &c, &bytes);
    rep.ok(&bytes);
    rep.sample(|| String::from_utf8_lossy(&bytes).into_owned());
}

fn directed(rep: &mut Rep) {
    let c = run::compiler();
    // every prefix of a script that uses everything
    let mut r = Rng::new(rep.seed);
    for _ in 0..3 {
        let (s, _) = gen::script(&mut r, gen::Opts::default());
        for i in 0..s.len() {
            check(rep, &c, &s.as_bytes()[..i]);
            rep.trivial();
        }
    }
    for a in FRAG {
        for b in FRAG {
            let s = format!("{a} {b}");
            check(rep, &c, s.as_bytes());
            rep.ok(&s);
        }
    }
    // scripts the compiler used to accept or to drop a part of
    for s in ["if anyof() {}", "if anyof(true false) {}", "keep", "if anyof(true,) {}"] {
        if check(rep, &c, s.as_bytes()) {
            rep.fail("malformed script accepted", s);
        }
    }
}
