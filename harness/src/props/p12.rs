//! Match types and comparators in the string, environment and header tests against a reference.
use crate::gen::quote;
use crate::matching::{self, Cmp, Mt, Quirk, Re, RELS};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;

pub const PROP: Prop = Prop { id: "P12", quick: 530_000, thorough: 8_000_000, directed, case };

const WORDS: &[&str] = &["a", "A", "b", "ab", "É", "é", "ß", "x", "-", ".", "*", "?", "\\", "Σ", "ς", "σ", "ǅ", "ǆ", "İ", "i", "日", "😀", " ", "\u{FFFD}", "aa", "B"];
const PLAIN: &[&str] = &["a", "A", "b", "ab", "x", "-", ".", "*", "?", "aa", "B", "Cd"];
const NUMS: &[&str] = &[
    "", "0", "1", "2", "10", "9", "-1", "+1", "01", "1.0", "1.5", "2.", ".5", "9223372036854775807", "9223372036854775808", "9007199254740993",
    "9007199254740992.0", "abc", "1a", "a1", " 1", "1 ", "1e3", "inf", "NaN", "-inf", "0.0", "-0", "1.x", "--1", "0x1", "1_000", "9007199254740993.0",
];
const RE_LETTERS: &[char] = &['a', 'A', 'b', 'x', '-', '.', 'é'];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    String,
    Environment,
    Header,
}

/// Turns a value into a key that has a chance to match.
fn pattern(r: &mut Rng, v: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = v.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match r.below(10) {
            0 => {
                o.push('*');
                i += r.below(4);
            }
            1 => {
                o.push('?');
                i += 1;
            }
            2 => {
                o += "**";
                i += r.below(2);
            }
            3 => {
                o += &cs[i].to_uppercase().to_string();
                i += 1;
            }
            4 => {
                o += &cs[i].to_lowercase().to_string();
                i += 1;
            }
            5 if r.chance(1, 2) => i += 1,
            _ => {
                if "*?\\".contains(cs[i]) && r.chance(2, 3) {
                    o.push('\\');
                }
                o.push(cs[i]);
                i += 1;
            }
        }
    }
    if r.chance(1, 4) {
        o.push('*');
    }
    if r.chance(1, 12) {
        o.push('\\');
    }
    o
}
pub fn key_for(r: &mut Rng, v: &str, mt: &Mt, words: &[&str]) -> String {
    let cs: Vec<char> = v.chars().collect();
    match r.below(6) {
        0 => r.string(words, 3),
        1 => v.to_uppercase(),
        2 => v.to_lowercase(),
        3 => {
            let a = r.below(cs.len() + 1);
            let b = a + r.below(cs.len() - a + 1);
            cs[a..b].iter().collect()
        }
        _ if matches!(mt, Mt::Matches) => pattern(r, v),
        _ => v.into(),
    }
}
pub fn regex_for(r: &mut Rng, letters: &[char]) -> (Re, usize) {
    let mut groups = 0;
    let mut v = vec![];
    if r.chance(1, 3) {
        v.push(Re::Start);
    }
    for _ in 0..1 + r.below(3) {
        v.push(Re::gen(r, 3, &mut groups, letters));
    }
    if r.chance(1, 3) {
        v.push(Re::End);
    }
    (Re::Cat(v), groups)
}
fn list(r: &mut Rng, v: &[String]) -> String {
    if v.len() == 1 && r.chance(3, 4) {
        v[0].clone()
    } else {
        format!("[{}]", v.join(", "))
    }
}

struct T {
    kind: Kind,
    mt: Mt,
    cmp: Cmp,
    values: Vec<String>,
    keys: Vec<String>,
    not: bool,
    /// number of header fields or strings, for :count
    n: usize,
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut msg = String::from("From: a@b.c\r\n");
    let (mut script, mut env, mut tests) = (String::new(), vec![], vec![]);
    for i in 0..1 + r.below(6) {
        let kind = *r.pick(&[Kind::String, Kind::String, Kind::Header, Kind::Environment]);
        let cmp = *r.pick(&[Cmp::Case, Cmp::Case, Cmp::Case, Cmp::Octet, Cmp::Octet, Cmp::Numeric, Cmp::Numeric, Cmp::Other]);
        let rel = *r.pick(RELS);
        let mut mt = match r.below(11) {
            0 | 1 => Mt::Is,
            2 | 3 => Mt::Contains,
            4..=6 => Mt::Matches,
            7 | 8 => Mt::Value(rel),
            9 => Mt::Count(rel),
            _ => Mt::Regex(vec![]),
        };
        let words = if kind == Kind::Header { PLAIN } else { WORDS };
        let numeric = cmp == Cmp::Numeric && !matches!(mt, Mt::Matches | Mt::Contains | Mt::Regex(_)) && r.chance(5, 6);
        let nv = match kind {
            Kind::Environment => r.below(2) + usize::from(r.chance(2, 3)),
            Kind::Header => r.below(4),
            Kind::String => 1 + r.below(3),
        };
        let nv = if kind == Kind::Environment { nv.min(1) } else { nv };
        let values: Vec<String> = (0..nv)
            .map(|_| {
                if numeric {
                    let n = *r.pick(NUMS);
                    if kind == Kind::Header { n.trim() } else { n }.to_string()
                } else if r.chance(1, 10) {
                    String::new()
                } else {
                    r.string(words, 5)
                }
            })
            .collect();
        let nk = 1 + r.below(3);
        let mut keys: Vec<String> = (0..nk)
            .map(|_| match &mt {
                Mt::Count(_) => r.pick(&["0", "1", "2", "3", "x", "", "1.5"]).to_string(),
                _ if numeric => r.pick(NUMS).to_string(),
                _ => {
                    let v = if values.is_empty() { String::new() } else { r.pick(&values).clone() };
                    key_for(r, &v, &mt, words)
                }
            })
            .collect();
        if let Mt::Regex(_) = mt {
            let res: Vec<_> = (0..nk).map(|_| regex_for(r, RE_LETTERS)).collect();
            keys = res.iter().map(|x| x.0.text()).collect();
            mt = Mt::Regex(res);
        }
        let not = r.chance(1, 8);
        // strings as constants or through variables
        let strings = |r: &mut Rng, script: &mut String, v: &[String], p: &str| -> Vec<String> {
            v.iter()
                .enumerate()
                .map(|(j, s)| {
                    if r.chance(1, 3) {
                        *script += &format!("set \"{p}{i}_{j}\" {};\n", quote(s));
                        format!("\"${{{p}{i}_{j}}}\"")
                    } else {
                        quote(s)
                    }
                })
                .collect()
        };
        let ks = strings(r, &mut script, &keys, "k");
        let mut n = values.len();
        let source = match kind {
            Kind::String => {
                n = values.iter().filter(|v| !v.is_empty()).count();
                let s = strings(r, &mut script, &values, "s");
                format!("string {} {} {} ", mt.tag(), tagged(cmp, r), list(r, &s))
            }
            Kind::Environment => {
                n = values.iter().filter(|v| !v.is_empty()).count();
                if let Some(v) = values.first() {
                    env.push((format!("e{i}"), v.clone()));
                }
                format!("environment {} {} \"{}{i}\" ", mt.tag(), tagged(cmp, r), r.pick(&["e", "E"]))
            }
            Kind::Header => {
                let names: Vec<String> = (0..1 + r.below(2)).map(|k| format!("X-{i}-{k}")).collect();
                // values grouped by name, in the order of the list of names
                let split = if names.len() == 2 { r.below(values.len() + 1) } else { values.len() };
                let order = r.chance(1, 2);
                for (k, v) in values.iter().enumerate() {
                    let name = if k < split { &names[0] } else { &names[names.len() - 1] };
                    let line = format!("{}: {v}\r\n", if r.chance(1, 3) { name.to_lowercase() } else { name.clone() });
                    msg += &line;
                }
                let _ = order;
                format!("header {} {} {} ", mt.tag(), tagged(cmp, r), list(r, &names.iter().map(|s| quote(s)).collect::<Vec<_>>()))
            }
        };
        script += &format!("if {}{source}{} {{ eval \"t('{i}y')\"; }} else {{ eval \"t('{i}n')\"; }}\n", if not { "not " } else { "" }, list(r, &ks));
        let values = match kind {
            Kind::Environment => values.into_iter().filter(|v| !v.is_empty()).collect(),
            _ => values,
        };
        tests.push(T { kind, mt, cmp, values, keys, not, n });
    }
    msg += "\r\nbody\r\n";
    rep.current = format!("{script}\n{env:?}\n{msg}");
    let mut rt = run::runtime();
    for (n, v) in &env {
        rt = rt.with_env_variable(n.clone(), v.clone());
    }
    let tr = match run::simple_with(&script, msg.as_bytes(), &rt, |_| (), &mut run::default_answer) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    let marks = tr.marks();
    if marks.len() != tests.len() || !tr.errs().is_empty() {
        return rep.fail("run", format!("{}\n{}", tr.show(), rep.current));
    }
    for (i, (t, m)) in tests.iter().zip(&marks).enumerate() {
        let got = match (m == &format!("{i}y"), m == &format!("{i}n")) {
            (true, false) => true,
            (false, true) => false,
            _ => return rep.fail("run", format!("{}\n{}", tr.show(), rep.current)),
        } != t.not;
        let want = |q: Quirk| match t.mt {
            Mt::Count(r) => !(t.kind == Kind::Environment && t.n == 0) && matching::count(r, t.n, &t.keys),
            _ => matching::test(&t.mt, t.cmp, &t.values, &t.keys, t.kind != Kind::Header, q).0,
        };
        let ideal = want(Quirk::NONE);
        rep.ok(&(format!("{:?} {:?} {:?}", t.kind, t.mt, t.cmp), &t.values, &t.keys));
        rep.cover(&format!("{:?} {} {}", t.kind, t.mt.name(), if ideal { "true" } else { "false" }));
        rep.cover(&format!("{} {}", t.cmp.tag(), t.mt.name()));
        if got == ideal {
            continue;
        }
        let header = t.kind == Kind::Header;
        let all = Quirk { text_number: header, last_key: !header, glob_fold: true, ..Quirk::NONE };
        if got == want(all) {
            for (k, q) in [
                ("text-number", Quirk { text_number: true, ..Quirk::NONE }),
                ("string-later-key", Quirk { last_key: true, ..Quirk::NONE }),
                ("glob-fold", Quirk { glob_fold: true, ..Quirk::NONE }),
            ] {
                if (k != "text-number" || header) && (k != "string-later-key" || !header) && want(q) == got {
                    rep.known.push(k.into());
                }
            }
            continue;
        }
        rep.fail(
            "result of a test",
            format!("{:?} {:?} {:?}\nvalues {:?}\nkeys {:?}\nexpected {ideal} observed {got}\n{}", t.kind, t.mt, t.cmp, t.values, t.keys, rep.current),
        );
        return;
    }
    rep.sample(|| script.clone());
}
fn tagged(c: Cmp, r: &mut Rng) -> String {
    if c == Cmp::Case && r.chance(1, 2) {
        String::new()
    } else {
        format!(":comparator \"{}\"", c.tag())
    }
}

fn directed(rep: &mut Rep) {
    // (values, key, matches)
    for (v, k, want) in [
        ("ΑΣ", "ΑΣ", true),
        ("ΑΣ", "ας", false),
        ("ǅ", "ǅ", true),
        ("", "*", true),
        ("", "", true),
        ("", "?", false),
        ("a*b", "a\\*b", true),
        ("axb", "a\\*b", false),
        ("a\\b", "a\\\\b", true),
        ("aXbXc", "a*x?", true),
        ("aaab", "*ab", true),
        ("日本", "??", true),
        ("日本", "???", false),
    ] {
        let s = format!("if string :matches {} {} {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}", quote(v), quote(k));
        match run::simple(&s, run::MSG) {
            Ok(t) => {
                let got = t.marks() == ["y"];
                if got != want {
                    if matching::one(&Mt::Matches, Cmp::Case, v, 0, k, Quirk { glob_fold: true, ..Quirk::NONE }).is_some() == got {
                        rep.known.push("glob-fold".into());
                    } else {
                        rep.fail("directed", format!("{s}: expected {want}, observed {got}"));
                    }
                }
                rep.ok(&s);
            }
            Err(e) => rep.fail("run", e),
        }
    }
}
