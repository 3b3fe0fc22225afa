//! Flags: setflag, addflag, removeflag, hasflag and the flags of keep and fileinto against a model of
//! flag lists.
use super::p12::{key_for, regex_for};
use crate::gen::quote;
use crate::matching::{self, Cmp, Mt, Quirk, RELS};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, T, T2};
use crate::Prop;
use sieve::{Event, Input, Script};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop { id: "P15", quick: 580_000, thorough: 6_000_000, directed, case };

const FLAGS: &[&str] = &["\\Seen", "\\SEEN", "\\Flagged", "$label", "$Label", "work", "Work", "a", "ab", "A", "*", "a*", "7", "10", "007", "\u{e9}", "\u{c9}", "x-y"];
const NAMES: &[&str] = &["f1", "f2", "Big", "global.gf", ""];

struct M {
    vars: BTreeMap<&'static str, String>,
    want: Vec<String>,
    /// other acceptable entries (known findings)
    known: Vec<(usize, String, &'static str)>,
    stats: Vec<String>,
    n: usize,
    subs: Vec<(String, String)>,
    blocks: usize,
}

impl M {
    fn split(&self, n: &str) -> Vec<String> {
        self.vars[n].split_whitespace().map(String::from).collect()
    }
    /// A flag list: text and flags.
    fn list(&self, r: &mut Rng, local: bool) -> (String, Vec<String>) {
        let n = if r.chance(1, 12) { 0 } else if r.chance(1, 12) { 3 + r.below(8) } else { 1 + r.below(3) };
        let (mut t, mut v) = (vec![], vec![]);
        for _ in 0..n {
            let mut s = String::new();
            let mut val = String::new();
            if r.chance(1, 12) {
                s += r.pick(&[" ", "  "]);
            }
            for k in 0..r.below(4) {
                if k > 0 {
                    let g = *r.pick(&[" ", " ", "  "]);
                    s += g;
                    val += g;
                }
                if r.chance(1, 5) {
                    let n = *r.pick(if local { &NAMES[..4] } else { &NAMES[3..4] });
                    s += &format!("${{{}}}", if r.chance(1, 3) { n.to_uppercase() } else { n.into() });
                    val += &self.vars[n];
                } else {
                    let f = *r.pick(FLAGS);
                    s += f;
                    val += f;
                }
            }
            if r.chance(1, 12) {
                s += " ";
            }
            t.push(quote(&s));
            v.extend(val.split_whitespace().map(String::from));
        }
        if t.is_empty() {
            return ("\"\"".into(), vec![]);
        }
        (if t.len() == 1 && r.chance(2, 3) { t.remove(0) } else { format!("[{}]", t.join(", ")) }, v)
    }
    fn edit(&mut self, r: &mut Rng, live: bool, local: bool) -> String {
        let name = *r.pick(if local { NAMES } else { &NAMES[3..] });
        let (t, v) = self.list(r, local);
        let cmd = *r.pick(&["setflag", "addflag", "addflag", "removeflag", "removeflag"]);
        if live {
            let mut cur = if cmd == "setflag" { vec![] } else { self.split(name) };
            let has = |c: &[String], f: &str| c.iter().any(|x| x.to_lowercase() == f.to_lowercase());
            for f in v {
                match cmd {
                    "removeflag" => {
                        if has(&cur, &f) {
                            self.stats.push("flags removed".into());
                        }
                        cur.retain(|x| x.to_lowercase() != f.to_lowercase())
                    }
                    _ => {
                        if has(&cur, &f) {
                            self.stats.push("duplicates ignored".into());
                        } else {
                            cur.push(f)
                        }
                    }
                }
            }
            self.vars.insert(name, cur.join(" "));
        }
        let n = if name.is_empty() { String::new() } else { format!(" {}", quote(&if r.chance(1, 4) { name.to_uppercase() } else { name.into() })) };
        format!("{cmd}{n} {t};\n")
    }
    fn test(&mut self, r: &mut Rng, live: bool) -> String {
        let nv = r.below(3);
        let vs: Vec<&str> = (0..nv).map(|_| *r.pick(&NAMES[..4])).collect();
        let values: Vec<String> = if nv == 0 { self.split("") } else { vs.iter().flat_map(|v| self.split(v)).collect() };
        let cmp = *r.pick(&[Cmp::Case, Cmp::Case, Cmp::Octet, Cmp::Numeric]);
        let rel = *r.pick(RELS);
        let mut mt = match r.below(9) {
            0 | 1 => Mt::Is,
            2 => Mt::Contains,
            3 | 4 => Mt::Matches,
            5 | 6 => Mt::Value(rel),
            7 => Mt::Count(rel),
            _ => Mt::Regex(vec![]),
        };
        let nk = 1 + r.below(3);
        let (text, keys);
        match &mt {
            Mt::Regex(_) => {
                let res: Vec<_> = (0..nk).map(|_| regex_for(r, &['a', 'b', '$', '7', 'w'])).collect();
                let ks: Vec<String> = res.iter().map(|x| x.0.text()).collect();
                text = format!("[{}]", ks.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", "));
                keys = ks.into_iter().filter(|k| !k.is_empty()).collect::<Vec<_>>();
                mt = Mt::Regex(res.into_iter().filter(|x| !x.0.text().is_empty()).collect());
            }
            Mt::Count(_) => {
                keys = (0..nk).map(|_| r.pick(&["0", "1", "2", "3", "4", "x", ""]).to_string()).collect();
                text = format!("[{}]", keys.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", "));
            }
            _ => {
                let mut ks = vec![];
                let mut t = vec![];
                for _ in 0..nk {
                    let mut k = if values.is_empty() || r.chance(1, 5) { r.pick(FLAGS).to_string() } else { let v = r.pick(&values).clone(); key_for(r, &v, &mt, FLAGS) };
                    if r.chance(1, 6) {
                        k += " ";
                        k += *r.pick(FLAGS);
                    }
                    ks.extend(k.split_whitespace().map(String::from));
                    t.push(quote(&k));
                }
                keys = ks;
                text = if t.len() == 1 && r.chance(1, 2) { t.remove(0) } else { format!("[{}]", t.join(", ")) };
            }
        }
        let id = self.n;
        self.n += 1;
        let not = r.chance(1, 6);
        let cap = matches!(mt, Mt::Matches | Mt::Regex(_)) && !not && r.chance(1, 2);
        let names = match nv {
            0 => String::new(),
            1 if r.chance(2, 3) => format!(" {}", quote(vs[0])),
            _ => format!(" [{}]", vs.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ")),
        };
        if live {
            let eval = |q: Quirk| {
                let (b, c) = match mt {
                    Mt::Count(rel) => (matching::count(rel, values.len(), &keys), None),
                    _ => matching::test(&mt, cmp, &values, &keys, true, q),
                };
                let c = c.unwrap_or_default();
                let g = |k: usize| c.get(k).cloned().flatten().unwrap_or_default();
                if b != not {
                    if cap { format!("{id}y {:?} {:?}", g(0), g(1)) } else { format!("{id}y") }
                } else {
                    format!("{id}n")
                }
            };
            let ideal = eval(Quirk::NONE);
            let at = self.want.len();
            for (k, q) in [
                ("text-number", Quirk { text_number: true, text_key: true, ..Quirk::NONE }),
                ("hasflag-regex", Quirk { regex_glob: true, ..Quirk::NONE }),
                ("hasflag-regex", Quirk { regex_glob: true, glob_fold: true, ..Quirk::NONE }),
            ] {
                let e = eval(q);
                if e != ideal {
                    self.known.push((at, e, k));
                }
            }
            self.stats.push(format!("hasflag {} {}", mt.name(), if ideal.contains('y') != not { "true" } else { "false" }));
            if cap && ideal.contains('y') {
                self.stats.push("captures".into());
            }
            self.want.push(ideal);
        }
        let body = if cap { format!("set \"m0\" \"${{0}}\"; set \"m1\" \"${{1}}\"; eval \"t2(m0, m1)\"; eval \"t('{id}y')\";") } else { format!("eval \"t('{id}y')\";") };
        format!("if {}hasflag {}{}{names} {text} {{ {body} }} else {{ eval \"t('{id}n')\"; }}\n", if not { "not " } else { "" }, mt.tag(), if cmp == Cmp::Case { String::new() } else { format!(" :comparator \"{}\"", cmp.tag()) })
    }
    fn stmts(&mut self, r: &mut Rng, live: bool, depth: usize) -> String {
        let mut o = String::new();
        for _ in 0..1 + r.below(5) {
            match r.below(12) {
                0..=4 => o += &self.edit(r, live, true),
                5..=7 if self.blocks < 6 || depth == 0 => o += &self.test(r, live),
                8 => {
                    let n = *r.pick(&NAMES[..4]);
                    let v = (0..r.below(4)).map(|_| *r.pick(FLAGS)).collect::<Vec<_>>().join(" ");
                    o += &format!("set {} {};\n", quote(n), quote(&v));
                    if live {
                        self.vars.insert(n, v);
                    }
                }
                9 | 10 => {
                    let (t, mut f) = if r.chance(1, 2) { self.list(r, true) } else { (String::new(), self.split("")) };
                    let folder = format!("F{}", self.n);
                    self.n += 1;
                    o += &format!("fileinto :copy{} \"{folder}\";\n", if t.is_empty() { t } else { format!(" :flags {t}") });
                    f.sort();
                    if live {
                        self.want.push(format!("fileinto {folder} {f:?}"));
                        self.stats.push("fileinto".into());
                    }
                }
                _ if depth < 2 => {
                    self.blocks += 1;
                    if r.chance(1, 3) {
                        // a script that shares the flags but not the local variables
                        let mut s = String::new();
                        for _ in 0..1 + r.below(3) {
                            s += &self.edit(r, live, false);
                        }
                        let name = format!("s{}", self.subs.len());
                        o += &format!("include \"{name}\";\n");
                        self.subs.push((name, s));
                        if live {
                            self.stats.push("flags edited by an included script".into());
                        }
                    } else {
                        let take = r.chance(2, 3);
                        o += &format!("if {} {{\n", take);
                        o += &self.stmts(r, live && take, depth + 1);
                        o += "} else {\n";
                        o += &self.stmts(r, live && !take, depth + 1);
                        o += "}\n";
                    }
                }
                _ => (),
            }
        }
        o
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut m = M { vars: BTreeMap::new(), want: vec![], known: vec![], stats: vec![], n: 0, subs: vec![], blocks: 0 };
    let mut script = String::new();
    for n in NAMES {
        m.vars.insert(n, String::new());
    }
    for n in &NAMES[..3] {
        let v = (0..r.below(5)).map(|_| *r.pick(FLAGS)).collect::<Vec<_>>().join(" ");
        script += &format!("set \"{n}\" {};\n", quote(&v));
        m.vars.insert(n, v);
    }
    script += "set \"m0\" \"\"; set \"m1\" \"\";\n";
    script += &m.stmts(r, true, 0);
    let mut keep = None;
    if r.chance(1, 2) {
        let (t, mut f) = if r.chance(1, 2) { m.list(r, true) } else { (String::new(), m.split("")) };
        script += &format!("keep{};\n", if t.is_empty() { t } else { format!(" :flags {t}") });
        f.sort();
        keep = Some(f);
        m.stats.push("explicit keep".into());
        for _ in 0..r.below(3) {
            script += &m.edit(r, true, true);
        }
    }
    let error = r.chance(1, 8);
    if error {
        script += "error \"x\";\n";
    }
    let f = keep.unwrap_or_else(|| {
        let mut f = m.split("");
        f.sort();
        m.stats.push("implicit keep".into());
        f
    });
    m.want.push(format!("keep {f:?}"));
    let script = format!("require \"ihave\";\n{script}");
    rep.current = format!("{script}\n{:?}", m.subs);
    let mut comp = vec![];
    for (n, s) in &m.subs {
        match run::compile(&run::compiler(), s) {
            Ok(c) => comp.push((n.clone(), std::sync::Arc::new(c))),
            Err(e) => return rep.fail("run", format!("{e}\n{s}")),
        }
    }
    let mut host = |ev: &Event| match ev {
        Event::IncludeScript { name: Script::Personal(n), .. } => match comp.iter().find(|c| &c.0 == n) {
            Some((n, c)) => Input::Script { name: Script::Personal(n.clone()), script: c.clone() },
            None => Input::False,
        },
        e => run::default_answer(e),
    };
    let tr = match run::simple_with(&script, run::MSG, &run::runtime().with_max_nested_includes(5).with_cpu_limit(100_000), |_| (), &mut host) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{script}")),
    };
    let mut got = vec![];
    let mut caps = String::new();
    for e in tr.events() {
        match e {
            Event::Function { id, arguments } if *id == T2 => caps = format!(" {:?} {:?}", arguments[0].to_string(), arguments[1].to_string()),
            Event::Function { id, arguments } if *id == T => got.push(format!("{}{}", arguments[0].to_string(), std::mem::take(&mut caps))),
            Event::FileInto { folder, flags, .. } => {
                let mut f = flags.clone();
                f.sort();
                got.push(format!("fileinto {folder} {f:?}"));
            }
            Event::Keep { flags, .. } => {
                let mut f = flags.clone();
                f.sort();
                got.push(format!("keep {f:?}"));
            }
            _ => (),
        }
    }
    rep.ok(&(&script, &m.subs));
    for s in &m.stats {
        rep.cover(s);
    }
    rep.sample(|| script.clone());
    if got.len() == m.want.len() {
        for (i, (g, w)) in got.iter_mut().zip(&m.want).enumerate() {
            if g != w {
                if let Some(k) = m.known.iter().find(|k| k.0 == i && k.1 == *g) {
                    rep.known.push(k.2.into());
                    *g = w.clone();
                }
            }
        }
    }
    if got != m.want || tr.errs().len() != error as usize {
        let k = got.iter().zip(&m.want).position(|(a, b)| a != b).unwrap_or(got.len().min(m.want.len()));
        rep.fail("flags", format!("expected [{k}] {:?}\nobserved [{k}] {:?}\n{:?}\n{}", m.want.get(k), got.get(k), tr.errs(), rep.current));
    }
}

fn directed(rep: &mut Rep) {
    for (s, want) in [
        ("setflag [\"a b\", \"c\"]; keep;", vec!["a", "b", "c"]),
        ("setflag \"a A a\";", vec!["a"]),
        ("setflag \"a b\"; keep :flags \"\";", vec![]),
        ("keep; setflag \"a\";", vec![]),
        ("set \"v\" \"a A b\"; removeflag \"v\" \"a\"; keep :flags \"${v}\";", vec!["b"]),
        ("setflag \"a b c\"; removeflag [\"B\", \"x\"];", vec!["a", "c"]),
        ("setflag \"a\"; setflag \"\";", vec![]),
        ("addflag \"a\"; addflag \"v\" \"b\";", vec!["a"]),
        ("addflag [\" \", \"a\"];", vec!["a"]),
    ] {
        match run::simple(s, run::MSG) {
            Ok(t) => {
                rep.ok(s);
                let got: Vec<Vec<String>> = t.events().filter_map(|e| if let Event::Keep { flags, .. } = e { Some(flags.clone()) } else { None }).collect();
                let ok = got.len() == 1 && {
                    let mut g = got[0].clone();
                    g.sort();
                    g == want
                };
                if !ok {
                    rep.fail("directed", format!("{s}: expected {want:?}, observed {got:?}"));
                }
            }
            Err(e) => rep.fail("run", e),
        }
    }
}
