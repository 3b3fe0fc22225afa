//! foreverypart, extracttext and the tests that look at MIME parts.
use crate::ask::{Asker, Kind};
use crate::gen::quote;
use crate::mail::{Body, Gen, Part, NL};
use crate::matching::Quirk;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, T2};
use crate::Prop;
use mail_parser::decoders::html::html_to_text;
use sieve::{Event, Input};

pub const PROP: Prop = Prop { id: "P22", quick: 820_000, thorough: 6_000_000, directed, case };

const ALTS: &[(Quirk, &str)] = &[(Quirk { text_number: true, ..Quirk::NONE }, "text-number")];
const WORDS: &[&str] = &["alpha", "Beta", "ALPHA", "1", "22", "gamma-delta", "\u{e9}t\u{e9}", "x*y", "p1", "="];

struct Fld {
    name: &'static str,
    text: String,
    /// type, subtype, parameters
    ct: Option<(String, Option<String>, Vec<(String, String)>)>,
}
struct P {
    fields: Vec<Fld>,
    end: usize,
    multi: bool,
    text: Option<String>,
}
/// Adds fields to every part and notes what the tests can see of them.
fn prepare(r: &mut Rng, p: &mut Part, out: &mut Vec<P>) {
    let id = p.id;
    let mut f = vec![];
    for _ in 0..r.below(3) {
        let n = *r.pick(&["X-A", "X-B", "Subject"]);
        let v = if r.chance(1, 6) { String::new() } else { format!("{}{}", r.pick(WORDS), r.pick(&["", " two"])) };
        let raw = match v.as_str() {
            "\u{e9}t\u{e9}" => "=?utf-8?q?=C3=A9t=C3=A9?=".to_string(),
            v => v.to_string(),
        };
        p.fields.push((n.into(), raw));
        f.push(Fld { name: n, text: v, ct: None });
    }
    p.fields.push(("X-Id".into(), format!("p{id}")));
    f.push(Fld { name: "X-Id", text: format!("p{id}"), ct: None });
    if r.chance(1, 3) {
        let d = *r.pick(&["attachment", "inline"]);
        let params: Vec<(String, String)> = if r.chance(1, 2) { vec![("filename".into(), r.pick(&["a.txt", "b c.pdf", "x"]).to_string())] } else { vec![] };
        let mut t = d.to_string();
        for (n, v) in &params {
            t += &format!("; {n}=\"{v}\"");
        }
        p.fields.push(("Content-Disposition".into(), t.clone()));
        f.push(Fld { name: "Content-Disposition", text: t, ct: Some((d.into(), None, params)) });
    }
    if let Some((a, b)) = &p.ctype {
        // printed here, to know its text
        for _ in 0..r.below(3) {
            let (n, v) = *r.pick(&[("name", "a.txt"), ("format", "flowed"), ("name", "b c"), ("X-P", "22"), ("x-q", "q")]);
            if !p.params.iter().any(|x| x.0.eq_ignore_ascii_case(n)) {
                p.params.push((n.into(), v.into()));
            }
        }
        let mut t = format!("{a}/{b}");
        for (n, v) in &p.params {
            let q = if v.contains(' ') || r.chance(1, 2) { "\"" } else { "" };
            t += &format!("; {n}={q}{v}{q}");
        }
        p.fields.push(("Content-Type".into(), t.clone()));
        f.push(Fld { name: "Content-Type", text: t, ct: Some((a.to_lowercase(), Some(b.to_lowercase()), p.params.iter().map(|(n, v)| (n.to_lowercase(), v.clone())).collect())) });
    }
    let c = p.ctype.take().unwrap_or(("text".into(), "plain".into()));
    let (a, b) = (c.0.to_lowercase(), c.1.to_lowercase());
    let text = match &p.body {
        Body::Leaf(t, _) if a == "text" => Some(if b == "html" { html_to_text(t) } else { t.clone() }),
        _ => None,
    };
    out.push(P { fields: f, end: id, multi: false, text });
    if let Body::Multi { parts, .. } = &mut p.body {
        for p in parts {
            prepare(r, p, out);
        }
        out[id].end = out.len() - 1;
        out[id].multi = true;
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let nl = *r.pick(NL);
    let mut g = Gen { nl, words: WORDS, nested: r.chance(1, 4), n: 0 };
    let mut root = g.part(r, 3, &mut 0);
    if r.chance(1, 2) && !matches!(root.body, Body::Multi { .. }) {
        root = g.part(r, 3, &mut 0);
    }
    root.fields.push(("From".into(), "a@b.c".into()));
    let mut parts = vec![];
    prepare(r, &mut root, &mut parts);
    let msg = root.print(r, nl, false, &mut |_, _, _, _| ());
    if !run::parses(msg.as_bytes()) {
        return rep.cover("message that mail-parser does not read");
    }
    if r.chance(1, 2) {
        asks(rep, r, &parts, &msg);
    } else {
        loops(rep, r, &parts, &msg);
    }
}

// ---- tests of parts

fn under(parts: &[P], id: usize) -> std::ops::RangeInclusive<usize> {
    id..=parts[id].end
}
fn asks(rep: &mut Rep, r: &mut Rng, parts: &[P], msg: &str) {
    let mut a = Asker::default();
    let depth = 3;
    level(rep, r, parts, &mut a, 0, depth, true);
    rep.current = format!("{}\n{msg:?}", a.script);
    let tr = match run::simple(&a.script, msg.as_bytes()) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    a.verify(rep, &tr);
}
/// Tests of the current part, before, in and after a loop.
fn level(rep: &mut Rep, r: &mut Rng, parts: &[P], a: &mut Asker, id: usize, depth: usize, outer: bool) {
    if r.chance(1, 2) {
        tests(r, a, parts, id);
    }
    let mut ids: Vec<usize> = if outer { (0..parts.len()).collect() } else { (id + 1..=parts[id].end).collect() };
    if depth > 0 && !ids.is_empty() && r.chance(2, 3) {
        while ids.len() > 2 {
            ids.remove(r.below(ids.len()));
        }
        a.script += "foreverypart {\n";
        for k in ids {
            a.script += &format!("if header :mime \"X-Id\" \"p{k}\" {{\n");
            rep.cover(if outer { "tests in a loop" } else { "tests in a nested loop" });
            level(rep, r, parts, a, k, depth - 1, false);
            a.script += "}\n";
        }
        a.script += "}\n";
        if r.chance(1, 2) {
            tests(r, a, parts, id);
        }
    }
}
fn tests(r: &mut Rng, a: &mut Asker, parts: &[P], id: usize) {
    for _ in 0..1 + r.below(2) {
        let mut args: Vec<String> = vec![":mime".into()];
        let any = r.chance(1, 2);
        if any {
            args.push(":anychild".into());
        }
        let range = if any { under(parts, id) } else { id..=id };
        let names: Vec<String> = (0..1 + r.below(2)).map(|_| r.pick(&["Content-Type", "content-type", "X-A", "x-b", "Subject", "Content-Disposition", "X-Id", "X-None"]).to_string()).collect();
        if r.chance(1, 6) {
            let ok = names.iter().all(|n| range.clone().any(|p| parts[p].fields.iter().any(|f| f.name.eq_ignore_ascii_case(n))));
            let l = a.strings(r, &names);
            a.plain(r, if any { "exists in any child" } else { "exists" }, &format!("exists {} {l}", args.join(" ")), ok);
            continue;
        }
        let mut index = None;
        if r.chance(1, 5) {
            let mut n = 1 + r.below(3) as i32;
            args.push(format!(":index {n}"));
            if r.chance(1, 2) {
                args.push(":last".into());
                n = -n;
            }
            index = Some(n);
        }
        let mut sel: Vec<&Fld> = vec![];
        for p in range {
            for n in &names {
                let l: Vec<&Fld> = parts[p].fields.iter().filter(|f| f.name.eq_ignore_ascii_case(n)).collect();
                match index {
                    None => sel.extend(l),
                    Some(i) => {
                        let k = if i > 0 { i - 1 } else { l.len() as i32 + i };
                        if k >= 0 && (k as usize) < l.len() {
                            sel.push(l[k as usize]);
                        }
                    }
                }
            }
        }
        let mut label = "header";
        let mut count = sel.len();
        let mut values: Vec<String> = vec![];
        let mut other = None;
        match r.below(6) {
            0 => {
                label = ":type";
                args.push(":type".into());
                values.extend(sel.iter().map(|f| f.ct.as_ref().map_or(String::new(), |c| c.0.clone())));
            }
            1 => {
                label = ":subtype";
                args.push(":subtype".into());
                values.extend(sel.iter().map(|f| f.ct.as_ref().and_then(|c| c.1.clone()).unwrap_or_default()));
            }
            2 => {
                label = ":contenttype";
                args.push(":contenttype".into());
                values.extend(sel.iter().map(|f| match &f.ct {
                    Some((a, Some(b), _)) => format!("{a}/{b}"),
                    Some((a, None, _)) => a.clone(),
                    None => String::new(),
                }));
            }
            3 | 4 => {
                label = ":param";
                let names: Vec<String> = (0..1 + r.below(2)).map(|_| r.pick(&["name", "NAME", "charset", "format", "x-p", "filename", "x-q", "none"]).to_string()).collect();
                let l = a.strings(r, &names);
                args.push(format!(":param {l}"));
                let mut o = vec![];
                count = 0;
                for f in &sel {
                    if let Some(c) = &f.ct {
                        for n in &names {
                            for (k, v) in &c.2 {
                                if k.eq_ignore_ascii_case(n) {
                                    values.push(v.clone());
                                    o.push(v.clone());
                                }
                            }
                        }
                        count += c.2.iter().filter(|(k, _)| names.iter().any(|n| n.eq_ignore_ascii_case(k))).count();
                    }
                    o.push(String::new());
                }
                if o != values {
                    other = Some(o);
                }
            }
            _ => values.extend(sel.iter().map(|f| f.text.clone())),
        }
        if label.len() > 6 || label.starts_with(':') && label != ":param" {
            if label != ":param" {
                count = sel.iter().filter(|f| f.ct.is_some()).count();
            }
        }
        let hl = a.strings(r, &names);
        let k = Kind { list: true, captures: true, regex: true, words: WORDS, letters: &['a', 'l', 't', '1'], count: Some(count), count_keys: &["0", "1", "2", "3", "5"], by_key: false, single: false, alts: ALTS };
        a.alt = other.map(|o| (o, "param-empty"));
        a.ask(r, &format!("{label}{}", if any { " anychild" } else { "" }), "header", args, &hl, &values, &k);
    }
}

// ---- loops

#[derive(Debug)]
enum S {
    Mark(usize),
    Loop(Option<String>, Vec<S>),
    If(Vec<usize>, Vec<S>),
    Break(Option<String>),
    Extract(Option<usize>, Vec<usize>, bool),
    Include(usize),
    Stop,
    Return,
}
#[derive(Default)]
struct Ctx {
    scripts: Vec<Vec<S>>,
    marks: usize,
    labels: usize,
}
/// In the order they are applied in.
const MODS: &[&str] = &[":lower ", ":upper ", ":replace \"a\" \"b.*\" ", ":lowerfirst ", ":upperfirst ", ":quoteregex ", ":quotewildcard ", ":length "];
/// Some of them twice; there is no defined order between :upper and :replace.
fn mods(r: &mut Rng) -> Vec<usize> {
    if r.chance(1, 3) {
        return vec![];
    }
    let mut v: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(MODS.len())).collect();
    if v.contains(&1) || v.iter().filter(|m| **m == 2).count() > 1 {
        v.retain(|m| *m != 2);
    }
    v
}

fn block(r: &mut Rng, c: &mut Ctx, parts: usize, depth: usize, labels: &mut Vec<Option<String>>, included: bool, loops: usize) -> Vec<S> {
    let mut v = vec![];
    for _ in 0..1 + r.below(3) {
        match r.below(12) {
            0..=2 if labels.len() < 3 && depth > 0 && loops < 3 => {
                let name = if r.chance(1, 2) {
                    c.labels += 1;
                    Some(format!("n{}", c.labels))
                } else {
                    None
                };
                labels.push(name.clone());
                let b = block(r, c, parts, depth - 1, labels, included, loops + 1);
                labels.pop();
                v.push(S::Loop(name, b));
            }
            3 | 4 if depth > 0 => {
                let ids = (0..1 + r.below(2)).map(|_| r.below(parts)).collect();
                v.push(S::If(ids, block(r, c, parts, depth - 1, labels, included, loops)));
            }
            5 if !labels.is_empty() => {
                let named: Vec<&String> = labels.iter().flatten().collect();
                let l = if r.chance(1, 2) && !named.is_empty() { Some(r.pick(&named).to_string()) } else { None };
                let ids = (0..1 + r.below(3)).map(|_| r.below(parts)).collect();
                v.push(S::If(ids, vec![S::Break(l)]));
            }
            6 if !included && c.scripts.len() < 2 => {
                let n = c.scripts.len();
                c.scripts.push(vec![]);
                let b = block(r, c, parts, 2, &mut vec![], true, loops);
                c.scripts[n] = b;
                v.push(S::Include(n));
            }
            7 | 8 => v.push(S::Extract(r.chance(1, 2).then(|| r.below(8)), mods(r), r.chance(1, 4))),
            9 if r.chance(1, 3) => {
                let ids = vec![r.below(parts)];
                v.push(S::If(ids, vec![if included || r.chance(1, 2) { S::Return } else { S::Stop }]));
            }
            _ => {
                c.marks += 1;
                v.push(S::Mark(c.marks));
            }
        }
    }
    v
}
fn print(v: &[S], out: &mut String) {
    for s in v {
        match s {
            S::Mark(n) => *out += &format!("eval \"t2({n}, header.x-id)\";\n"),
            S::Loop(n, b) => {
                *out += "foreverypart ";
                if let Some(n) = n {
                    *out += &format!(":name {} ", quote(n));
                }
                *out += "{\n";
                print(b, out);
                *out += "}\n";
            }
            S::If(ids, b) => {
                let l: Vec<String> = ids.iter().map(|i| format!("\"p{i}\"")).collect();
                *out += &format!("if header :mime \"X-Id\" [{}] {{\n", l.join(", "));
                print(b, out);
                *out += "}\n";
            }
            S::Break(None) => *out += "break;\n",
            S::Break(Some(n)) => *out += &format!("break :name {};\n", quote(n)),
            S::Extract(first, m, flip) => {
                let f = first.map_or(String::new(), |n| format!(":first {n} "));
                let l: String = m.iter().map(|m| MODS[*m]).collect();
                *out += &if *flip { format!("extracttext {f}{l}\"e\";\n") } else { format!("extracttext {l}{f}\"e\";\n") };
                *out += "eval \"t2('e', e)\";\n";
            }
            S::Include(n) => *out += &format!("include \"s{n}\";\n"),
            S::Stop => *out += "stop;\n",
            S::Return => *out += "return;\n",
        }
    }
}
enum Flow {
    Next,
    Break(Option<String>),
    Return,
    Stop,
}
struct M<'a> {
    parts: &'a [P],
    scripts: &'a [Vec<S>],
    out: Vec<(String, String)>,
    loops: usize,
    reached: Vec<&'static str>,
}
impl M<'_> {
    fn run(&mut self, v: &[S], cur: usize) -> Flow {
        for s in v {
            match s {
                S::Mark(n) => self.out.push((n.to_string(), format!("p{cur}"))),
                S::Loop(name, b) => {
                    let ids: Vec<usize> = if self.loops == 0 { (0..self.parts.len()).collect() } else { (cur + 1..=self.parts[cur].end).collect() };
                    self.reached.push(if self.loops == 0 { "loop" } else { "nested loop" });
                    self.loops += 1;
                    let mut exit = None;
                    for id in ids {
                        match self.run(b, id) {
                            Flow::Next => (),
                            Flow::Break(None) => {
                                self.reached.push("break");
                                break;
                            }
                            Flow::Break(Some(n)) if name.as_ref() == Some(&n) => {
                                self.reached.push("break to a name");
                                break;
                            }
                            f => {
                                exit = Some(f);
                                break;
                            }
                        }
                    }
                    self.loops -= 1;
                    if let Some(f) = exit {
                        return f;
                    }
                }
                S::If(ids, b) => {
                    if ids.contains(&cur) {
                        match self.run(b, cur) {
                            Flow::Next => (),
                            f => return f,
                        }
                    }
                }
                S::Break(n) => return Flow::Break(n.clone()),
                S::Extract(first, m, _) => {
                    let mut t = String::new();
                    if self.loops > 0 {
                        t = self.parts[cur].text.clone().unwrap_or_default();
                        self.reached.push(if t.is_empty() { "no text extracted" } else { "text extracted" });
                    }
                    if let Some(n) = first {
                        t = t.chars().take(*n).collect();
                    }
                    if !t.is_empty() {
                        for (i, _) in MODS.iter().enumerate().filter(|x| m.contains(&x.0)) {
                            let quote = |t: &str, q: &str| t.chars().flat_map(|c| if q.contains(c) { vec!['\\', c] } else { vec![c] }).collect::<String>();
                            let mut j = t.chars();
                            t = match i {
                                0 => t.to_lowercase(),
                                1 => t.to_uppercase(),
                                2 => t.replace('a', "b.*"),
                                3 => j.next().map_or(String::new(), |c| c.to_lowercase().chain(j).collect()),
                                4 => j.next().map_or(String::new(), |c| c.to_uppercase().chain(j).collect()),
                                5 => quote(&t, "*\\?.[]()+{}|^=:$"),
                                6 => quote(&t, "*?\\"),
                                _ => t.chars().count().to_string(),
                            };
                        }
                    }
                    self.out.push(("e".into(), t));
                }
                S::Include(n) => {
                    let b = &self.scripts[*n];
                    self.reached.push("included script");
                    let l = self.loops;
                    match self.run(b, cur) {
                        Flow::Stop => return Flow::Stop,
                        _ => self.loops = l,
                    }
                }
                S::Stop => return Flow::Stop,
                S::Return => return Flow::Return,
            }
        }
        Flow::Next
    }
}
fn loops(rep: &mut Rep, r: &mut Rng, parts: &[P], msg: &str) {
    let mut c = Ctx::default();
    let main = block(r, &mut c, parts.len(), 5, &mut vec![], false, 0);
    let text = |v: &[S]| {
        let mut s = String::from("set \"e\" \"\";\n");
        print(v, &mut s);
        s
    };
    let script = text(&main);
    let included: Vec<String> = c.scripts.iter().map(|v| text(v)).collect();
    rep.current = format!("{script}{included:?}\n{msg:?}");
    let mut rt = run::runtime().with_cpu_limit(1_000_000);
    rt.set_max_nested_includes(100);
    let comp = run::compiler();
    let mut bad = None;
    let tr = run::simple_with(&script, msg.as_bytes(), &rt, |_| (), &mut |ev| match ev {
        Event::IncludeScript { name, .. } => {
            let n: usize = name.as_str()[1..].parse().unwrap();
            match run::compile(&comp, &included[n]) {
                Ok(x) => Input::script(name.clone(), x),
                Err(e) => {
                    bad = Some(e);
                    Input::False
                }
            }
        }
        e => run::default_answer(e),
    });
    let tr = match (tr, bad) {
        (Ok(t), None) => t,
        (Err(e), _) | (_, Some(e)) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    let mut m = M { parts, scripts: &c.scripts, out: vec![], loops: 0, reached: vec![] };
    let _ = m.run(&main, 0);
    let got: Vec<(String, String)> = tr.calls(T2).iter().map(|a| (a[0].to_string().into_owned(), a[1].to_string().into_owned())).collect();
    if m.reached.is_empty() {
        rep.trivial();
    } else {
        rep.ok(&rep.current.clone());
        let cur = rep.current.clone();
        rep.sample(|| cur);
    }
    for x in &m.reached {
        rep.cover(x);
    }
    if got != m.out || !tr.errs().is_empty() {
        let k = got.iter().zip(&m.out).take_while(|(a, b)| a == b).count();
        rep.fail("loop", format!("outcome {k}: expected {:?}\nobserved {:?}\n{:?}\n{}", m.out.get(k), got.get(k), tr.errs(), rep.current));
    }
}

/// The text of a part as the value of a variable of each kind.
fn directed(rep: &mut Rep) {
    let msg = b"From: a@b.c\r\nContent-Type: multipart/mixed; boundary=B\r\n\r\n--B\r\n\r\nfirst@x.org\r\n--B\r\nContent-Type: text/html\r\n\r\n<p>second</p>\r\n--B--\r\n";
    let want = ["", "first@x.org", "second\n"];
    for (name, env) in [("v", false), ("global.v", false), ("envelope.to", true), ("envelope.notify", true), ("envelope.orcpt", true)] {
        let script = format!("set \"v\" \"\"; foreverypart {{ extracttext \"{name}\"; eval \"t({name})\"; }} eval \"t({name})\";");
        rep.current = script.clone();
        rep.ok(&script);
        match run::simple(&script, msg) {
            Ok(t) => {
                let mut got = vec![];
                let mut sets = vec![];
                for e in t.events() {
                    match e {
                        Event::Function { arguments, .. } => got.push(arguments[0].to_string().trim().to_string()),
                        Event::SetEnvelope { value, .. } => sets.push(value.trim().to_string()),
                        _ => (),
                    }
                }
                let mut all: Vec<String> = want.iter().map(|s| s.trim().to_string()).collect();
                if env && sets != all || !env && !sets.is_empty() {
                    rep.fail("envelope", format!("set to {sets:?}\n{script}"));
                }
                all.push(all[2].clone());
                if got != all {
                    rep.fail("extracted", format!("{got:?} instead of {all:?}\n{script}"));
                }
                rep.cover("text extracted to a kind of variable");
            }
            Err(e) => rep.fail("run", format!("{e}\n{script}")),
        }
    }
}
