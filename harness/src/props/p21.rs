//! addheader, deleteheader and the messages that are created from the edited one.
use crate::ask::shuffle;
use crate::gen::{self, quote};
use crate::mail::{Body, Gen, Part, NL};
use crate::matching::{self, Cmp, Mt, Quirk, RELS};
use crate::props::p12::{key_for, regex_for};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use mail_parser::HeaderName;
use sieve::{Event, Input, Recipient};

pub const PROP: Prop = Prop { id: "P21", quick: 1_000_000, thorough: 6_000_000, directed, case };

const WORDS: &[&str] = &["alpha", "Beta", "ALPHA", "1", "22", "gamma-delta", "\u{e9}t\u{e9}", "x*y", "?", "=", ".", "3.5"];
const NAMES: &[&str] = &["X-A", "x-a", "X-B", "Subject", "subject", "Received", "Comments", "From", "Content-Type", "X_C", "List-Id"];
const TEXT_NUMBER: Quirk = Quirk { text_number: true, ..Quirk::NONE };

#[derive(Clone, Debug)]
struct Fld {
    name: String,
    raw: String,
    value: String,
}
enum Seg {
    Raw(String),
    Head(usize),
}
#[derive(Default)]
struct Doc {
    segs: Vec<Seg>,
    parts: Vec<Vec<Fld>>,
    ends: Vec<usize>,
}
impl Doc {
    fn field(r: &mut Rng, name: &str, value: &str, nl: &str) -> Fld {
        let mut v = value.replace(' ', if r.chance(1, 3) { &*Box::leak(format!("{nl} ").into_boxed_str()) } else { " " });
        let mut value = value.to_string();
        if r.chance(1, 8) {
            v = "=?utf-8?q?=C3=A9t=C3=A9?=".into();
            value = "\u{e9}t\u{e9}".into();
        }
        Fld { name: name.into(), raw: format!("{name}:{}{v}{}{nl}", r.pick(&[" ", "", "  "]), if v.is_empty() { "" } else { r.pick(&["", "", " "]) }), value }
    }
    fn add(&mut self, r: &mut Rng, p: &Part, nl: &str) {
        let mut f = vec![];
        for (n, v) in &p.fields {
            f.push(Doc::field(r, n, v, nl));
        }
        for _ in 0..r.below(4) {
            let n = *r.pick(&["X-A", "x-a", "X-B", "Subject", "Received", "Comments", "List-Id", "X_C"]);
            let k = r.below(3);
            let w: Vec<&str> = (0..k).map(|_| *r.pick(WORDS)).collect();
            f.push(Doc::field(r, n, &w.join(" "), nl));
        }
        if let Some((a, b)) = &p.ctype {
            let mut raw = format!("Content-Type: {a}/{b}");
            let mut value = format!("{a}/{b}");
            for (n, v) in &p.params {
                let (x, y) = *r.pick(&[("; ", "\""), ("; ", ""), (";\u{1} ", "\"")]);
                raw += &format!("{}{n}={y}{v}{y}", x.replace('\u{1}', nl));
                value += &format!("; {n}={y}{v}{y}");
            }
            f.push(Fld { name: "Content-Type".into(), raw: raw + nl, value });
        }
        if let Some(e) = p.encoding {
            f.push(Fld { name: "Content-Transfer-Encoding".into(), raw: format!("Content-Transfer-Encoding: {e}{nl}"), value: e.into() });
        }
        r.shuffle(&mut f);
        let me = self.parts.len();
        self.parts.push(f);
        self.ends.push(me);
        self.segs.push(Seg::Head(me));
        match &p.body {
            Body::Leaf(_, raw) => self.segs.push(Seg::Raw(raw.clone())),
            Body::Multi { parts, prologue, epilogue, boundary } => {
                if let Some(p) = prologue {
                    self.segs.push(Seg::Raw(format!("{p}{nl}")));
                }
                for p in parts {
                    self.segs.push(Seg::Raw(format!("--{boundary}{nl}")));
                    self.add(r, p, nl);
                    self.segs.push(Seg::Raw(nl.into()));
                }
                self.segs.push(Seg::Raw(format!("--{boundary}--")));
                self.segs.push(Seg::Raw(match epilogue {
                    Some(e) => format!("{nl}{e}"),
                    None => nl.into(),
                }));
                self.ends[me] = self.parts.len() - 1;
            }
            Body::Msg(m) => {
                let t = m.print(r, nl, true, &mut |_, _, _, _| ());
                self.segs.push(Seg::Raw(t));
            }
        }
    }
    fn show(&self, parts: &[Vec<Fld>], nl: &str) -> String {
        let mut o = String::new();
        for s in &self.segs {
            match s {
                Seg::Raw(t) => o += t,
                Seg::Head(i) => {
                    for f in &parts[*i] {
                        o += &f.raw;
                    }
                    o += nl;
                }
            }
        }
        o
    }
}
#[derive(Clone, Debug)]
enum Step {
    Add { part: usize, name: String, value: String, last: bool },
    Del { part: usize, name: String, index: i32, any: bool, keys: Vec<String>, mt: Mt, cmp: Cmp },
    File(String),
    Send(String),
    Keep,
    Read(usize, String),
}
#[derive(Debug, PartialEq, Clone)]
enum Exp {
    Create(usize, String),
    File(String, usize),
    Send(String, usize),
    Keep(usize),
    List(Vec<String>),
}
struct State<'a> {
    doc: &'a Doc,
    protected: &'a [&'a str],
    limit: usize,
    q: Quirk,
}
fn valid(n: &str) -> bool {
    !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
}
impl State<'_> {
    fn run(&self, steps: &[Step]) -> Vec<Exp> {
        let mut parts = self.doc.parts.clone();
        let mut out = vec![];
        let (mut id, mut last, mut changed) = (0, 0, false);
        let mut kept = None;
        let same = |a: &str, b: &str| a.eq_ignore_ascii_case(b);
        macro_rules! store {
            () => {
                if changed {
                    last += 1;
                    id = last;
                    changed = false;
                    out.push(Exp::Create(id, self.doc.show(&parts, "\r\n")));
                }
            };
        }
        for s in steps {
            match s {
                Step::Add { part, name, value, last } => {
                    let n: String = name.chars().filter(|c| c.is_alphanumeric() || *c == '-').collect();
                    if !valid(&n) || self.protected.iter().any(|p| same(p, &n)) {
                        continue;
                    }
                    let mut v = String::new();
                    for c in value.chars().filter(|c| *c != '\r' && *c != '\n') {
                        if v.len() + c.len_utf8() > self.limit {
                            break;
                        }
                        v.push(c);
                    }
                    let n = HeaderName::parse(n).unwrap().as_str().to_string();
                    let f = Fld { raw: format!("{n}: {v}\r\n"), name: n, value: v };
                    let at = if *last { parts[*part].len() } else { 0 };
                    parts[*part].insert(at, f);
                    changed = true;
                }
                Step::Del { part, name, index, any, keys, mt, cmp } => {
                    if !valid(name) || self.protected.iter().any(|p| same(p, name)) {
                        continue;
                    }
                    let to = if *any { self.doc.ends[*part] } else { *part };
                    for p in &mut parts[*part..=to] {
                        let mut hits: Vec<usize> = (0..p.len()).filter(|i| same(&p[*i].name, name)).collect();
                        if *index != i32::MAX {
                            let n = hits.len() as i32;
                            let i = if *index < 0 { n + index } else { index - 1 };
                            hits = if i >= 0 && i < n { vec![hits[i as usize]] } else { vec![] };
                        }
                        if let Mt::Count(_) = mt {
                            // a field cannot be counted by itself
                            hits.clear();
                        }
                        hits.retain(|i| keys.is_empty() || matching::test(mt, *cmp, std::slice::from_ref(&p[*i].value), keys, false, self.q).0);
                        for i in hits.into_iter().rev() {
                            p.remove(i);
                            changed = true;
                        }
                    }
                }
                Step::File(f) => {
                    store!();
                    out.push(Exp::File(f.clone(), id));
                }
                Step::Send(f) => {
                    store!();
                    out.push(Exp::Send(f.clone(), id));
                }
                Step::Keep => {
                    store!();
                    kept = Some(id);
                }
                Step::Read(p, n) => {
                    let mut l: Vec<String> = vec![];
                    for f in parts[*p].iter().filter(|f| same(&f.name, n)) {
                        if !f.value.is_empty() && !l.contains(&f.value) {
                            l.push(f.value.clone());
                        }
                    }
                    if !l.is_empty() {
                        out.push(Exp::List(l));
                    }
                }
            }
        }
        if kept.is_none() {
            store!();
        }
        let _ = changed;
        out.push(Exp::Keep(kept.unwrap_or(id)));
        out
    }
}

/// A string as a constant or through a variable.
fn string(r: &mut Rng, script: &mut String, s: &str, var: bool) -> String {
    if var || r.chance(1, 6) {
        let n = script.len();
        *script += &format!("set \"v{n}\" {};\n", quote(s));
        format!("\"${{v{n}}}\"")
    } else {
        quote(s)
    }
}
fn step(r: &mut Rng, doc: &Doc, part: usize, script: &mut String) -> Step {
    let name = |r: &mut Rng| {
        if r.chance(1, 5) {
            r.pick(&["X A", "X:B", "x-\u{e9}", "", "::", "Original-Subject", "original-from", "X-Prot", "x-prot", "X-A\r\nX-B", "Subject "]).to_string()
        } else {
            r.pick(NAMES).to_string()
        }
    };
    match r.below(10) {
        0..=2 => {
            let name = name(r);
            let last = r.chance(1, 3);
            let value = match r.below(5) {
                0 => r.string(&["a", "\u{e9}", " b", "1", "\r\n", "\n", "\u{1f600}", "="], 10),
                1 => format!("{}\r\nX-Evil: {}", r.pick(WORDS), r.pick(WORDS)),
                _ => format!("{} {}", r.pick(WORDS), r.pick(WORDS)),
            };
            let n = string(r, script, &name, !valid(&name));
            let v = string(r, script, &value, false);
            *script += &format!("addheader {}{n} {v};\n", if last { ":last " } else { "" });
            Step::Add { part, name, value, last }
        }
        3..=5 => {
            let name = name(r);
            let mut args = vec![];
            let mut index = i32::MAX;
            if r.chance(1, 3) {
                index = r.below(4) as i32;
                args.push(format!(":index {index}"));
                if r.chance(1, 2) {
                    args.push(":last".into());
                    index = -index;
                }
            }
            let any = r.chance(1, 3);
            if any {
                args.push(":mime".into());
                args.push(":anychild".into());
            }
            let (mut keys, mut mt, mut cmp) = (vec![], Mt::Is, Cmp::Case);
            if r.chance(1, 2) {
                cmp = *r.pick(&[Cmp::Case, Cmp::Case, Cmp::Octet, Cmp::Numeric]);
                let values: Vec<&String> = doc.parts.iter().flatten().filter(|f| f.name.eq_ignore_ascii_case(&name)).map(|f| &f.value).collect();
                mt = match r.below(7) {
                    6 => Mt::Count(*r.pick(RELS)),
                    0 => Mt::Contains,
                    1 => Mt::Matches,
                    2 => Mt::Value(*r.pick(RELS)),
                    3 => Mt::Regex(vec![]),
                    _ => Mt::Is,
                };
                keys = (0..1 + r.below(2))
                    .map(|_| {
                        let v = if values.is_empty() { r.pick(WORDS).to_string() } else { r.pick(&values).to_string() };
                        if matches!(mt, Mt::Is) && r.chance(1, 2) { v } else { key_for(r, &v, &mt, WORDS) }
                    })
                    .collect();
                if let Mt::Regex(_) = mt {
                    let res: Vec<_> = keys.iter().map(|_| regex_for(r, &['a', 'l', 'p', '1'])).collect();
                    keys = res.iter().map(|x| x.0.text()).collect();
                    mt = Mt::Regex(res);
                }
                args.push(mt.tag());
                if cmp != Cmp::Case {
                    args.push(format!(":comparator \"{}\"", cmp.tag()));
                }
                if let Mt::Count(_) = mt {
                    keys = vec![r.pick(&["0", "1", "2"]).to_string()];
                }
            }
            shuffle(&mut args, r);
            let n = string(r, script, &name, !valid(&name));
            let k: Vec<String> = keys.iter().map(|k| string(r, script, k, false)).collect();
            let k = if k.is_empty() { String::new() } else { format!(" [{}]", k.join(", ")) };
            *script += &format!("deleteheader {} {n}{k};\n", args.join(" "));
            Step::Del { part, name, index, any, keys, mt, cmp }
        }
        6 | 7 => {
            let n = *r.pick(&["X-A", "x-b", "Subject", "Content-Type", "comments", "X-C", "XC", "List-ID"]);
            *script += &format!("if header :list {} \"urn:l\" {{ }}\n", quote(n));
            Step::Read(part, n.into())
        }
        8 => {
            let f = r.pick(&["f", "g"]).to_string();
            if r.chance(1, 2) {
                *script += &format!("fileinto :copy \"{f}\";\n");
                Step::File(f)
            } else {
                *script += &format!("redirect :copy \"{f}@x.org\";\n");
                Step::Send(format!("{f}@x.org"))
            }
        }
        _ => {
            *script += "keep;\n";
            Step::Keep
        }
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    if r.chance(1, 4) {
        return hostile(rep, r);
    }
    let nl = *r.pick(NL);
    let mut g = Gen { nl, words: WORDS, nested: r.chance(1, 3), n: 0 };
    let mut root = g.part(r, 3, &mut 0);
    root.fields.push(("From".into(), "a@b.c".into()));
    let mut doc = Doc::default();
    doc.add(r, &root, nl);
    let msg = doc.show(&doc.parts, nl);
    if !run::parses(msg.as_bytes()) {
        return rep.cover("message that mail-parser does not read");
    }
    let n = doc.parts.len();
    let mut script = String::new();
    let mut steps = vec![];
    let mut included: Vec<(String, String)> = vec![];
    let mut list = |r: &mut Rng, script: &mut String, part: usize, steps: &mut Vec<Step>| {
        for _ in 0..1 + r.below(5) {
            if included.len() < 4 && r.chance(1, 10) {
                let mut s = String::new();
                for _ in 0..1 + r.below(2) {
                    steps.push(step(r, &doc, part, &mut s));
                }
                let name = format!("s{}", included.len());
                *script += &format!("include \"{name}\";\n");
                included.push((name, s));
            } else {
                steps.push(step(r, &doc, part, script));
            }
        }
    };
    if r.chance(2, 3) {
        list(r, &mut script, 0, &mut steps);
    }
    if n > 1 && r.chance(1, 2) {
        script += "set \"n\" \"0\";\nforeverypart {\nlet \"n\" \"n + 1\";\n";
        let mut ids: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(n)).collect();
        ids.sort();
        ids.dedup();
        for id in ids {
            script += &format!("if eval \"n == {}\" {{\n", id + 1);
            list(r, &mut script, id, &mut steps);
            script += "}\n";
        }
        script += "}\n";
        rep.cover("edits of parts");
    }
    if r.chance(1, 2) {
        list(r, &mut script, 0, &mut steps);
    }
    let mut rt = run::runtime().with_max_redirects(100).with_max_out_messages(100);
    rt.set_max_nested_includes(100);
    let mut st = State { doc: &doc, protected: &["Original-Subject", "Original-From"], limit: 1024, q: Quirk::NONE };
    if r.chance(1, 3) {
        rt = rt.with_protected_headers(["X-Prot".to_string(), "comments".to_string()]);
        st.protected = &["X-Prot", "Comments"];
    }
    if r.chance(1, 3) {
        st.limit = r.below(16);
        rt = rt.with_max_header_size(st.limit);
    }
    rep.current = format!("{script}{included:?}\nprotected {:?} limit {}\n{msg:?}", st.protected, st.limit);
    let c = run::compiler();
    let mut bad = None;
    let tr = run::simple_with(&script, msg.as_bytes(), &rt, |_| (), &mut |ev| match ev {
        Event::IncludeScript { name, .. } => {
            let n = name.as_str();
            let s = included.iter().find(|(x, _)| x == n).unwrap();
            match run::compile(&c, &s.1) {
                Ok(x) => Input::script(name.clone(), x),
                Err(e) => {
                    bad = Some(e);
                    Input::False
                }
            }
        }
        e => run::default_answer(e),
    });
    let tr = match (tr, bad) {
        (Ok(t), None) => t,
        (Err(e), _) | (_, Some(e)) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    let mut got = vec![];
    for e in tr.events() {
        got.push(match e {
            Event::CreatedMessage { message_id, .. } => Exp::Create(*message_id, String::from_utf8_lossy(&tr.msgs[message_id]).into_owned()),
            Event::FileInto { folder, message_id, .. } => Exp::File(folder.clone(), *message_id),
            Event::SendMessage { recipient: Recipient::Address(a), message_id, .. } => Exp::Send(a.clone(), *message_id),
            Event::Keep { message_id, .. } => Exp::Keep(*message_id),
            Event::ListContains { values, .. } => Exp::List(values.clone()),
            Event::IncludeScript { .. } => continue,
            e => return rep.fail("event", format!("unexpected {e:?}\n{}", rep.current)),
        });
    }
    let want = st.run(&steps);
    rep.ok(&rep.current.clone());
    let cur = rep.current.clone();
    rep.sample(|| cur);
    for w in &want {
        match w {
            Exp::Create(..) => rep.cover("created message compared"),
            Exp::List(_) => rep.cover("edited fields read"),
            Exp::Keep(0) => rep.cover("original message kept"),
            _ => rep.cover("reference to a message"),
        }
    }
    if got == want {
        return;
    }
    st.q = TEXT_NUMBER;
    if got == st.run(&steps) {
        rep.known.push("text-number".into());
        return;
    }
    rep.fail("message", format!("expected {want:#?}\nobserved {got:#?}\n{}\n{steps:?}", rep.current));
}

/// Whatever the message is like, an added field is all that changes (line ends aside).
fn hostile(rep: &mut Rep, r: &mut Rng) {
    let msg = gen::hostile_message(r);
    rep.phase("parse");
    if !run::parses(&msg) {
        return rep.cover("message that mail-parser does not read");
    }
    let mut end = 0;
    let whole = {
        let rt = run::runtime();
        let c = rt.filter(&msg);
        c.message().parts.iter().enumerate().all(|(i, p)| {
            if i == 0 {
                end = p.headers.last().map_or(0, |h| h.offset_end as usize);
            }
            let mut at = p.offset_header;
            (p.offset_body > at || i == 0 && !p.headers.is_empty())
                && p.headers.iter().all(|h| std::mem::replace(&mut at, h.offset_end) == h.offset_field)
                && msg.get(at as usize..(p.offset_body as usize).max(at as usize)).is_some_and(|t| t.iter().all(|b| b"\r\n".contains(b)))
        })
    };
    if !whole {
        return rep.cover("message with lines that mail-parser does not take for fields");
    }
    rep.phase("run");
    let last = r.chance(1, 2);
    let script = if last { "addheader :last \"X-New\" \"value\";\nkeep;" } else { "addheader \"X-New\" \"value\";\nkeep;" };
    rep.current = format!("{script}\n{:?}", String::from_utf8_lossy(&msg));
    let tr = match run::simple(script, &msg) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    rep.ok(&msg);
    rep.cover("field added to an arbitrary message");
    let norm = |m: &[u8]| -> Vec<u8> {
        let mut v: Vec<u8> = m.iter().copied().filter(|b| *b != b'\r').collect();
        while v.last() == Some(&b'\n') {
            v.pop();
        }
        v
    };
    let at = if last { end } else { 0 };
    let mut want = msg[..at].to_vec();
    if !want.is_empty() && !want.ends_with(b"\n") {
        want.push(b'\n');
    }
    want.extend_from_slice(b"X-New: value\r\n");
    want.extend_from_slice(&msg[at..]);
    let got = tr.msgs.values().next().cloned().unwrap_or_default();
    if norm(&want) != norm(&got) {
        rep.fail("message", format!("created {:?}\n{}", String::from_utf8_lossy(&got), rep.current));
    }
}

fn directed(rep: &mut Rep) {
    // messages that end in their header
    for (m, last, want) in [
        ("A: b", true, "A: b\r\nX: v\r\n\r\n"),
        ("A: b", false, "X: v\r\nA: b\r\n\r\n"),
        ("A: b\n", true, "A: b\nX: v\r\n\r\n"),
        ("A: b\r\nC: d\n e", true, "A: b\r\nC: d\n e\r\nX: v\r\n\r\n"),
        ("A: b\n\n", true, "A: b\nX: v\r\n\r\n"),
    ] {
        let s = format!("addheader {}\"X\" \"v\";", if last { ":last " } else { "" });
        rep.ok(&(m, last));
        match run::simple(&s, m.as_bytes()) {
            Ok(t) => {
                let got = t.msgs.values().next().map(|m| String::from_utf8_lossy(m).into_owned()).unwrap_or_default();
                if got.trim_end() != want.trim_end() {
                    rep.fail("message", format!("{s} {m:?}: {got:?}"));
                }
            }
            Err(e) => rep.fail("run", e),
        }
    }
    // limits of the compiler
    for (n, ok) in [(1024, true), (1025, false)] {
        let s = format!("addheader \"X-A\" \"{}\";", "x".repeat(n));
        rep.ok(&s);
        if run::compile(&run::compiler(), &s).is_ok() != ok {
            rep.fail("limit", format!("constant of {n} bytes"));
        }
    }
    for (n, ok) in [("X-A", true), ("X A", false), ("X:", false), ("", false), ("x-\u{e9}", false)] {
        for c in ["addheader", "deleteheader"] {
            let s = format!("{c} \"{n}\" \"x\";");
            rep.ok(&s);
            if run::compile(&run::compiler(), &s).is_ok() != ok {
                rep.fail("name", s);
            }
        }
    }
}
