//! body and size: the text of the parts of a message, and the size of the (edited) message.
use crate::ask::{Asker, Kind};
use crate::gen::quote;
use crate::mail::{Body, Gen, Part, NL};
use crate::matching::Quirk;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use mail_parser::decoders::html::html_to_text;

pub const PROP: Prop = Prop { id: "P20", quick: 690_000, thorough: 6_000_000, directed, case };

const ALTS: &[(Quirk, &str)] = &[(Quirk { text_number: true, ..Quirk::NONE }, "text-number")];
const WORDS: &[&str] = &["alpha", "Beta", "ALPHA", "1", "22", "gamma-delta", "\u{e9}t\u{e9}", "x*y", "?", "=", "."];

/// What the tests can look at: one entry per part.
struct Seen {
    id: usize,
    inner: bool,
    /// for parts of an attached message: the part of the message that contains it
    top: usize,
    ctype: (String, String),
    kind: char,
    text: String,
    raw: String,
    /// header of the attached message; prologue and epilogue
    extra: String,
    quirk: Option<String>,
    end: usize,
}
fn last(p: &Part) -> usize {
    match &p.body {
        Body::Multi { parts, .. } => parts.last().map_or(p.id, last),
        _ => p.id,
    }
}
/// The content of a multipart as the code finds it.
fn mime_quirk(raw: &str, b: &str) -> String {
    let mut o = String::new();
    if let Some((p, e)) = raw.split_once(&format!("\n--{b}")) {
        o += p;
        if let Some((_, e)) = e.rsplit_once(&format!("\n--{b}--")) {
            o += e;
        }
    }
    o
}

fn case(rep: &mut Rep, r: &mut Rng) {
    if r.chance(1, 4) {
        return size(rep, r);
    }
    let nl = *r.pick(NL);
    let mut g = Gen { nl, words: WORDS, nested: r.chance(1, 3), n: 0 };
    let mut root = g.part(r, 3, &mut 0);
    let subject = r.chance(2, 3).then(|| r.pick(&["Hello", "alpha", "=?utf-8?q?=C3=A9t=C3=A9?=", "22"]).to_string());
    root.fields.push(("From".into(), "a@b.c".into()));
    if let Some(s) = &subject {
        root.fields.push(("Subject".into(), s.clone()));
    }
    let mut seen: Vec<Seen> = vec![];
    let mut pending: Vec<usize> = vec![];
    let msg = root.print(r, nl, false, &mut |p, inner, h, raw| {
        let c = p.ctype.clone().unwrap_or(("text".into(), "plain".into()));
        let (a, b) = (c.0.to_lowercase(), c.1.to_lowercase());
        let (mut text, mut extra, mut quirk) = (String::new(), String::new(), None);
        let kind = match &p.body {
            Body::Leaf(t, _) => {
                text = t.clone();
                match (a.as_str(), b.as_str()) {
                    ("text", "html") => 'h',
                    ("text", _) => 't',
                    ("application", x) if x.contains("xml") => 'x',
                    _ => 'b',
                }
            }
            Body::Multi { prologue, epilogue, boundary, .. } => {
                extra = format!("{}{}", prologue.as_deref().unwrap_or(""), epilogue.as_deref().unwrap_or(""));
                quirk = Some(mime_quirk(raw, boundary));
                'm'
            }
            Body::Msg(_) => {
                // the header of the attached message is what was printed last
                extra = raw.to_string();
                'r'
            }
        };
        let i = seen.len();
        seen.push(Seen { id: p.id, inner, top: 0, ctype: (a, b), kind, text, raw: raw.to_string(), extra, quirk, end: last(p) });
        if kind == 'r' {
            let e = seen[i].extra.clone();
            let cut = e.find(&format!("{nl}{nl}")).map_or(e.len(), |k| k + 2 * nl.len());
            seen[i].extra = e[..cut].to_string();
            if !inner {
                for k in &pending {
                    seen[*k].top = p.id;
                }
                pending.clear();
            }
        }
        if inner {
            pending.push(i);
        } else {
            seen[i].top = p.id;
        }
        let _ = h;
    });
    if !run::parses(msg.as_bytes()) {
        return rep.cover("message that mail-parser does not read");
    }
    let parts = last(&root) + 1;
    let mut a = Asker::default();
    let looped = parts > 1 && r.chance(1, 3);
    if looped {
        a.script += "set \"n\" \"0\";\nforeverypart {\nlet \"n\" \"n + 1\";\n";
        let mut ids: Vec<usize> = (0..1 + r.below(2)).map(|_| r.below(parts)).collect();
        ids.sort();
        ids.dedup();
        for id in ids {
            a.script += &format!("if eval \"n == {}\" {{\n", id + 1);
            tests(r, &mut a, &seen, id, subject.as_deref());
            a.script += "}\n";
        }
        a.script += "}\n";
    } else {
        tests(r, &mut a, &seen, 0, subject.as_deref());
    }
    rep.current = format!("{}\n{msg:?}", a.script);
    let tr = match run::simple(&a.script, msg.as_bytes()) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    if looped {
        rep.cover("tests of a part in a loop");
    }
    a.verify(rep, &tr);
}
fn tests(r: &mut Rng, a: &mut Asker, seen: &[Seen], id: usize, subject: Option<&str>) {
    let me = seen.iter().find(|s| !s.inner && s.id == id).unwrap();
    let under: Vec<&Seen> = seen.iter().filter(|s| s.top >= me.id && s.top <= me.end).collect();
    for _ in 0..1 + r.below(4) {
        let mut args: Vec<String> = vec![];
        let mut values: Vec<String> = vec![];
        let mut alt: Option<Vec<String>> = None;
        let count;
        let mut dec = true;
        // where attached messages end is not always known to mail-parser
        let end_known = under.iter().all(|s| s.kind != 'r');
        let label = match r.below(5) {
            k if k < 2 || (k == 2 && !end_known) => {
                if r.chance(1, 2) {
                    args.push(":text".into());
                }
                for s in &under {
                    match s.kind {
                        't' => values.push(s.text.clone()),
                        'h' | 'x' => values.push(html_to_text(&s.text)),
                        _ => (),
                    }
                }
                count = under.len();
                "text"
            }
            2 => {
                dec = false;
                args.push(":raw".into());
                values.extend(under.iter().filter(|s| !s.raw.is_empty()).map(|s| s.raw.clone()));
                count = under.len();
                "raw"
            }
            _ => {
                let n = 1 + r.below(2);
                let mut types: Vec<String> = (0..n)
                    .map(|_| {
                        let t = r.pick(seen).ctype.clone();
                        match r.below(5) {
                            0 => t.0,
                            1 => t.0.to_uppercase(),
                            2 => r.pick(&["text", "application", "video", "message/rfc822", "text/plain", "multipart"]).to_string(),
                            3 => format!("{}/{}", t.0, t.1.to_uppercase()),
                            _ => format!("{}/{}", t.0, t.1),
                        }
                    })
                    .collect();
                if r.chance(1, 8) {
                    types = vec![String::new()];
                }
                let bad = r.chance(1, 12);
                if bad {
                    types.insert(0, r.pick(&["text/plain/x", "/", "/plain", "text/"]).to_string());
                }
                let t = a.strings(r, &types);
                args.push(format!(":content {t}"));
                let hit: Vec<&&Seen> = under
                    .iter()
                    .filter(|s| {
                        types == [""]
                            || types.iter().any(|t| match t.split_once('/') {
                                Some((x, y)) => s.ctype.0.eq_ignore_ascii_case(x) && s.ctype.1.eq_ignore_ascii_case(y),
                                None => s.ctype.0.eq_ignore_ascii_case(t),
                            })
                    })
                    .collect();
                if bad {
                    let m = *r.pick(&[":contains", ":matches", ":is", ":count \"ge\""]);
                    let k = if m.starts_with(":count") { "0" } else { "*" };
                    a.plain(r, "invalid content type", &format!("body {m} {} \"{k}\"", args.join(" ")), false);
                    continue;
                }
                let mut other = vec![];
                for s in &hit {
                    match s.kind {
                        'm' | 'r' => {
                            values.push(s.extra.clone());
                            other.push(s.quirk.clone().unwrap_or(s.extra.clone()));
                        }
                        _ => {
                            values.push(s.text.clone());
                            other.push(s.text.clone());
                        }
                    }
                }
                if other != values {
                    alt = Some(other);
                }
                count = hit.len();
                "content"
            }
        };
        let mut subj = "";
        if r.chance(1, 6) {
            args.push(":subject".into());
            let s = match (subject, dec) {
                (None, _) => String::new(),
                (Some(s), false) => s.to_string(),
                (Some(s), true) if s.starts_with("=?") => "\u{e9}t\u{e9}".into(),
                (Some(s), true) => s.to_string(),
            };
            if !dec {
                // the raw field, with white space around it: searched only
                values.push(format!(" {s}\r\n"));
                args.push(":contains".into());
                let k = if s.is_empty() { "Hello".to_string() } else { s.clone() };
                let ok = subject.is_some() || values.iter().any(|v| v.to_lowercase().contains(&k.to_lowercase()));
                let k = a.string(r, &k);
                a.plain(r, "raw subject", &format!("body {} {k}", args.join(" ")), ok);
                continue;
            }
            values.push(s.clone());
            if let Some(o) = &mut alt {
                o.push(s);
            }
            subj = " subject";
        }
        let short = values.iter().chain(alt.iter().flatten()).all(|v| v.len() < 60);
        let k = Kind { list: false, captures: false, regex: short, words: WORDS, letters: &['a', 'l', '1', '\n'], count: Some(count), count_keys: &["0", "1", "2", "3", "5"], by_key: false, single: false, alts: ALTS };
        a.alt = alt.map(|v| (v, "mime-prologue"));
        a.ask(r, &format!("body {label}{subj}"), "body", args, "", &values, &k);
    }
}

/// The size is that of the message as it would be stored now.
fn size(rep: &mut Rep, r: &mut Rng) {
    let mut msg = String::from("From: a@b.c\r\n");
    for _ in 0..r.below(4) {
        msg += r.pick(&["Subject: Hello\r\n", "X-A: 1\r\n", "X-A: two\r\n words\r\n", "X-B: \u{e9}\r\n", "Received: x\r\n"]);
    }
    msg += "\r\n";
    msg += &r.string(&["x", "line\r\n", "\u{e9}", "yy"], 8);
    let mut s = String::new();
    let mut cur = msg.len() as i64;
    let edited = r.chance(2, 3);
    if edited {
        for _ in 0..1 + r.below(4) {
            let n = *r.pick(&["Subject", "X-A", "X-B", "x-new", "From"]);
            if r.chance(1, 2) {
                let v = r.string(&["a", "\u{e9}", " b", "1"], 5);
                s += &format!("addheader {}{} {};\n", r.pick(&["", ":last "]), quote(n), quote(&format!("v{v}")));
            } else {
                s += &format!("deleteheader {}{};\n", r.pick(&["", ":index 1 ", ":index 2 :last "]), quote(n));
            }
        }
        // what is stored shows the size
        let t = match run::simple(&(s.clone() + "keep;"), msg.as_bytes()) {
            Ok(t) => t,
            Err(e) => return rep.fail("run", format!("{e}\n{s}{msg:?}")),
        };
        cur = t.msgs.values().next_back().map_or(msg.len(), |m| m.len()) as i64;
    }
    let mut want = vec![];
    for _ in 0..3 {
        let over = r.chance(1, 2);
        let n = match r.below(6) {
            0 => *r.pick(&[0, 1, 1000, 1 << 20, 1 << 30]),
            _ => (cur + r.range(-2, 2)).max(0),
        };
        let t = match n {
            n if n > 0 && n % (1 << 30) == 0 => format!("{}{}", n >> 30, r.pick(&["G", "g"])),
            n if n > 0 && n % (1 << 20) == 0 => format!("{}{}", n >> 20, r.pick(&["M", "m"])),
            _ => n.to_string(),
        };
        s += &format!("if size {} {t} {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}\n", if over { ":over" } else { ":under" });
        want.push(if if over { cur > n } else { cur < n } { "y" } else { "n" });
    }
    rep.current = format!("{s}\n{msg:?}");
    match run::simple(&s, msg.as_bytes()) {
        Ok(t) => {
            rep.ok(&rep.current.clone());
            rep.cover(if edited { "size of an edited message" } else { "size" });
            if t.marks() != want {
                rep.fail("size", format!("expected {want:?} observed {:?} (size {cur})\n{}", t.marks(), rep.current));
            }
        }
        Err(e) => rep.fail("run", format!("{e}\n{}", rep.current)),
    }
}

fn directed(rep: &mut Rep) {
    // quantifiers, with a message of just that size
    for (q, n) in [("1K", 1usize << 10), ("1k", 1 << 10), ("1M", 1 << 20), ("3k", 3 << 10)] {
        let m = "A: b\r\n\r\n".to_string() + &"x".repeat(n - 8);
        let t = |m: &str| run::simple(&format!("if size :over {q} {{ eval \"t('o')\"; }}\nif size :under {q} {{ eval \"t('u')\"; }}"), m.as_bytes()).map(|t| t.marks());
        let got = (t(&m[..n - 1]), t(&m), t(&(m.clone() + "x")));
        rep.ok(q);
        if got != (Ok(vec!["u".into()]), Ok(vec![]), Ok(vec!["o".into()])) {
            rep.fail("size", format!("{q}: {got:?}"));
        }
    }
}
