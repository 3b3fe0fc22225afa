//! header, address and exists: the values they look at, against the structure the message was printed from.
use super::p12::{key_for, regex_for};
use crate::gen::quote;
use crate::matching::{self, Cmp, Mt, Quirk, RELS};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, T, T2};
use crate::Prop;
use sieve::Event;

pub const PROP: Prop = Prop { id: "P16", quick: 610_000, thorough: 8_000_000, directed, case };

pub struct Field {
    pub name: String,
    /// value as `header` sees it
    pub text: String,
    pub raw: String,
    /// for address fields: (name, address)
    pub addrs: Option<Vec<(Option<String>, String)>>,
}

fn b64(s: &str) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in s.as_bytes().chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// An encoded word for `s`.
pub fn encoded(r: &mut Rng, s: &str) -> String {
    let cs = *r.pick(&["utf-8", "UTF-8", "utf-8*en"]);
    let cs = if cs.contains('*') { "utf-8" } else { cs };
    if r.chance(1, 2) {
        format!("=?{cs}?{}?{}?=", r.pick(&["b", "B"]), b64(s))
    } else {
        let q: String = s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else if b == b' ' { "_".into() } else { format!("={b:02X}") }).collect();
        format!("=?{cs}?{}?{q}?=", r.pick(&["q", "Q"]))
    }
}
const WORDS: &[&str] = &["a", "Bob", "bob", "Doe", "x", "1", "22", "B2", "it's", "a.b", "*", "?"];
const LOCAL: &[&str] = &["a", "bob", "Bob", "joe.q", "x+det", "x+Det", "a+b", "n1", "o'k", "+x", "y+"];
const DOMAIN: &[&str] = &["example.org", "EXAMPLE.org", "b.c", "mail.example.org", "localhost"];

fn fold(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", " ", " ", "\r\n ", "\r\n\t", "\n "])
}
fn mailbox(r: &mut Rng) -> (String, Option<String>, String) {
    let addr = format!("{}@{}", r.pick(LOCAL), r.pick(DOMAIN));
    match r.below(7) {
        0 | 1 => (addr.clone(), None, addr),
        2 => (format!("<{addr}>"), None, addr),
        3 => {
            let n: Vec<&str> = (0..1 + r.below(3)).map(|_| *r.pick(&["Bob", "doe", "X1", "ab"])).collect();
            let mut t = String::new();
            for (i, w) in n.iter().enumerate() {
                if i > 0 {
                    t += fold(r);
                }
                t += w;
            }
            (format!("{t}{}<{addr}>", fold(r)), Some(n.join(" ")), addr)
        }
        4 => {
            let n = r.string(&["Bob", "Doe, J.", " ", "\"q\"", "\\", "(x)", "<y>", "a@b"], 3);
            let n = n.trim().to_string();
            let n = if n.is_empty() { "Q".to_string() } else { n };
            let q: String = n.chars().map(|c| if "\"\\".contains(c) { format!("\\{c}") } else { c.into() }).collect();
            (format!("\"{q}\"{}<{addr}>", fold(r)), Some(n), addr)
        }
        5 => {
            let n = r.string(&["\u{e9}t\u{e9}", "Bob", " x", "\u{65e5}"], 3);
            let n = n.trim().to_string();
            let n = if n.is_empty() { "\u{e9}".to_string() } else { n };
            (format!("{}{}<{addr}>", encoded(r, &n), fold(r)), Some(n), addr)
        }
        _ => {
            let n = *r.pick(&["Bob", "A B"]);
            (format!("{addr} ({n})"), Some(n.into()), addr)
        }
    }
}
pub fn field(r: &mut Rng, name: &str, addr: bool) -> Field {
    if addr {
        let (mut t, mut v) = (String::new(), vec![]);
        let mut list = |r: &mut Rng, t: &mut String, n: usize| {
            for i in 0..n {
                if i > 0 {
                    *t += ",";
                    *t += fold(r);
                }
                let (x, n, a) = mailbox(r);
                *t += &x;
                v.push((n, a));
            }
        };
        if r.chance(1, 5) {
            for g in 0..1 + r.below(2) {
                if g > 0 {
                    t += " ";
                }
                t += r.pick(&["Team", "\"The group\"", "G 1"]);
                t += ":";
                t += r.pick(&["", " "]);
                let n = r.below(3);
                list(r, &mut t, n);
                t += ";";
            }
        } else {
            let n = 1 + r.below(3);
            list(r, &mut t, n);
        }
        Field { name: name.into(), text: String::new(), raw: t, addrs: Some(v) }
    } else {
        let (mut t, mut v) = (String::new(), String::new());
        let mut enc = false;
        for i in 0..r.below(5) {
            let e = r.chance(1, 6);
            if i > 0 {
                let f = fold(r);
                t += f;
                // white space between encoded words is not part of the text
                if !(enc && e) {
                    v += " ";
                }
            }
            if e {
                let w = r.string(&["\u{e9}", "A", " ", "\u{65e5}"], 3);
                let w = w.trim().to_string();
                let w = if w.is_empty() { "\u{c9}".to_string() } else { w };
                t += &encoded(r, &w);
                v += &w;
            } else {
                let w = *r.pick(WORDS);
                t += w;
                v += w;
            }
            enc = e;
        }
        Field { name: name.into(), text: v, raw: t, addrs: None }
    }
}
pub fn part_tag(p: usize) -> &'static str {
    ["", ":all", ":localpart", ":domain", ":user", ":detail", ":name"][p]
}
pub fn part_of(p: usize, a: &(Option<String>, String)) -> Option<String> {
    let (l, d) = a.1.split_once('@').unwrap();
    match p {
        0 | 1 => Some(a.1.clone()),
        2 => Some(l.into()),
        3 => Some(d.into()),
        4 => match l.split_once('+') {
            Some(("", _)) => None,
            Some((u, _)) => Some(u.into()),
            None => Some(l.into()),
        },
        5 => l.split_once('+').map(|x| x.1.into()),
        _ => a.0.clone(),
    }
}

enum Want {
    Bool(bool, bool, Vec<(bool, &'static str)>),
    List(Vec<String>),
    Cap(String, String),
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let anames = ["From", "To", "Cc", "Sender", "Reply-To", "Resent-To", "X-Addr"];
    let tnames = ["Subject", "X-One", "X-Two", "Comments", "Keywords", "List-Id"];
    let mut fields = vec![];
    for _ in 0..r.below(9) {
        let f = if r.chance(3, 5) { let n = *r.pick(&anames); field(r, n, true) } else { let n = *r.pick(&tnames); field(r, n, false) };
        fields.push(f);
    }
    let mut msg = String::new();
    for f in &fields {
        let n = match r.below(4) {
            0 => f.name.to_lowercase(),
            1 => f.name.to_uppercase(),
            _ => f.name.clone(),
        };
        msg += &format!("{n}:{}{}\r\n", r.pick(&[" ", " ", "", "  "]), f.raw);
    }
    msg += "MIME-Version: 1.0\r\n\r\nbody\r\n";
    if !run::parses(msg.as_bytes()) {
        return rep.trivial();
    }
    let mut script = String::new();
    let mut want: Vec<Want> = vec![];
    for i in 0..1 + r.below(7) {
        let addr = r.chance(3, 5);
        let nn = 1 + r.below(3);
        let names: Vec<&str> = (0..nn)
            .map(|_| if r.chance(1, 8) { "X-None" } else if addr { *r.pick(&anames) } else { *r.pick(&tnames) })
            .collect();
        let texts: Vec<String> = names
            .iter()
            .enumerate()
            .map(|(k, n)| {
                let n = if r.chance(1, 3) { n.to_uppercase() } else { n.to_string() };
                if r.chance(1, 8) {
                    script += &format!("set \"n{i}_{k}\" {};\n", quote(&n));
                    format!("\"${{n{i}_{k}}}\"")
                } else {
                    quote(&n)
                }
            })
            .collect();
        let nlist = if texts.len() == 1 && r.chance(2, 3) { texts[0].clone() } else { format!("[{}]", texts.join(", ")) };
        if r.chance(1, 8) {
            let ok = names.iter().all(|n| fields.iter().any(|f| f.name == *n));
            script += &format!("if exists {nlist} {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}\n");
            want.push(Want::Bool(ok, false, vec![]));
            rep.cover(if ok { "exists true" } else { "exists false" });
            continue;
        }
        let p = if addr { r.below(7) } else { 0 };
        // fields in the order of the names, then of the message
        let index = if r.chance(1, 3) { Some((1 + r.below(3), r.chance(1, 2))) } else { None };
        let mut sel = vec![];
        for n in &names {
            let l: Vec<&Field> = fields.iter().filter(|f| f.name == *n).collect();
            match index {
                None => sel.extend(l),
                Some((k, false)) => sel.extend(l.get(k - 1).copied()),
                Some((k, true)) => sel.extend((k <= l.len()).then(|| l[l.len() - k])),
            }
        }
        let values: Vec<String> =
            if addr { sel.iter().flat_map(|f| f.addrs.as_ref().unwrap().iter().filter_map(|a| part_of(p, a))).collect() } else { sel.iter().map(|f| f.text.clone()).collect() };
        let mut args = vec![];
        if p > 0 {
            args.push(part_tag(p).to_string());
        }
        if let Some((k, last)) = index {
            args.push(format!(":index {k}"));
            if last {
                args.push(":last".into());
            }
            rep.cover("with :index");
        }
        let kind = if addr { format!("address{}", part_tag(p)) } else { "header".to_string() };
        let word = if addr { "address" } else { "header" };
        match r.below(6) {
            0 | 1 => {
                args.push(":list".into());
                shuffle(&mut args, r);
                script += &format!("if {word} {} {nlist} \"urn:l{i}\" {{ }}\n", args.join(" "));
                let mut v: Vec<String> = vec![];
                for x in values {
                    if !x.is_empty() && !v.contains(&x) {
                        v.push(x);
                    }
                }
                if !v.is_empty() {
                    want.push(Want::List(v));
                    rep.cover(&format!("{kind} values listed"));
                }
            }
            2 => {
                args.push(":matches".into());
                shuffle(&mut args, r);
                script += &format!("if {word} {} {nlist} \"*\" {{ set \"m\" \"${{1}}\"; eval \"t2('m', m)\"; }} else {{ eval \"t2('x', '')\"; }}\n", args.join(" "));
                want.push(match values.first() {
                    Some(v) => Want::Cap("m".into(), v.clone()),
                    None => Want::Cap("x".into(), String::new()),
                });
                rep.cover(&format!("{kind} first value"));
            }
            _ => {
                let cmp = *r.pick(&[Cmp::Case, Cmp::Case, Cmp::Octet, Cmp::Numeric]);
                let rel = *r.pick(RELS);
                let mut mt = match r.below(7) {
                    0 => Mt::Is,
                    1 => Mt::Contains,
                    2 => Mt::Matches,
                    3 => Mt::Value(rel),
                    4 | 5 => Mt::Count(rel),
                    _ => Mt::Regex(vec![]),
                };
                let mut keys: Vec<String> = (0..1 + r.below(2))
                    .map(|_| match &mt {
                        Mt::Count(_) => r.pick(&["0", "1", "2", "3", "4"]).to_string(),
                        _ => {
                            let v = if values.is_empty() { "a".to_string() } else { r.pick(&values).clone() };
                            if matches!(mt, Mt::Is) && r.chance(1, 2) { v } else { key_for(r, &v, &mt, WORDS) }
                        }
                    })
                    .collect();
                if let Mt::Regex(_) = mt {
                    let res: Vec<_> = keys.iter().map(|_| regex_for(r, &['a', 'b', 'x', '@'])).collect();
                    keys = res.iter().map(|x| x.0.text()).collect();
                    mt = Mt::Regex(res);
                }
                let not = r.chance(1, 8);
                args.push(mt.tag());
                if cmp != Cmp::Case {
                    args.push(format!(":comparator \"{}\"", cmp.tag()));
                }
                shuffle(&mut args, r);
                let kl = keys.iter().map(|s| quote(s)).collect::<Vec<_>>();
                script += &format!("if {}{word} {} {nlist} [{}] {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}\n", if not { "not " } else { "" }, args.join(" "), kl.join(", "));
                let n = if addr { values.iter().filter(|v| !v.is_empty()).count() } else { sel.len() };
                let f = |q: Quirk| match mt {
                    Mt::Count(rel) => matching::count(rel, n, &keys),
                    _ => matching::test(&mt, cmp, &values, &keys, false, q).0,
                };
                let ideal = f(Quirk::NONE);
                let q = [
                    (f(Quirk { text_number: true, ..Quirk::NONE }), "text-number"),
                ];
                rep.cover(&format!("{kind} compared, {ideal}"));
                want.push(Want::Bool(ideal, not, q.to_vec()));
            }
        }
    }
    rep.current = format!("{script}\n{msg}");
    let tr = match run::simple_with(&script, msg.as_bytes(), &run::runtime(), |_| (), &mut run::default_answer) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    rep.ok(&(&script, &msg));
    rep.sample(|| rep_current(&script, &msg));
    let mut got = tr.events().filter(|e| matches!(e, Event::Function { .. } | Event::ListContains { .. }));
    for (i, w) in want.iter().enumerate() {
        let g = got.next();
        let ok = match (w, g) {
            (Want::Bool(b, not, q), Some(Event::Function { id, arguments })) if *id == T => {
                let g = (arguments[0].to_string() == "y") != *not;
                g == *b
                    || q.iter().any(|(v, k)| {
                        *v == g && {
                            rep.known.push((*k).into());
                            true
                        }
                    })
            }
            (Want::List(l), Some(Event::ListContains { values, .. })) => values == l,
            (Want::Cap(a, b), Some(Event::Function { id, arguments })) if *id == T2 => arguments[0].to_string() == a.as_str() && arguments[1].to_string() == b.as_str(),
            _ => false,
        };
        if !ok {
            let w = match w {
                Want::Bool(b, n, _) => format!("{}", b != n),
                Want::List(l) => format!("list {l:?}"),
                Want::Cap(a, b) => format!("{a} {b:?}"),
            };
            rep.fail("values of a test", format!("outcome {i}: expected {w}\nobserved {g:?}\n{}", rep.current));
            return;
        }
    }
    if got.next().is_some() || !tr.errs().is_empty() {
        rep.fail("values of a test", format!("more outcomes than tests\n{}\n{}", tr.show(), rep.current));
    }
}
fn rep_current(a: &str, b: &str) -> String {
    format!("{a}\n{b}")
}
fn shuffle(v: &mut [String], r: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}

fn directed(rep: &mut Rep) {
    let msg = b"From: \"Doe, J.\" <j.doe+tag@Example.org>\r\nTo: Team: a@b.c, B <b@b.c>;\r\nCc: one@x.org,\r\n Two <two@x.org>\r\nX-N: first\r\nX-N: second\r\n\r\nx";
    for (t, want) in [
        ("address :user \"From\" \"j.doe\"", true),
        ("address :detail \"from\" \"tag\"", true),
        ("address :name \"From\" \"Doe, J.\"", true),
        ("address :domain :comparator \"i;octet\" \"From\" \"example.org\"", false),
        ("address :count \"eq\" [\"To\", \"Cc\"] \"4\"", true),
        ("address :localpart [\"Cc\", \"To\"] \"b\"", true),
        ("header :index 2 \"X-N\" \"second\"", true),
        ("header :index 1 :last \"X-N\" \"second\"", true),
        ("header :index 3 \"X-N\" \"second\"", false),
        ("exists [\"from\", \"TO\"]", true),
        ("exists [\"from\", \"Bcc\"]", false),
    ] {
        let s = format!("if {t} {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}");
        match run::simple(&s, msg) {
            Ok(tr) => {
                rep.ok(t);
                if (tr.marks() == ["y"]) != want {
                    rep.fail("directed", format!("{t}: expected {want}"));
                }
            }
            Err(e) => rep.fail("run", e),
        }
    }
}
