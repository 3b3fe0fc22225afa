//! What `${header...}`, `${part...}` and `${body...}` refer to, in strings and in expressions.
use crate::dates::Dt;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::runtime::Variable;

pub const PROP: Prop = Prop { id: "P31", quick: 740_000, thorough: 6_000_000, directed, case };

#[derive(Clone, Debug)]
enum Text {
    /// a single value, which an index within the field has to be 1 or -1 for
    One(String),
    List(Vec<String>),
    Addr,
    /// whatever the index
    Whole(String),
    None,
}
#[derive(Clone, Debug)]
struct Field {
    name: String,
    canon: String,
    /// what follows the colon
    raw: String,
    text: Text,
    /// for addresses: name, address
    addrs: Option<Vec<(Option<String>, String)>>,
    ids: Option<Vec<String>>,
    date: Option<i64>,
    ctype: Option<(String, String, Vec<(String, String)>)>,
    rcvd: Vec<(&'static str, String)>,
    inserted: bool,
    /// value as text for `header.*`
    line: Option<String>,
}
#[derive(Clone, Debug)]
struct Part {
    fields: Vec<Field>,
    /// decoded and as it is in the message; nothing for a multipart
    body: Option<(String, String)>,
}
#[derive(Clone, Debug, PartialEq)]
enum V {
    S(String),
    I(i64),
    A(Vec<V>),
}
impl V {
    fn text(&self) -> String {
        match self {
            V::S(s) => s.clone(),
            V::I(i) => i.to_string(),
            V::A(l) => {
                let mut o = String::new();
                for x in l {
                    if !o.is_empty() {
                        o += "\r\n";
                    }
                    o += &x.text();
                }
                o
            }
        }
    }
    fn of(v: &Variable) -> V {
        match v {
            Variable::String(s) => V::S(s.to_string()),
            Variable::Integer(i) => V::I(*i),
            Variable::Float(f) => V::S(format!("float {f}")),
            Variable::Array(a) => V::A(a.iter().map(V::of).collect()),
        }
    }
}

const WORDS: &[&str] = &["alpha", "Beta", "42", "x-y", "a.b", "(c)", "\"q\"", "e@f", "1;2", "[g]", "==", "-", "...", "i:j"];
const NAMES: &[&str] = &["Bob", "Ann Lee", "Q, N", "O'Hara", "x.y"];
const MAILS: &[&str] = &["a@b.org", "bob+tag@ex.org", "c.d@sub.ex.org", "u+a+b@h.net", "UP@Case.ORG"];

fn case_of(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        _ => s.to_string(),
    }
}
/// Folds some of the blanks.
fn fold(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    let mut quoted = false;
    for (i, c) in s.char_indices() {
        if c == '"' {
            quoted = !quoted;
        }
        if c == ' ' && i > 0 && !quoted && r.chance(1, 5) {
            o += "\r\n ";
        } else {
            o.push(c);
        }
    }
    o
}
fn unfold(s: &str) -> String {
    s.replace("\r\n ", " ").trim().to_string()
}
fn collapse(s: &str) -> String {
    let mut o = String::new();
    let mut blank = false;
    for c in s.chars() {
        if c.is_ascii_whitespace() {
            blank = true;
        } else {
            if blank {
                o.push(' ');
            }
            blank = false;
            o.push(c);
        }
    }
    o
}
fn list_of(r: &mut Rng, n: usize) -> (String, Vec<(Option<String>, String)>) {
    let mut v = vec![];
    let mut parts = vec![];
    let mut group = r.chance(1, 8);
    let mut text = String::new();
    if group {
        text += "Team: ";
    }
    for i in 0..n {
        let a = r.pick(MAILS).to_string();
        let name = r.chance(1, 2).then(|| r.pick(NAMES).to_string());
        parts.push(match &name {
            Some(n) if n.contains([',', '\'', '.']) || r.chance(1, 3) => format!("\"{n}\" <{a}>"),
            Some(n) => format!("{n} <{a}>"),
            None if r.chance(1, 2) => format!("<{a}>"),
            None => a.clone(),
        });
        v.push((name, a));
        text += parts.last().unwrap();
        if group && (i + 1 == n || r.chance(1, 2)) {
            text.push(';');
            group = false;
            if i + 1 < n {
                text += " ";
                continue;
            }
        }
        if i + 1 < n {
            text += ", ";
        }
    }
    (text, v)
}
fn date(r: &mut Rng) -> Dt {
    let mut d = crate::dates::gen(r);
    d.y = 1971 + r.below(120) as i64;
    d.d = d.d.min(28);
    d.off = *r.pick(&[0, 60, 120, -300, 540, -60]);
    d
}

fn field(r: &mut Rng) -> Field {
    let mut f = Field { name: String::new(), canon: String::new(), raw: String::new(), text: Text::None, addrs: None, ids: None, date: None, ctype: None, rcvd: vec![], inserted: false, line: None };
    let (name, value): (String, String);
    match r.below(17) {
        0..=3 => {
            name = r.pick(&["Subject", "Comments", "X-A", "X-Other"]).to_string();
            let n = 1 + r.below(4);
            if r.chance(1, 6) {
                value = "=?utf-8?q?caf=C3=A9_?= =?utf-8?b?w6nDqQ==?=".into();
                f.text = Text::One("caf\u{e9} \u{e9}\u{e9}".into());
            } else {
                value = (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(" ");
                f.text = Text::One(value.clone());
            }
            let Text::One(t) = &f.text else { unreachable!() };
            f.line = Some(t.clone());
        }
        4..=7 => {
            name = r.pick(&["From", "To", "Cc", "Reply-To", "Sender"]).to_string();
            let n = 1 + r.below(3);
            let (v, l) = list_of(r, n);
            value = v;
            f.text = Text::Addr;
            f.addrs = Some(l);
        }
        8 => {
            name = "X-Addr".to_string();
            let n = 1 + r.below(3);
            let (v, l) = list_of(r, n);
            f.text = Text::One(v.clone());
            f.line = Some(v.clone());
            value = v;
            f.addrs = Some(l);
        }
        9 => {
            name = "Keywords".to_string();
            let n = 1 + r.below(4);
            let l: Vec<String> = (0..n).map(|_| r.pick(&["alpha", "Beta", "two words", "42", "x-y"]).to_string()).collect();
            value = l.join(", ");
            if n == 1 {
                f.line = Some(value.clone());
                f.text = Text::One(value.clone());
            } else {
                f.text = Text::List(l);
            }
        }
        10 | 11 => {
            let n = 1 + r.below(3);
            name = r.pick(&["Message-ID", "Resent-Message-ID", "References", "In-Reply-To", "X-Ids"]).to_string();
            let l: Vec<String> = (0..n).map(|_| format!("id{}@{}", r.below(100), r.pick(&["x.org", "y.z.net"]))).collect();
            let l = if name.ends_with("Message-ID") { l[..1].to_vec() } else { l };
            value = l.iter().map(|i| format!("<{i}>")).collect::<Vec<_>>().join(" ");
            if name == "X-Ids" {
                f.text = Text::One(value.clone());
                f.line = Some(value.clone());
                f.ids = Some(l);
            } else {
                if name.ends_with("Message-ID") {
                    f.ids = Some(l.clone());
                }
                if l.len() == 1 {
                    f.line = Some(l[0].clone());
                    f.text = Text::One(l[0].clone());
                } else {
                    f.text = Text::List(l);
                }
            }
        }
        12 | 13 => {
            let d = date(r);
            value = d.part("std11");
            f.date = Some(d.utc());
            name = r.pick(&["Date", "Resent-Date", "X-Date"]).to_string();
            f.text = if name == "X-Date" { Text::One(value.clone()) } else { Text::Whole(value.clone()) };
            if name == "X-Date" {
                f.line = Some(value.clone());
            }
        }
        14 => {
            name = r.pick(&["X-Empty", "X-A"]).to_string();
            value = String::new();
        }
        _ => {
            name = "Received".to_string();
            let d = date(r);
            let host = *r.pick(&["mail.example.org", "relay.x.net", "mail.example.org", "[192.0.2.77]"]);
            let from = host.trim_matches(['[', ']']);
            let lit = host != from;
            let rev = *r.pick(&["rev.example.org", ""]);
            let ip = *r.pick(&["192.0.2.1", "10.1.2.3"]);
            let by = *r.pick(&["mx.example.net", "in.y.org"]);
            let with = *r.pick(&["ESMTP", "ESMTPS", "SMTP"]);
            let id = *r.pick(&["abc123", "Q7x"]);
            let to = *r.pick(&["u@x.org", "me@example.org"]);
            let via = *r.pick(&["", "", "TCP", "uucp"]);
            let mut v = format!("from {host} ({}[{ip}]) by {by} {}with {with} id {id}", if rev.is_empty() { String::new() } else { format!("{rev} ") }, if via.is_empty() { String::new() } else { format!("via {via} ") });
            f.rcvd = vec![("from", from.into()), ("from.name", if lit { String::new() } else { from.into() }), ("from.ip", if lit { from.into() } else { String::new() }), ("ip", ip.into()), ("iprev", rev.into()), ("by", by.into()), ("by.name", by.into()), ("by.ip", String::new()), ("with", with.into()), ("id", id.into()), ("tls", String::new()), ("cipher", String::new()), ("ident", String::new())];
            if r.chance(2, 3) {
                v += &format!(" for <{to}>");
                f.rcvd.push(("for", to.into()));
            } else {
                f.rcvd.push(("for", String::new()));
            }
            v += &format!("; {}", d.part("std11"));
            f.rcvd.push(("date.raw", d.part("std11")));
            f.rcvd.push(("date", d.utc().to_string()));
            value = v;
        }
    }
    let folded = if value.starts_with("=?") { value.clone() } else if name == "Received" {
        // mail-parser misreads values and dates that come after a fold
        let at = *r.pick(&[" by", " with", " for", "none"]);
        value.replacen(at, &format!("\r\n{at}"), 1)
    } else {
        fold(r, &value)
    };
    f.raw = format!("{}{folded}", if value.is_empty() { "" } else { *r.pick(&[" ", "  ", "", " "]) });
    // fields that mail-parser does not know are not decoded, and dates are given as they were sent
    let sent = f.raw.trim().to_string();
    if name.starts_with("X-") && !value.is_empty() {
        f.text = Text::One(sent.clone());
        f.line = Some(sent.clone());
    }
    if let Text::Whole(t) = &mut f.text {
        *t = sent;
    }
    if f.line.is_none() && !matches!(f.text, Text::None) || name == "Received" {
        f.line = Some(unfold(&f.raw));
    }
    f.name = if name.starts_with("X-") { name.clone() } else { case_of(r, &name) };
    f.canon = name;
    f
}

fn leaf(r: &mut Rng, top: bool) -> (Part, String) {
    let mut fields: Vec<Field> = (0..r.below(if top { 8 } else { 3 })).map(|_| field(r)).collect();
    let texts = ["hello", "two words", "caf\u{e9}", "<p>Hi <b>you</b></p>", "a & b", "", "l1\r\nl2"];
    let text = r.pick(&texts).to_string();
    let kind = if top { r.below(3) } else { 1 + r.below(4) };
    let mut raw = text.clone();
    let mut ct = None;
    match kind {
        0 => (),
        1 | 2 => {
            let sub = if kind == 1 { "plain" } else { "html" };
            let mut at = vec![("charset".to_string(), "utf-8".to_string())];
            if r.chance(1, 2) {
                at.push(("name".into(), r.pick(&["f.txt", "a b.txt"]).to_string()));
            }
            ct = Some(("text".to_string(), sub.to_string(), at));
        }
        3 => ct = Some(("image".into(), "png".into(), vec![("name".into(), "x.png".into())])),
        _ => ct = Some(("text".into(), "plain".into(), vec![("charset".into(), "utf-8".into())])),
    }
    let mut enc = String::new();
    if kind >= 3 || r.chance(1, 3) && !text.is_empty() {
        raw = b64(text.as_bytes());
        enc = "Content-Transfer-Encoding: base64\r\n".into();
    }
    if let Some(ct) = ct {
        let at = r.below(fields.len() + 1);
        fields.insert(at, ctype(r, ct));
    }
    let mut head = String::new();
    for f in &fields {
        head += &format!("{}:{}\r\n", f.name, f.raw);
    }
    if !enc.is_empty() {
        head += &enc;
        fields.push(Field { name: "Content-Transfer-Encoding".into(), canon: "Content-Transfer-Encoding".into(), raw: " base64".into(), text: Text::One("base64".into()), addrs: None, ids: None, date: None, ctype: None, rcvd: vec![], inserted: false, line: Some("base64".into()) });
    }
    (Part { fields, body: Some((text, raw.clone())) }, format!("{head}\r\n{raw}"))
}
fn ctype(r: &mut Rng, ct: (String, String, Vec<(String, String)>)) -> Field {
    let mut raw = format!(" {}/{}", ct.0, ct.1);
    for (n, v) in &ct.2 {
        let q = v.contains([' ', '=', '/']) || r.chance(1, 3);
        raw += &if q { format!("; {n}=\"{v}\"") } else { format!("; {n}={v}") };
    }
    let raw = fold(r, &raw);
    let name = case_of(r, "Content-Type");
    Field { name, canon: "Content-Type".into(), line: Some(unfold(&raw)), raw, text: Text::Whole(format!("{}/{}", ct.0, ct.1)), addrs: None, ids: None, date: None, ctype: Some(ct), rcvd: vec![], inserted: false }
}
fn b64(s: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in s.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}

fn message(r: &mut Rng) -> (Vec<Part>, String) {
    if r.chance(1, 2) {
        let (mut p, mut m) = leaf(r, true);
        // a message always has a field
        if p.fields.is_empty() {
            m = format!("X-A: first\r\n{m}");
            p.fields.push(Field { name: "X-A".into(), canon: "X-A".into(), raw: " first".into(), text: Text::One("first".into()), addrs: None, ids: None, date: None, ctype: None, rcvd: vec![], inserted: false, line: Some("first".into()) });
        }
        return (vec![p], m);
    }
    // many fields, in some messages most of them of one name
    let n = if r.chance(1, 40) { 60 + r.below(240) } else { r.below(6) };
    let mut fields: Vec<Field> = (0..n).map(|_| field(r)).collect();
    if n >= 60 && r.chance(1, 2) {
        let base = fields[0].clone();
        let of = 1 + r.below(8);
        for i in 1..n {
            if r.below(of + 1) < of {
                fields[i] = if r.chance(1, 2) { base.clone() } else { let j = r.below(i); fields[j].clone() };
            }
        }
    }
    let sub = *r.pick(&["mixed", "alternative", "related"]);
    let at = r.below(fields.len() + 1);
    fields.insert(at, ctype(r, ("multipart".into(), sub.into(), vec![("boundary".into(), "BB".into())])));
    let mut m = String::new();
    for f in &fields {
        m += &format!("{}:{}\r\n", f.name, f.raw);
    }
    m += "\r\n";
    let mut parts = vec![Part { fields, body: None }];
    for _ in 0..1 + r.below(3) {
        let (p, t) = leaf(r, false);
        parts.push(p);
        m += &format!("--BB\r\n{t}\r\n");
    }
    m += "--BB--\r\n";
    (parts, m)
}

fn addr_part(p: &str, a: &(Option<String>, String)) -> Option<String> {
    let (local, domain) = a.1.rsplit_once('@').unwrap();
    match p {
        "name" => a.0.clone(),
        "addr" => Some(a.1.clone()),
        "local" => Some(local.to_string()),
        "domain" => Some(domain.to_string()),
        "user" => Some(local.split('+').next().unwrap().to_string()),
        "detail" => local.rsplit_once('+').map(|x| x.1.to_string()),
        _ => unreachable!(),
    }
}
fn nth<T: Clone>(l: &[T], i: i64) -> Option<T> {
    if i > 0 {
        l.get(i as usize - 1).cloned()
    } else {
        l.len().checked_sub(i.unsigned_abs() as usize).map(|k| l[k].clone())
    }
}

/// Adds the values of one field; false where the reference does not define them.
fn values(f: &Field, part: &str, ip: i64, out: &mut Vec<V>) -> bool {
    let one = |s: Option<String>| V::S(s.unwrap_or_default());
    match part {
        "text" => match &f.text {
            Text::One(s) => out.push(one([-1, 0, 1].contains(&ip).then(|| s.clone()))),
            Text::List(l) if ip == 0 => out.extend(l.iter().cloned().map(V::S)),
            Text::List(l) => out.push(one(nth(l, ip))),
            Text::Addr => {
                let l: Vec<String> = f.addrs.as_ref().unwrap().iter().map(|(n, a)| n.as_ref().map_or(format!("<{a}>"), |n| format!("{n} <{a}>"))).collect();
                if ip == 0 {
                    out.extend(l.into_iter().map(V::S));
                } else {
                    out.push(one(nth(&l, ip)));
                }
            }
            Text::Whole(s) => out.push(V::S(s.clone())),
            Text::None => out.push(V::S(String::new())),
        },
        "name" | "addr" | "local" | "domain" | "user" | "detail" => {
            let Some(l) = f.addrs.as_ref().filter(|_| !f.inserted) else { return false };
            if ip == 0 {
                out.extend(l.iter().map(|a| one(addr_part(part, a))));
            } else {
                out.push(one(nth(l, ip).and_then(|a| addr_part(part, &a))));
            }
        }
        "date" => match f.date {
            Some(d) if !f.inserted => out.push(V::I(d)),
            _ => return false,
        },
        "id" => {
            let Some(l) = f.ids.as_ref().filter(|_| !f.inserted) else { return false };
            // the index does not matter
            out.extend(l.iter().cloned().map(V::S));
        }
        "raw" => out.push(V::S(collapse(&f.raw))),
        "raw_name" => out.push(V::S(f.name.clone())),
        "exists" => out.push(V::I(1)),
        "type" => out.push(one(f.ctype.as_ref().map(|c| c.0.clone()))),
        "subtype" => out.push(one(f.ctype.as_ref().map(|c| c.1.clone()))),
        p => {
            if let Some(a) = p.strip_prefix("attr.") {
                out.push(one(f.ctype.as_ref().and_then(|c| c.2.iter().find(|x| x.0.eq_ignore_ascii_case(a)).map(|x| x.1.clone()))));
            } else if let Some(a) = p.strip_prefix("rcvd.") {
                let v = f.rcvd.iter().find(|x| x.0 == a).map(|x| x.1.clone());
                out.push(match v {
                    Some(v) if a == "date" => V::I(v.parse().unwrap()),
                    Some(v) => V::S(v),
                    None if f.rcvd.is_empty() => V::S(String::new()),
                    None => return false,
                });
            } else {
                unreachable!("{p}");
            }
        }
    }
    true
}

/// Nothing: not defined by the reference.
fn header(p: &Part, names: &[String], part: &str, ih: i64, ip: i64) -> Option<V> {
    let mut out = vec![];
    if names.is_empty() {
        for f in &p.fields {
            match part {
                "text" => match &f.line {
                    Some(l) => out.push(V::S(format!("{}: {l}", f.canon))),
                    // empty
                    None => (),
                },
                "raw" if f.inserted => out.push(V::S(format!("{}: {}", f.name, f.raw))),
                "raw" => out.push(V::S(collapse(&format!("{}:{}", f.name, f.raw)))),
                _ => {
                    if !values(f, part, 0, &mut out) {
                        return None;
                    }
                }
            }
        }
        return Some(if out.is_empty() { V::S(String::new()) } else { V::A(out) });
    }
    let of: Vec<&Field> = p.fields.iter().filter(|f| names.iter().any(|n| n.eq_ignore_ascii_case(&f.name))).collect();
    let of = if ih == 0 { of } else { nth(&of, ih).into_iter().collect() };
    for f in of {
        if !values(f, part, ip, &mut out) {
            return None;
        }
    }
    Some(match out.len() {
        0 => V::S(String::new()),
        1 if ih != 0 && ip != 0 => out.pop().unwrap(),
        _ => V::A(out),
    })
}

const POOL: &[&str] = &["Subject", "Comments", "X-A", "X-Other", "From", "To", "Cc", "Reply-To", "Sender", "X-Addr", "Keywords", "Message-ID", "Resent-Message-ID", "References", "In-Reply-To", "X-Ids", "Date", "Resent-Date", "X-Date", "X-Empty", "Received", "Content-Type", "X-Nope", "Content-Transfer-Encoding"];

struct Query {
    text: String,
    names: Vec<String>,
    part: String,
    ih: i64,
    ip: i64,
    /// instead of a header field
    other: Option<&'static str>,
    string: bool,
}

fn query(r: &mut Rng, present: &[String]) -> Query {
    let string = r.chance(1, 2);
    if r.chance(1, 8) {
        let o = *r.pick(&["part.text", "part.raw", "body.text", "body.html", "body.to_text", "body.to_html"]);
        return Query { text: o.into(), names: vec![], part: String::new(), ih: 0, ip: 0, other: Some(o), string };
    }
    let mut names: Vec<String> = (0..1 + r.below(3).saturating_sub(1)).map(|_| r.pick(POOL).to_string()).collect();
    let mut part: String = match r.below(14) {
        0..=3 => "text".into(),
        4 | 5 => r.pick(&["name", "addr", "local", "domain", "user", "detail"]).to_string(),
        6 => "date".into(),
        7 => "id".into(),
        8 => "raw".into(),
        9 => "raw_name".into(),
        10 => "exists".into(),
        11 => r.pick(&["type", "subtype", "attr.charset", "attr.NAME", "attr.boundary", "attr.x"]).to_string(),
        _ => format!("rcvd.{}", r.pick(&["from", "from.name", "from.ip", "ip", "iprev", "by", "by.name", "by.ip", "for", "with", "id", "tls", "cipher", "ident", "date", "date.raw"])),
    };
    // names that have such a part
    let fit: &[&str] = match part.as_str() {
        "name" | "addr" | "local" | "domain" | "user" | "detail" => &["From", "To", "Cc", "X-Addr", "Sender", "Reply-To"],
        "date" => &["Date", "X-Date", "Resent-Date"],
        "id" => &["Message-ID", "Resent-Message-ID", "X-Ids"],
        p if p.starts_with("rcvd") => &["Received"],
        "type" | "subtype" => &["Content-Type"],
        p if p.starts_with("attr") => &["Content-Type"],
        _ => POOL,
    };
    for n in names.iter_mut() {
        if r.chance(5, 6) {
            let there: Vec<&String> = present.iter().filter(|p| fit.iter().any(|f| f == p)).collect();
            *n = if !there.is_empty() && r.chance(4, 5) { r.pick(&there).to_string() } else { r.pick(fit).to_string() };
        }
    }
    if r.chance(1, 8) {
        names.clear();
        part = r.pick(&["text", "raw", "raw_name", "exists"]).to_string();
    }
    let shown = match part.as_str() {
        "local" | "domain" | "user" | "detail" => format!("addr.addr.{part}"),
        p => p.to_string(),
    };
    let mut index = |deep: bool| -> (String, i64) {
        match r.below(if deep { 6 } else { 5 }) {
            0 | 1 => (String::new(), -1),
            2 => ("*".into(), 0),
            3 => {
                let i = *r.pick(&[1, 1, 2, 3, 0, 9]);
                (i.to_string(), if i == 0 { 1 } else { i })
            }
            _ => {
                let i = -*r.pick(&[1, 1, 2, 3, 9]);
                (i.to_string(), i)
            }
        }
    };
    let (mut th, mut ih) = index(false);
    let (mut tp, mut ip) = index(true);
    let bare = part == "text" && r.chance(1, 2);
    if names.is_empty() {
        (th, ih, tp, ip) = (String::new(), 0, String::new(), 0);
    } else if bare && th.is_empty() {
        // an index without a part belongs to the field
        (tp, ip) = (String::new(), -1);
    }
    let brackets = |s: &str| if s.is_empty() { String::new() } else { format!("[{s}]") };
    let hdr = if names.is_empty() { "*".to_string() } else { names.iter().map(|n| case_of(r, n)).collect::<Vec<_>>().join(":") };
    let text = format!("header.{hdr}{}{}{}", brackets(&th), if bare { String::new() } else { format!(".{shown}") }, brackets(&tp));
    Query { text, names, part, ih, ip, other: None, string }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let (mut parts, msg) = message(r);
    if !run::parses(msg.as_bytes()) {
        rep.trivial();
        return;
    }
    // edits
    let mut script = String::from("require [\"variables\", \"vnd.stalwart.expressions\", \"editheader\", \"foreverypart\"];\nset \"v\" \"\";\n");
    let rt = run::runtime().with_cpu_limit(100_000).with_max_variable_size(1 << 20);
    let edits = |r: &mut Rng, script: &mut String, parts: &mut [Part], at: &[usize]| {
        for _ in 0..r.below(3) {
            let name = r.pick(&["X-A", "X-New", "Subject", "Comments", "x-other"]).to_string();
            if r.chance(2, 3) {
                let last = r.chance(1, 2);
                let value = format!("new{} v", r.below(9));
                *script += &format!("addheader {}\"{name}\" \"{value}\";\n", if last { ":last " } else { "" });
                for p in at {
                    let f = Field { name: name.clone(), canon: name.clone(), raw: value.clone(), text: Text::One(value.clone()), addrs: None, ids: None, date: None, ctype: None, rcvd: vec![], inserted: true, line: Some(value.clone()) };
                    let l = &mut parts[*p].fields;
                    l.insert(if last { l.len() } else { 0 }, f);
                }
            } else {
                *script += &format!("deleteheader \"{name}\";\n");
                for p in at {
                    parts[*p].fields.retain(|f| !f.name.eq_ignore_ascii_case(&name));
                }
            }
        }
    };
    if r.chance(1, 3) {
        edits(r, &mut script, &mut parts, &[0]);
    }
    let in_parts = parts.len() > 1 && r.chance(1, 2);
    let at: Vec<usize> = if in_parts { (0..parts.len()).collect() } else { vec![0] };
    if in_parts {
        script += "foreverypart {\n";
        if r.chance(1, 3) {
            edits(r, &mut script, &mut parts, &at);
        }
    }
    let present: Vec<String> = parts.iter().flat_map(|p| p.fields.iter().map(|f| f.canon.clone())).collect();
    let qs: Vec<Query> = (0..6).map(|_| query(r, &present)).collect();
    for (i, q) in qs.iter().enumerate() {
        if q.string {
            script += &format!("set \"v\" \"a${{{}}}b\"; eval \"t2('{i}', v)\";\n", q.text);
        } else {
            script += &format!("eval \"t2('{i}', {})\";\n", q.text);
        }
    }
    if in_parts {
        script += "}\n";
    }
    let shown = format!("{script}----\n{msg}");
    rep.current = shown.clone();
    let tr = match run::simple_with(&script, msg.as_bytes(), &rt, |_| (), &mut run::default_answer) {
        Ok(t) => t,
        Err(e) => return rep.fail("refused or broken", format!("{e}\n{shown}")),
    };
    let calls = tr.calls(run::T2);
    if calls.len() != qs.len() * at.len() {
        return rep.fail("questions are missing", format!("{} of {}\n{shown}", calls.len(), qs.len() * at.len()));
    }
    for (k, c) in calls.iter().enumerate() {
        let (q, p) = (&qs[k % qs.len()], &parts[at[k / qs.len()]]);
        if c[0].to_string() != (k % qs.len()).to_string() {
            return rep.fail("wrong order", shown);
        }
        let want = match q.other {
            Some(o) => body(o, p, &parts, msg.as_bytes()),
            None => header(p, &q.names, &q.part, q.ih, q.ip),
        };
        let Some(want) = want else { continue };
        rep.ok(&(&q.text, q.string, &want.text(), &msg));
        rep.cover(match q.other {
            Some(o) => o,
            None if q.names.is_empty() => "all fields",
            None => match q.part.as_str() {
                "text" => "text",
                "name" | "addr" | "local" | "domain" | "user" | "detail" => "address",
                "date" => "date",
                "id" => "message id",
                "raw" => "raw value",
                "raw_name" => "raw name",
                "exists" => "exists",
                p if p.starts_with("rcvd") => "received",
                _ => "content type",
            },
        });
        if want.text().is_empty() {
            rep.cover("nothing there");
        }
        if let V::A(l) = &want {
            if l.len() > 1 {
                rep.cover("several values");
            }
        }
        if in_parts {
            rep.cover("within a part");
        }
        let got = V::of(&c[1]);
        let ok = if q.string { got.text() == format!("a{}b", want.text()) } else { got == want };
        if !ok {
            rep.fail("another value", format!("{}: {got:?} instead of {want:?} (part {})\n{shown}", q.text, at[k / qs.len()]));
            return;
        }
    }
    rep.sample(|| shown.clone());
}

fn body(o: &str, p: &Part, parts: &[Part], msg: &[u8]) -> Option<V> {
    let s = |s: String| Some(V::S(s));
    let first = |html: bool| -> Option<usize> {
        let m = mail_parser::MessageParser::new().parse(msg)?;
        let l = if html { &m.html_body } else { &m.text_body };
        l.first().map(|i| *i as usize)
    };
    let is_html = |p: &Part| p.fields.iter().any(|f| f.ctype.as_ref().is_some_and(|c| c.1 == "html"));
    match o {
        "part.text" => s(p.body.as_ref().map(|b| b.0.clone()).unwrap_or_default()),
        "part.raw" => p.body.as_ref().map(|b| V::S(b.1.clone())),
        _ => {
            let html = o.contains("html");
            let Some(i) = first(html) else { return s(String::new()) };
            let q = &parts[i];
            let Some((text, _)) = &q.body else { return s(String::new()) };
            // not a text
            if q.fields.iter().any(|f| f.ctype.as_ref().is_some_and(|c| c.0 != "text")) {
                return s(String::new());
            }
            s(match (is_html(q), html) {
                (true, true) | (false, false) => text.clone(),
                _ if !o.contains("to_") => String::new(),
                (true, false) => mail_parser::decoders::html::html_to_text(text),
                (false, true) => mail_parser::decoders::html::text_to_html(text),
            })
        }
    }
}

fn directed(rep: &mut Rep) {
    let msg = b"Subject: one\r\nTo: A <a@b.org>, c@d.org\r\nX-A: first\r\nX-A: second\r\n\r\nbody\r\n";
    let bad = ["header.", "header.to.nope", "header.to[x]", "header.to.addr[y]", "header.to.attr", "body.raw", "part.html", "part.x", "header.to.addr.nope", "header.to.rcvd.nope", "header.*x", "header.x*y.raw[1"];
    for b in bad {
        rep.ok(b);
        let s = format!("require [\"vnd.stalwart.expressions\"]; eval \"t({b})\";");
        if run::compile(&run::compiler(), &s).is_ok() && b != "header.x*y.raw[1" {
            rep.fail("accepted", s);
        }
    }
    let table = [("header.x-a", "second"), ("header.x-a[1]", "first"), ("header.x-a[0]", "first"), ("header.x-a[-2]", "first"), ("header.x-a[*]", "first\r\nsecond"), ("header.to", "<c@d.org>"), ("header.to[1][1]", "A <a@b.org>"), ("header.to[*].addr[*]", "a@b.org\r\nc@d.org"), ("header.subject:x-a[*]", "one\r\nfirst\r\nsecond"), ("body.text", "body\r\n")];
    for (q, w) in table {
        let s = format!("require [\"vnd.stalwart.expressions\",\"variables\"]; eval \"t({q})\"; set \"v\" \"${{{q}}}\"; eval \"t(v)\";");
        rep.ok(&s);
        match run::simple(&s, msg) {
            Ok(t) if t.marks() == [w, w] => (),
            Ok(t) => rep.fail("directed", format!("{q}: {:?} instead of {w:?}", t.marks())),
            Err(e) => rep.fail("directed", format!("{q}: {e}")),
        }
    }
}
