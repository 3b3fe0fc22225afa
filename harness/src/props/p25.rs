//! notify: which notifications are made, to whom, and the bytes of messages sent for them.
use crate::gen::quote;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::compiler::grammar::actions::action_redirect::{ByTime, Notify, Ret};
use sieve::{Event, Importance, Input, Recipient};
use std::time::{SystemTime, UNIX_EPOCH};

pub const PROP: Prop = Prop { id: "P25", quick: 1_800_000, thorough: 12_000_000, directed, case };

/// Percent-encodes the bytes that need it (`must`) and some others.
fn enc(r: &mut Rng, s: &str, must: &dyn Fn(u8) -> bool, often: bool) -> String {
    let mut o: Vec<u8> = vec![];
    for b in s.bytes() {
        if must(b) || often && r.chance(1, 8) {
            o.extend(if r.chance(1, 2) { format!("%{b:02X}") } else { format!("%{b:02x}") }.bytes());
        } else {
            o.push(b);
        }
    }
    // an encoded byte in the middle of a character
    match String::from_utf8(o) {
        Ok(s) => s,
        Err(_) => s.bytes().map(|b| format!("%{b:02X}")).collect(),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Uri {
    to: Vec<String>,
    cc: Vec<String>,
    bcc: Vec<String>,
    headers: Vec<(String, String)>,
    body: Option<String>,
}
impl Uri {
    fn add(&mut self, k: usize, a: &str) {
        if self.to.iter().chain(&self.cc).chain(&self.bcc).any(|x| x.eq_ignore_ascii_case(a)) {
            return;
        }
        [&mut self.to, &mut self.cc, &mut self.bcc][k].push(a.into());
    }
}
const ADDRS: &[&str] = &["a@b.org", "c@d.net", "A@B.org", "Joe Q <joe@x.org>", "<k@x.org>", "o'neil+tag@x-y.org", "e@f.com", "\"q\" <g@h.org>", "\u{e9}t\u{e9}@x.org"];

fn addr(r: &mut Rng, a: &str) -> String {
    let often = r.chance(1, 3);
    // an encoded comma would separate addresses
    enc(r, a, &|b| b"%?&# \"".contains(&b), often)
}

pub fn mailto(r: &mut Rng) -> (String, Uri) {
    let mut u = Uri::default();
    let mut t = String::new();
    let path = r.chance(4, 5);
    if path {
        for i in 0..1 + r.below(3) {
            let a = *r.pick(ADDRS);
            if i > 0 {
                t += r.pick(&[",", "%2C", "%2c"]);
            }
            t += &addr(r, a);
            u.add(0, a);
        }
    }
    let mut hs = vec![];
    let mut n = r.below(4);
    if !path {
        n += 1;
    }
    for i in 0..n {
        let kind = if !path && i == 0 { 0 } else { r.below(10) };
        let name = |r: &mut Rng, s: &str| match r.below(4) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            2 => {
                let c = s.as_bytes()[0];
                format!("%{c:02x}{}", &s[1..])
            }
            _ => s.to_string(),
        };
        match kind {
            0..=2 => {
                let k = if !path && i == 0 { 0 } else { r.below(3) };
                let mut v = vec![];
                for _ in 0..1 + r.below(2) {
                    let a = *r.pick(ADDRS);
                    v.push(addr(r, a));
                    u.add(k, a);
                }
                hs.push(format!("{}={}", name(r, ["To", "Cc", "Bcc"][k]), v.join(r.pick(&[",", "%2C"]))));
            }
            k => {
                let (h, v) = match k {
                    3 | 4 => ("Subject", *r.pick(&["Hello there", "a\r\nX-Evil: b", "1&2=3?", "", "\u{e9}t\u{e9}", "x,y@z%"])),
                    5 => ("Body", *r.pick(&["It is\r\nhere & now", "", "\u{e9}", "a=b"])),
                    6 => ("X-Foo", *r.pick(&["bar", "a\r\nX-Evil: b", "", "x y"])),
                    7 => ("Reply-To", *r.pick(&["me@x.org", "Me <me@x.org>"])),
                    8 => ("From", "evil@x.org"),
                    _ => *r.pick(&[("Date", "then"), ("Message-ID", "<mine@x>"), ("Comments", "c"), ("X Y", "bad name"), ("X:Y", "bad name")]),
                };
                let n = enc(r, h, &|b| b" :".contains(&b), false);
                let n = if h == "X-Foo" { n } else { name(r, &n) };
                let t = enc(r, v, &|b| b"%&# \r\n".contains(&b), true);
                // white space as such is not part of the value
                let t = if r.chance(1, 8) { format!(" {t}") } else { t };
                hs.push(format!("{n}={t}"));
                if v.is_empty() || h.contains([' ', ':']) {
                } else if h == "Body" {
                    u.body = Some(v.into());
                } else {
                    u.headers.push((h.into(), v.into()));
                }
            }
        }
    }
    if !hs.is_empty() {
        t += &format!("?{}", hs.join("&"));
    } else if r.chance(1, 10) {
        t.push('?');
    }
    (format!("{}{t}", r.pick(&["mailto:", "mailto:", "MailTo:"])), u)
}
pub const BAD: &[&str] = &[
    "", "mailto", "mailto:", "mailto:?", "mailto:a", "mailto:a@b@c.d", "mailto:a@b.c%", "mailto:a@b.c%4", "mailto:a@b.c%zz", "mailto:a@b.c?x y=z", "mailto:a@b.c?=z", "mailto:a@b.c?&subject=x", "mailto:?subject=x", "mailto:@b.c", "mailto:a@b.c,d",
    "mailto:,a@b.c", "mailto:a@b.c%0d%0a", "mailto:a@b.c%0A", "mailto:%ff@b.c", "mailto:a@b.c?subject=%ff", "mailto:a%40b%40c", "mailto:a&b@c.d", "mailto:a=@c.d", "mailto:a@b.c?subject", "mailto:a@b.c?to=x&subject=y", "mailto:?cc=x",
    "mailto:a@b.c,x%2Cy@d.e", "mailto:a@b.c%2Cx", "mailto:a@b.c%2cx%2Cd@e.f", "mailto:a@b.c,x,y@d.e", "mailto:a@b.c%2Cx?subject=y", "mailto:a@b.c?cc=x%2Cy@d.e", "mailto:a@b.c?cc=d@e.f%2Cg", "mailto:a@b.c?bcc=d@e.f,g&body=x", "mailto:%2Ca@b.c", "mailto:a@b.c?to=x@y@z.w", "mailto:a@b.c,x%40y%40z.w",
];

#[derive(Clone, Debug)]
enum Method {
    Mail(String, Uri),
    Other(String),
    Bad(String),
}
#[derive(Clone, Debug)]
struct N {
    method: Method,
    var: bool,
    from: Option<String>,
    importance: Option<String>,
    options: Vec<String>,
    message: Option<String>,
    fcc: Option<(String, bool, Vec<String>, Option<String>, Option<String>)>,
}
#[derive(Clone, Debug)]
enum S {
    Not(N),
    Add(&'static str, String, bool),
    Del(&'static str),
}

fn gen(r: &mut Rng) -> N {
    let method = match r.below(8) {
        0 | 1 => Method::Other(r.pick(&["xmpp:a@b.c", "tel:+123", "https://x.y/z?a=b", "http:x"]).to_string()),
        2 => Method::Bad(r.pick(&BAD.iter().filter(|b| !["mailto:a@b.c?subject"].contains(b)).collect::<Vec<_>>()).to_string()),
        _ => {
            let (t, u) = mailto(r);
            Method::Mail(t, u)
        }
    };
    let var = matches!(method, Method::Bad(_)) || r.chance(1, 4);
    N {
        method,
        var,
        from: if r.chance(1, 3) { Some(r.pick(&["me@example.org", "Boss <boss@example.org>", "\"Me\" <ME@example.ORG>", "x@y.z"]).to_string()) } else { None },
        importance: if r.chance(1, 3) { Some(r.pick(&["1", "2", "3", "4", ""]).to_string()) } else { None },
        options: if r.chance(1, 4) { (0..1 + r.below(2)).map(|_| r.pick(&["a=b", "", "\u{e9}"]).to_string()).collect() } else { vec![] },
        message: if r.chance(1, 3) {
            Some(match r.below(4) {
                0 => r.pick(&["x", "\u{e9}"]).repeat(250 + r.below(12)),
                _ => r.pick(&["You got mail", "", "a\r\nX-Evil: b", "line\nline"]).to_string(),
            })
        } else {
            None
        },
        fcc: if r.chance(1, 4) {
            Some((
                r.pick(&["Sent", "INBOX.x"]).to_string(),
                r.chance(1, 2),
                (0..r.below(3)).map(|i| ["\\Seen", "\\Flagged", "$x"][i].to_string()).collect(),
                if r.chance(1, 3) { Some("m1".into()) } else { None },
                if r.chance(1, 3) { Some("\\Sent".into()) } else { None },
            ))
        } else {
            None
        },
    }
}
fn st(r: &mut Rng, pre: &mut String, n: &mut usize, s: &str, var: bool) -> String {
    if var || r.chance(1, 6) {
        *n += 1;
        *pre += &format!("set \"v{n}\" {};\n", quote(s));
        format!("\"${{v{n}}}\"")
    } else {
        quote(s)
    }
}
fn print(r: &mut Rng, v: &N, n: &mut usize) -> (String, String) {
    let mut p = String::new();
    let mut a = vec![];
    for (t, x) in [(":message", &v.message), (":from", &v.from), (":importance", &v.importance)] {
        if let Some(x) = x {
            a.push(format!("{t} {}", st(r, &mut p, n, x, false)));
        }
    }
    let list = |r: &mut Rng, p: &mut String, n: &mut usize, v: &[String]| format!("[{}]", v.iter().map(|s| st(r, p, n, s, false)).collect::<Vec<_>>().join(", "));
    if !v.options.is_empty() {
        a.push(format!(":options {}", list(r, &mut p, n, &v.options)));
    }
    if let Some((m, create, flags, id, special)) = &v.fcc {
        a.push(format!(":fcc {}", st(r, &mut p, n, m, false)));
        if *create {
            a.push(":create".into());
        }
        if !flags.is_empty() {
            a.push(format!(":flags {}", list(r, &mut p, n, flags)));
        }
        if let Some(i) = id {
            a.push(format!(":mailboxid {}", st(r, &mut p, n, i, false)));
        }
        if let Some(i) = special {
            a.push(format!(":specialuse {}", st(r, &mut p, n, i, false)));
        }
    }
    crate::ask::shuffle(&mut a, r);
    let m = match &v.method {
        Method::Mail(t, _) | Method::Other(t) | Method::Bad(t) => st(r, &mut p, n, t, v.var),
    };
    (p, format!("notify {} {m};", a.join(" ")))
}
fn clean(s: &str) -> String {
    s.chars().filter(|c| !"\r\n".contains(*c)).collect()
}
struct Cfg {
    user: String,
    name: String,
    max_out: usize,
}
fn message(v: &N, u: &Uri, c: &Cfg, subject: &str, alt: bool) -> String {
    let user = if c.name.is_empty() {
        c.user.clone()
    } else {
        let e: String = c.name.chars().flat_map(|c| if "\"\\".contains(c) { vec!['\\', c] } else { vec![c] }).collect();
        format!("\"{e}\" <{}>", c.user)
    };
    let from = match &v.from {
        Some(f) if f.to_lowercase().contains(&c.user.to_lowercase()) => f.clone(),
        _ => user,
    };
    let mut o = format!("From: {}\r\n", clean(&from));
    for (n, v) in [("To", &u.to), ("Cc", &u.cc)] {
        if !v.is_empty() {
            let v: Vec<String> = v.iter().map(|a| if a.contains('<') { a.clone() } else { format!("<{a}>") }).collect();
            o += &format!("{n}: {}\r\n", v.join(", "));
        }
    }
    for (n, v) in &u.headers {
        if !["Subject", "From"].contains(&n.as_str()) {
            o += &format!("{n}: {}\r\n", clean(v));
        }
    }
    for (n, g) in [("Date", "now"), ("Message-ID", "ID")] {
        if !u.headers.iter().any(|x| x.0 == n) {
            o += &format!("{n}: {g}\r\n");
        }
    }
    o += match v.importance.as_deref() {
        Some("1") => "Importance: High\r\nX-Priority: 1 (High)\r\n",
        Some("3") => "Importance: Low\r\nX-Priority: 5 (Low)\r\n",
        _ => "Importance: Normal\r\nX-Priority: 3 (Normal)\r\n",
    };
    let s = match u.headers.iter().rev().find(|x| x.0 == "Subject") {
        Some((_, s)) => s.as_str(),
        None => v.message.as_deref().unwrap_or(subject),
    };
    let n = s.chars().count();
    let mut t = clean(&s.chars().take(256).collect::<String>());
    if n > 257 || n == 257 && alt {
        t.push('\u{2026}');
    }
    o += &format!("Subject: {t}\r\nAuto-Submitted: auto-notified\r\nX-Sieve: yes\r\nContent-type: text/plain; charset=utf-8\r\n\r\n");
    o + u.body.as_deref().or(v.message.as_deref()).unwrap_or(subject)
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let nl = *r.pick(&["\r\n", "\r\n", "\n"]);
    // name, raw, text
    let mut f: Vec<(&'static str, String, String)> = vec![("From", "a@b.c".into(), String::new())];
    for _ in 0..r.below(4) {
        let x = match r.below(4) {
            0 if r.chance(1, 2) => {
                let v = *r.pick(&["no", "NO", "auto-generated", "auto-notified", ""]);
                ("Auto-Submitted", v, v)
            }
            1 => ("X-Other", "x", "x"),
            _ => {
                let (a, b) = *r.pick(&[("Hello", "Hello"), ("=?utf-8?q?a=0D=0AX-Evil=3A_b?=", "a\r\nX-Evil: b"), ("", ""), ("=?utf-8?q?=C3=A9?=", "\u{e9}")]);
                ("Subject", a, b)
            }
        };
        let i = r.below(f.len() + 1);
        f.insert(i, (x.0, x.1.into(), x.2.into()));
    }
    if r.chance(1, 10) {
        let s = "y".repeat(250 + r.below(12));
        f.push(("Subject", s.clone(), s));
    }
    let multi = r.chance(1, 4);
    let mut msg = String::new();
    for x in &f {
        msg += &format!("{}: {}{nl}", x.0, x.1);
    }
    msg += &if multi { format!("Content-Type: multipart/mixed; boundary=\"b\"{nl}{nl}--b{nl}X-Id: p1{nl}Auto-Submitted: auto-replied{nl}Subject: part{nl}{nl}text{nl}--b--{nl}") } else { format!("{nl}Hello{nl}") };
    if !run::parses(msg.as_bytes()) {
        return rep.cover("message that mail-parser does not read");
    }
    let c = Cfg {
        user: r.pick(&["me@example.org", "me@example.org", "Me@Example.org", ""]).to_string(),
        name: r.pick(&["", "", "Me", "M \"q\" \\", "N\r\nX-Evil: b"]).to_string(),
        max_out: *r.pick(&[0, 1, 2, 10, 10, 10]),
    };
    let mut n = 0;
    let mut script = String::new();
    let mut main = vec![];
    for _ in 0..1 + r.below(4) {
        match r.below(8) {
            0 => {
                let name = *r.pick(&["Subject", "Subject", "Auto-Submitted"]);
                let v = if name == "Subject" { r.pick(&["new", "other"]) } else { r.pick(&["no", "auto-generated"]) };
                let last = r.chance(1, 2);
                script += &format!("addheader{} \"{name}\" \"{v}\";\n", if last { " :last" } else { "" });
                main.push(S::Add(name, v.to_string(), last));
            }
            1 => {
                let name = *r.pick(&["Subject", "Auto-Submitted"]);
                script += &format!("deleteheader \"{name}\";\n");
                main.push(S::Del(name));
            }
            _ => {
                let v = gen(r);
                let (pre, t) = print(r, &v, &mut n);
                script += &pre;
                match r.below(4) {
                    0 if multi => script += &format!("foreverypart {{ if header :mime \"X-Id\" \"p1\" {{ {t} }} }}\n"),
                    1 => script += &format!("if true {{ {t} }}\n"),
                    _ => script += &format!("{t}\n"),
                }
                main.push(S::Not(v));
            }
        }
    }
    rep.current = format!("{script}{msg:?} user {:?} {:?} out {}", c.user, c.name, c.max_out);
    let host = r.pick(&["localhost", "mx.example.org"]).to_string();
    let rt = run::runtime().with_local_hostname(host.clone()).with_max_out_messages(c.max_out);
    let t0 = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
    let tr = run::simple_with(
        &script,
        msg.as_bytes(),
        &rt,
        |x| {
            x.set_user_address(c.user.clone());
            x.set_user_full_name(&c.name);
        },
        &mut |ev| match ev {
            Event::SetEnvelope { .. } => Input::True,
            e => run::default_answer(e),
        },
    );
    let tr = match tr {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    let mut want: Vec<(Event, String, String)> = vec![];
    let (mut sent, mut id) = (0, 0);
    let mut edited = false;
    for s in &main {
        match s {
            S::Add(name, v, last) => {
                let x = (*name, String::new(), v.clone());
                if *last {
                    f.push(x);
                } else {
                    f.insert(0, x);
                }
                edited = true;
            }
            S::Del(n) => {
                let k = f.len();
                f.retain(|x| x.0 != *n);
                edited |= k != f.len();
            }
            S::Not(v) => {
                if f.iter().any(|x| x.0 == "Auto-Submitted" && !x.2.eq_ignore_ascii_case("no")) {
                    rep.cover("nothing for an automatic message");
                    continue;
                }
                let subject = f.iter().rev().find(|x| x.0 == "Subject").map(|x| x.2.as_str()).unwrap_or("");
                let (uri, text, mail) = match &v.method {
                    Method::Bad(t) if t.starts_with("mailto:") && t.len() > 7 && sent >= c.max_out => (None, t, false),
                    Method::Bad(_) => {
                        rep.cover("nothing for an invalid URI");
                        continue;
                    }
                    Method::Mail(t, u) if sent < c.max_out => (Some(u), t, true),
                    Method::Mail(t, _) | Method::Other(t) => (None, t, false),
                };
                if mail || v.fcc.is_some() {
                    id += 1;
                    let u = uri.cloned().unwrap_or_default();
                    want.push((Event::CreatedMessage { message_id: id, message: vec![] }, message(v, &u, &c, subject, false), message(v, &u, &c, subject, true)));
                    if mail {
                        let g = u.to.iter().chain(&u.cc).chain(&u.bcc).map(|a| a.rsplit_once('<').map_or(a.as_str(), |x| x.1).trim_end_matches('>').to_string()).collect();
                        want.push((
                            Event::SendMessage { recipient: Recipient::Group(g), notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: id },
                            String::new(),
                            String::new(),
                        ));
                        rep.cover("message sent");
                        if edited {
                            rep.cover("message sent after edits");
                        }
                    }
                }
                sent += 1;
                if !mail {
                    want.push((
                        Event::Notify {
                            from: v.from.clone(),
                            importance: match v.importance.as_deref() {
                                Some("1") => Importance::High,
                                Some("3") => Importance::Low,
                                _ => Importance::Normal,
                            },
                            options: v.options.clone(),
                            message: v.message.clone().unwrap_or(subject.into()),
                            method: text.clone(),
                        },
                        String::new(),
                        String::new(),
                    ));
                    rep.cover(if matches!(v.method, Method::Other(_)) { "left to the host" } else { "left to the host beyond the limit" });
                }
                if let Some((m, create, flags, mid, special)) = &v.fcc {
                    want.push((Event::FileInto { folder: m.clone(), flags: flags.clone(), mailbox_id: mid.clone(), special_use: special.clone(), create: *create, message_id: id }, String::new(), String::new()));
                    rep.cover("copy filed");
                }
            }
        }
    }
    if want.is_empty() {
        rep.trivial();
    } else {
        rep.ok(&rep.current.clone());
        let cur = rep.current.clone();
        rep.sample(|| cur);
    }
    let mut got: Vec<&Event> = tr.events().collect();
    if matches!(got.last(), Some(Event::Keep { .. })) {
        got.pop();
        if edited {
            got.pop();
        }
    }
    let fail = |rep: &mut Rep, what: &str, d: String| {
        let c = rep.current.clone();
        rep.fail(what, format!("{d}\n{c}\n{main:?}\n{}", tr.show()));
    };
    if tr.items.iter().any(|i| matches!(i, Tr::Err(_))) {
        return fail(rep, "error", "an error".into());
    }
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(Event::CreatedMessage { message_id, .. }), Some((Event::CreatedMessage { message_id: b, .. }, x, y))) if message_id == b => {
                match super::p23::normal(&tr.msgs[message_id], &host, t0, &mut vec![]) {
                    Ok(s) if s == *x || s == *y => (),
                    Ok(s) => return fail(rep, "message", format!("expected {x:?}\nobserved {s:?}")),
                    Err(e) => return fail(rep, "message", e),
                }
            }
            (Some(e), Some((w, _, _))) if *e == w => (),
            (e, w) => return fail(rep, "event", format!("expected {w:?}\nobserved {e:?}")),
        }
    }
}

fn directed(rep: &mut Rep) {
    // invalid constants are refused by the compiler
    let c = run::compiler();
    for b in BAD {
        if *b == "mailto:a@b.c?subject" {
            continue;
        }
        rep.current = b.to_string();
        rep.ok(b);
        rep.cover("invalid URI refused");
        match run::compile(&c, &format!("notify {};", quote(b))) {
            Err(e) if e.contains("InvalidURI") => (),
            x => rep.fail("uri", format!("{b:?} gives {x:?}")),
        }
    }
}
