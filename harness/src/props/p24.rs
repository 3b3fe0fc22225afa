//! vacation: who is answered, how often the host is asked, and the bytes of the reply.
use crate::gen::quote;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::compiler::grammar::actions::action_redirect::{ByTime, Notify, Ret};
use sieve::{Envelope, Event, Input, Recipient};
use std::time::{SystemTime, UNIX_EPOCH};

pub const PROP: Prop = Prop { id: "P24", quick: 2_000_000, thorough: 12_000_000, directed, case };

#[derive(Clone, Debug)]
struct Fld {
    name: &'static str,
    /// as printed after the colon, without the line end
    raw: String,
    /// decoded
    text: Option<String>,
    addrs: Vec<String>,
    inserted: bool,
}
const POOL: &[&str] = &["me@example.org", "Me@Example.ORG", "alias@example.net", "other@example.com", "sender@remote.org", "list@lists.org", "boss@example.org", "me@example.org.evil.net", "xme@example.org"];
const RCPT: &[&str] = &["To", "Cc", "Bcc", "Resent-To", "Resent-Cc", "Resent-Bcc"];
const LISTS: &[&str] = &["List-Archive", "List-Help", "List-Id", "List-Owner", "List-Post", "List-Subscribe", "List-Unsubscribe"];

fn addresses(r: &mut Rng, n: usize, nl: &str) -> (String, Vec<String>) {
    let mut t = vec![];
    let mut v = vec![];
    for _ in 0..n {
        let a = *r.pick(POOL);
        t.push(match r.below(4) {
            0 => format!("Me <{a}>"),
            1 => format!("\"Doe, \\\"J\\\"\" <{a}>"),
            2 => format!("<{a}>"),
            _ => a.to_string(),
        });
        v.push(a.to_string());
    }
    let sep = if r.chance(1, 4) { format!(",{nl} ") } else { ", ".into() };
    let t = t.join(&sep);
    (if r.chance(1, 8) { format!("friends: {t};") } else { t }, v)
}

fn fld(r: &mut Rng, name: &'static str, nl: &str) -> Fld {
    let mut f = Fld { name, raw: String::new(), text: None, addrs: vec![], inserted: false };
    let plain = |s: &str| (s.to_string(), Some(s.to_string()));
    let (raw, text) = match name {
        "From" | "Sender" => {
            let (t, v) = if r.chance(2, 3) {
                let a = *r.pick(&["sender@remote.org", "Sender@Remote.Org"]);
                (r.pick(&["S. Ender <@>", "@", "\"Ender, S\" <@>"]).replace('@', a), vec![a.to_string()])
            } else {
                let n = 1 + r.below(2);
                addresses(r, n, nl)
            };
            f.addrs = v;
            (t, None)
        }
        "Auto-Submitted" => plain(r.pick(&["no", "No", "NO", "auto-generated", "auto-replied", "no; x=y", ""])),
        "X-Auto-Response-Suppress" => plain(r.pick(&["All", "DR, OOF, AutoReply", "oof", "DR, RN", "None", "allx", ""])),
        "Precedence" => plain(r.pick(&["bulk", "Bulk", "list", "junk", "bulky", ""])),
        "Received" => plain("from a by b; Fri, 21 Nov 1997 09:55:06 -0600"),
        "Subject" => match r.below(6) {
            0 => ("=?utf-8?q?=C3=A9t=C3=A9?=".into(), Some("\u{e9}t\u{e9}".into())),
            1 => ("=?utf-8?q?a=0D=0AX-Evil=3A_b?=".into(), Some("a\r\nX-Evil: b".into())),
            2 => {
                let n = 240 + r.below(20);
                let c = *r.pick(&["x", "\u{e9}"]);
                let s = c.repeat(n);
                (s.clone(), Some(s))
            }
            3 => plain(""),
            4 => (format!("Two{nl} words"), Some("Two words".into())),
            _ => plain(r.pick(&["Hello", "Re: Auto: x", "${v1}"])),
        },
        "Message-ID" => match r.below(5) {
            0 => plain(""),
            _ => {
                let i = r.pick(&["id1@remote.org", "x.y$z@q"]).to_string();
                (format!("<{i}>"), Some(i))
            }
        },
        "References" => (r.pick(&["<r1@x>", "<r1@x> <r2@y>", "<r1@x>@<r2@y>", ""]).replace('@', &if r.chance(1, 3) { format!("{nl}\t") } else { "@".into() }), None),
        n if RCPT.contains(&n) => {
            let n = 1 + r.below(3);
            let (t, v) = addresses(r, n, nl);
            f.addrs = v;
            (t, None)
        }
        _ => plain(r.pick(&["<mailto:list@x.org>", "x"])),
    };
    f.raw = format!("{}{raw}", if raw.is_empty() { "" } else { r.pick(&[" ", " ", "", "  "]) });
    f.text = text.filter(|t| !t.is_empty());
    f
}

#[derive(Clone, Debug, Default)]
struct Vac {
    days: Option<u64>,
    seconds: Option<u64>,
    subject: Option<String>,
    from: Option<String>,
    addresses: Vec<String>,
    mime: bool,
    handle: Option<String>,
    reason: String,
    fcc: Option<(String, bool, Vec<String>, Option<String>, Option<String>)>,
}
#[derive(Clone, Debug)]
enum S {
    Vac(Vac),
    Add(&'static str, String, bool),
    Del(&'static str),
}

fn vac(r: &mut Rng) -> Vac {
    let mut v = Vac::default();
    match r.below(5) {
        0 => v.days = Some(*r.pick(&[0, 1, 7, 30, 365, 1_000_000_000_000, 400_000_000_000_000])),
        1 => v.seconds = Some(*r.pick(&[0, 1, 1800, 5_000_000_000])),
        _ => (),
    }
    if r.chance(1, 3) {
        v.subject = Some(r.pick(&["Away", "", "\u{e9}t\u{e9}", "a\r\nX-Evil: b", "x\ny"]).to_string());
    }
    if r.chance(1, 3) {
        v.from = Some(r.pick(&["Boss <boss@example.org>", "me@example.org", "a\r\nX-Evil: b", ""]).to_string());
    }
    if r.chance(1, 3) {
        v.addresses = (0..r.below(3)).map(|_| r.pick(&["alias@example.net", "ALIAS@example.net", "other@example.com", "", "sender@remote.org", "boss@example.org"]).to_string()).collect();
    }
    v.mime = r.chance(1, 4);
    if r.chance(1, 3) {
        v.handle = Some(r.pick(&["h1", "h2", "", "\u{e9}"]).to_string());
    }
    v.reason = if v.mime {
        r.pick(&["Content-Type: text/html\r\n\r\n<b>gone</b>", "X: y\n\nz", ""]).to_string()
    } else {
        r.pick(&["gone", "back on\r\nmonday\r\n", "", ".\n", "\u{e9}t\u{e9}"]).to_string()
    };
    if r.chance(1, 4) {
        v.fcc = Some((
            r.pick(&["Sent", "INBOX.x"]).to_string(),
            r.chance(1, 2),
            (0..r.below(3)).map(|i| ["\\Seen", "\\Flagged", "$x"][i].to_string()).collect(),
            if r.chance(1, 3) { Some("m1".into()) } else { None },
            if r.chance(1, 3) { Some("\\Sent".into()) } else { None },
        ));
    }
    v
}

/// A string as a constant or through a variable declared in `pre`.
fn st(r: &mut Rng, pre: &mut String, n: &mut usize, s: &str) -> String {
    if r.chance(1, 5) {
        *n += 1;
        *pre += &format!("set \"v{n}\" {};\n", quote(s));
        format!("\"${{v{n}}}\"")
    } else {
        quote(s)
    }
}
fn strs(r: &mut Rng, pre: &mut String, n: &mut usize, s: &[String]) -> String {
    let v: Vec<String> = s.iter().map(|s| st(r, pre, n, s)).collect();
    if v.len() == 1 && r.chance(1, 2) {
        v[0].clone()
    } else {
        format!("[{}]", v.join(", "))
    }
}
fn print(r: &mut Rng, v: &Vac, n: &mut usize) -> (String, String) {
    let mut p = String::new();
    let mut a = vec![];
    if let Some(d) = v.days {
        a.push(format!(":days {d}"));
    }
    if let Some(d) = v.seconds {
        a.push(format!(":seconds {d}"));
    }
    for (t, x) in [(":subject", &v.subject), (":from", &v.from), (":handle", &v.handle)] {
        if let Some(x) = x {
            a.push(format!("{t} {}", st(r, &mut p, n, x)));
        }
    }
    if !v.addresses.is_empty() {
        a.push(format!(":addresses {}", strs(r, &mut p, n, &v.addresses)));
    }
    if v.mime {
        a.push(":mime".into());
    }
    if let Some((m, create, flags, id, special)) = &v.fcc {
        a.push(format!(":fcc {}", st(r, &mut p, n, m)));
        if *create {
            a.push(":create".into());
        }
        if !flags.is_empty() {
            a.push(format!(":flags {}", strs(r, &mut p, n, flags)));
        }
        if let Some(i) = id {
            a.push(format!(":mailboxid {}", st(r, &mut p, n, i)));
        }
        if let Some(i) = special {
            a.push(format!(":specialuse {}", st(r, &mut p, n, i)));
        }
    }
    crate::ask::shuffle(&mut a, r);
    let reason = st(r, &mut p, n, &v.reason);
    (p, format!("vacation {} {reason};", a.join(" ")))
}

#[derive(Clone)]
struct Cfg {
    from: String,
    to: Vec<String>,
    orcpt: Vec<String>,
    user: String,
    name: String,
    use_orcpt: bool,
    default_subject: String,
    prefix: String,
    expiry: u64,
    max_received: usize,
    max_out: usize,
}

/// Why no reply is sent, or None.
fn silent(f: &[Fld], v: &Vac, c: &Cfg, sent: usize) -> Option<&'static str> {
    if sent >= c.max_out {
        return Some("limit of messages");
    }
    let mut mine: Vec<&str> = if c.use_orcpt { &c.orcpt } else { &c.to }.iter().map(|s| s.as_str()).collect();
    mine.extend(v.addresses.iter().map(|s| s.as_str()));
    mine.push(&c.user);
    mine.retain(|s| !s.is_empty());
    let from = c.from.to_lowercase();
    let same = |a: &str, b: &str| a.eq_ignore_ascii_case(b);
    let has = |n: &str, t: &dyn Fn(&str) -> bool| f.iter().any(|x| same(x.name, n) && t(x.text.as_deref().unwrap_or("")));
    if from.is_empty() {
        return Some("no sender");
    }
    if ["mailer-daemon", "owner-"].iter().any(|p| from.starts_with(p)) || from.contains("-request@") {
        return Some("sender is a robot");
    }
    if mine.iter().any(|m| same(m, &from)) {
        return Some("own address");
    }
    if f.iter().any(|x| LISTS.contains(&x.name)) {
        return Some("mailing list");
    }
    if has("Auto-Submitted", &|t| !same(t, "no")) {
        return Some("Auto-Submitted");
    }
    if has("X-Auto-Response-Suppress", &|t| t.split(',').any(|t| same(t.trim(), "all") || same(t.trim(), "oof"))) {
        return Some("X-Auto-Response-Suppress");
    }
    if has("Precedence", &|t| same(t, "bulk")) {
        return Some("Precedence");
    }
    if f.iter().filter(|x| x.name == "Received").count() > c.max_received {
        return Some("loop");
    }
    if !f.iter().any(|x| RCPT.contains(&x.name) && x.addrs.iter().any(|a| mine.iter().any(|m| same(m, a)))) {
        return Some("not addressed to the user");
    }
    None
}
fn clean(s: &str) -> String {
    s.chars().filter(|c| !"\r\n".contains(*c)).collect()
}
/// The reply; with a subject of exactly 257 characters both forms are accepted (`alt`).
fn reply(f: &[Fld], v: &Vac, c: &Cfg, nl: &str, alt: bool) -> String {
    let last = |n: &str| f.iter().rev().find(|x| x.name == n);
    let user = if c.name.is_empty() {
        c.user.clone()
    } else {
        let e: String = c.name.chars().flat_map(|c| if "\"\\".contains(c) { vec!['\\', c] } else { vec![c] }).collect();
        format!("\"{e}\" <{}>", c.user)
    };
    let from = match &v.from {
        Some(f) => f.clone(),
        None if !c.user.is_empty() => user,
        None => c.to.first().cloned().unwrap_or_default(),
    };
    let mut o = format!("From: {}\r\n", clean(&from));
    let full = f.iter().rev().find(|x| ["From", "Sender"].contains(&x.name) && !x.inserted && x.addrs.iter().any(|a| a.eq_ignore_ascii_case(&c.from)));
    match full {
        Some(x) => o += &format!("To:{}{nl}", x.raw),
        None => o += &format!("To: {}\r\n", c.from),
    }
    let subject = match &v.subject {
        Some(s) if !s.is_empty() => s.clone(),
        _ => match f.iter().find(|x| x.name == "Subject" && x.text.is_some()) {
            Some(x) => {
                let s = format!("{}{}", c.prefix, x.text.as_ref().unwrap());
                let n = s.chars().count();
                let mut t: String = s.chars().take(256).collect();
                if n > 257 || n == 257 && alt {
                    t.push('\u{2026}');
                }
                t
            }
            None => c.default_subject.clone(),
        },
    };
    o += &format!("Subject: {}\r\n", clean(&subject));
    if let Some(id) = last("Message-ID").and_then(|x| x.text.as_ref()) {
        let id = id.trim().trim_start_matches('<').trim_end_matches('>');
        o += &format!("In-Reply-To: <{id}>\r\nReferences: <{id}>");
        match f.iter().rev().find(|x| x.name == "References" && !x.inserted) {
            Some(x) => o += &format!(" {}{nl}", x.raw),
            None => o += "\r\n",
        }
    }
    o += "Date: now\r\nMessage-ID: ID\r\nAuto-Submitted: auto-replied\r\n";
    if !v.mime {
        o += "Content-type: text/plain; charset=utf-8\r\n\r\n";
    }
    o + &v.reason
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let nl = *r.pick(&["\r\n", "\r\n", "\n"]);
    let mut f: Vec<Fld> = vec![];
    let typical = r.chance(1, 2);
    let mut names = vec!["From"];
    if typical {
        names.extend(["To", "Subject", "Message-ID"]);
    }
    let extra = if typical { r.below(3) } else { r.below(7) };
    for _ in 0..extra {
        names.push(match r.below(12) {
            0 => *r.pick(LISTS),
            1..=3 => *r.pick(RCPT),
            4 => "Auto-Submitted",
            5 => "X-Auto-Response-Suppress",
            6 => "Precedence",
            7 => "Received",
            8 => "Sender",
            9 => "References",
            10 => "Message-ID",
            _ => *r.pick(&["Subject", "From", "X-Other"]),
        });
    }
    if r.chance(1, 8) {
        for _ in 0..1 + r.below(4) {
            names.push("Received");
        }
    }
    if r.chance(1, 2) {
        names.push("References");
    }
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i + 1));
    }
    for n in names {
        f.push(fld(r, n, nl));
    }
    if r.chance(2, 3) {
        let i = r.below(f.len() + 1);
        let n = *r.pick(RCPT);
        f.insert(i, Fld { name: n, raw: " me@example.org".into(), text: None, addrs: vec!["me@example.org".into()], inserted: false });
    }
    let multi = r.chance(1, 3);
    let mut msg = String::new();
    for x in &f {
        let n = match r.below(4) {
            0 => x.name.to_lowercase(),
            1 => x.name.to_uppercase(),
            _ => x.name.into(),
        };
        msg += &format!("{n}:{}{nl}", x.raw);
    }
    if multi {
        // fields of parts are nobody's business
        msg += &format!("Content-Type: multipart/mixed; boundary=\"b\"{nl}{nl}");
        for i in 1..3 {
            msg += &format!("--b{nl}X-Id: p{i}{nl}To: me@example.org{nl}Subject: part{nl}Message-ID: <part@x>{nl}{}{nl}text{nl}", r.pick(&["", "List-Id: <x>\n", "Precedence: bulk\n", "Auto-Submitted: auto-replied\n", "From: sender@remote.org\n"]).replace('\n', nl));
        }
        msg += &format!("--b--{nl}");
    } else {
        msg += &format!("{nl}Hello{nl}");
    }
    if !run::parses(msg.as_bytes()) {
        return rep.cover("message that mail-parser does not read");
    }
    let c = Cfg {
        from: if r.chance(1, 2) { "sender@remote.org" } else { *r.pick(&["Sender@Remote.ORG", "Sender@Remote.ORG", "MAILER-DAEMON@x.org", "Owner-list@x.org", "list-Request@x.org", "me@example.org", "ME@Example.org", "alias@example.net", "", "request@x.org", "x-owner-l@y.org"]) }.to_string(),
        to: (0..r.below(3)).map(|_| r.pick(&["me@example.org", "alias@example.net", "other@example.com"]).to_string()).collect(),
        orcpt: (0..r.below(2)).map(|_| r.pick(&["me@example.org", "alias@example.net"]).to_string()).collect(),
        user: r.pick(&["me@example.org", "me@example.org", "", "boss@example.org"]).to_string(),
        name: r.pick(&["", "", "Me", "M \"q\" \\", "N\r\nX-Evil: b"]).to_string(),
        use_orcpt: r.chance(1, 4),
        default_subject: r.pick(&["Automated reply", "x"]).to_string(),
        prefix: r.pick(&["Auto: ", "", "\u{e9} "]).to_string(),
        expiry: *r.pick(&[0, 1000, 86400]),
        max_received: r.below(4),
        max_out: *r.pick(&[0, 1, 2, 3, 10, 10, 10, 10]),
    };
    // the program
    let mut n = 0;
    let mut script = String::new();
    let mut main = vec![];
    for _ in 0..1 + r.below(4) {
        match r.below(6) {
            0 => {
                let name = *r.pick(&["To", "Subject", "Auto-Submitted", "Precedence", "Received", "List-Id", "Message-ID", "From", "References", "Cc"]);
                let v = match name {
                    "Auto-Submitted" => r.pick(&["no", "auto-generated"]),
                    "Precedence" => r.pick(&["bulk", "list"]),
                    "Message-ID" => r.pick(&["<new@x>", "<new@x>", "  <new@x>", "<new@x> \t", "new@x", " new@x "]),
                    "References" => "<ref@x>",
                    "From" => r.pick(&["sender@remote.org", "S <sender@remote.org>"]),
                    "To" | "Cc" => r.pick(&["me@example.org", "Me <other@example.com>"]),
                    _ => "new",
                };
                let last = r.chance(1, 2);
                script += &format!("addheader{} \"{name}\" \"{v}\";\n", if last { " :last" } else { "" });
                main.push(S::Add(name, v.into(), last));
            }
            1 => {
                let name = *r.pick(&["To", "Subject", "Auto-Submitted", "Precedence", "Received", "List-Id", "Message-ID", "From", "References"]);
                script += &format!("deleteheader \"{name}\";\n");
                main.push(S::Del(name));
            }
            _ => {
                let v = vac(r);
                let (pre, t) = print(r, &v, &mut n);
                script += &pre;
                match r.below(4) {
                    0 if multi => script += &format!("foreverypart {{ if header :mime \"X-Id\" \"p{}\" {{ {t} }} }}\n", 1 + r.below(2)),
                    1 => script += &format!("if true {{ {t} }}\n"),
                    _ => script += &format!("{t}\n"),
                }
                main.push(S::Vac(v));
            }
        }
    }
    let dups: Vec<bool> = (0..8).map(|_| r.chance(1, 4)).collect();
    rep.current = format!("{script}{msg:?} duplicate {dups:?} from {:?} to {:?} orcpt {:?} user {:?} {:?} use_orcpt {} expiry {} received {} out {} prefix {:?}", c.from, c.to, c.orcpt, c.user, c.name, c.use_orcpt, c.expiry, c.max_received, c.max_out, c.prefix);
    let host = r.pick(&["localhost", "mx.example.org"]).to_string();
    let rt = run::runtime()
        .with_local_hostname(host.clone())
        .with_vacation_use_orig_rcpt(c.use_orcpt)
        .with_vacation_default_subject(c.default_subject.clone())
        .with_vacation_subject_prefix(c.prefix.clone())
        .with_default_vacation_expiry(c.expiry)
        .with_max_received_headers(c.max_received)
        .with_max_out_messages(c.max_out);
    let t0 = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
    let mut k = 0;
    let tr = run::simple_with(
        &script,
        msg.as_bytes(),
        &rt,
        |x| {
            x.clear_envelope();
            x.set_envelope(Envelope::From, c.from.clone());
            for t in &c.to {
                x.set_envelope(Envelope::To, t.clone());
            }
            for t in &c.orcpt {
                x.set_envelope(Envelope::Orcpt, t.clone());
            }
            x.set_user_address(c.user.clone());
            x.set_user_full_name(&c.name);
        },
        &mut |ev| match ev {
            Event::DuplicateId { .. } => {
                k += 1;
                if dups[k - 1] {
                    Input::True
                } else {
                    Input::False
                }
            }
            e => run::default_answer(e),
        },
    );
    let tr = match tr {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    // what has to happen
    let mut want: Vec<(Event, String, String)> = vec![];
    let (mut sent, mut asked) = (0, 0);
    let mut edited = false;
    for s in &main {
        match s {
            S::Add(name, v, last) => {
                let a = match *name {
                    "To" | "Cc" => vec![if v.contains("other") { "other@example.com" } else { "me@example.org" }.to_string()],
                    _ => vec![],
                };
                let x = Fld { name, raw: v.clone(), text: Some(v.clone()), addrs: a, inserted: true };
                if *last {
                    f.push(x);
                } else {
                    f.insert(0, x);
                }
                edited = true;
            }
            S::Del(n) => {
                let k = f.len();
                f.retain(|x| x.name != *n);
                edited |= k != f.len();
            }
            S::Vac(v) => {
                if let Some(why) = silent(&f, v, &c, sent) {
                    rep.cover(&format!("silent: {why}"));
                    continue;
                }
                let key = v.handle.as_ref().unwrap_or(&v.reason);
                let expiry = v.days.map(|d| d.saturating_mul(86400)).or(v.seconds).unwrap_or(c.expiry);
                let nil = String::new;
                want.push((Event::DuplicateId { id: format!("_v{}{key}", c.from.to_lowercase()), expiry, last: false }, nil(), nil()));
                asked += 1;
                if dups[asked - 1] {
                    rep.cover("silent: answered before");
                    continue;
                }
                sent += 1;
                want.push((Event::CreatedMessage { message_id: sent, message: vec![] }, reply(&f, v, &c, nl, false), reply(&f, v, &c, nl, true)));
                want.push((
                    Event::SendMessage { recipient: Recipient::Address(c.from.clone()), notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: sent },
                    nil(),
                    nil(),
                ));
                rep.cover("reply sent");
                if edited {
                    rep.cover("reply to an edited message");
                }
                if let Some((m, create, flags, id, special)) = &v.fcc {
                    want.push((Event::FileInto { folder: m.clone(), flags: flags.clone(), mailbox_id: id.clone(), special_use: special.clone(), create: *create, message_id: sent }, nil(), nil()));
                    rep.cover("copy of the reply filed");
                }
            }
        }
    }
    if want.is_empty() {
        rep.trivial();
    } else {
        rep.ok(&rep.current.clone());
        let cur = rep.current.clone();
        rep.sample(|| cur);
    }
    let mut got: Vec<&Event> = tr.events().collect();
    // what becomes of the message itself is P05's and P21's
    if matches!(got.last(), Some(Event::Keep { .. })) {
        got.pop();
        if edited {
            got.pop();
        }
    }
    let fail = |rep: &mut Rep, what: &str, d: String| {
        let c = rep.current.clone();
        rep.fail(what, format!("{d}\n{c}\n{main:?}\n{}", tr.show()));
    };
    if tr.items.iter().any(|i| matches!(i, Tr::Err(_))) {
        return fail(rep, "error", "an error".into());
    }
    for i in 0..got.len().max(want.len()) {
        let w = want.get(i);
        match (got.get(i), w) {
            (Some(Event::CreatedMessage { message_id, .. }), Some((Event::CreatedMessage { message_id: b, .. }, x, y))) if message_id == b => {
                match super::p23::normal(&tr.msgs[message_id], &host, t0, &mut vec![]) {
                    Ok(s) if s == *x || s == *y => (),
                    Ok(s) => return fail(rep, "reply", format!("expected {x:?}\nobserved {s:?}")),
                    Err(e) => return fail(rep, "reply", e),
                }
            }
            (Some(e), Some((w, _, _))) if *e == w => (),
            (e, w) => return fail(rep, "event", format!("expected {w:?}\nobserved {e:?}")),
        }
    }
}

fn directed(_rep: &mut Rep) {}
