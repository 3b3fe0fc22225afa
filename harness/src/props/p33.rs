//! Settings of the runtime and of a message's context: defaults, both ways of setting them, the last one counts.
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::compiler::grammar::Capability;
use sieve::{Compiler, Context, Envelope, Event, Input, Metadata, Runtime, SpamStatus, VirusStatus};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop { id: "P33", quick: 1_100_000, thorough: 60_000_000, directed, case };

#[derive(Clone, Debug)]
struct Want {
    cpu: usize,
    nested: usize,
    redirects: usize,
    out: usize,
    received: usize,
    var: usize,
    header: usize,
    vac: u64,
    dup: u64,
    off: BTreeSet<&'static str>,
    protected: Vec<&'static str>,
    env: BTreeMap<String, String>,
    meta: Vec<(String, String)>,
    uris: BTreeSet<&'static str>,
    lists: BTreeSet<&'static str>,
    orig: bool,
    subject: String,
    prefix: String,
    host: String,
}
fn fresh() -> Want {
    Want {
        cpu: 5000,
        nested: 3,
        redirects: 1,
        out: 3,
        received: 10,
        var: 4096,
        header: 1024,
        vac: 30 * 86400,
        dup: 7 * 86400,
        off: BTreeSet::from(["vnd.stalwart.while"]),
        protected: vec!["Original-Subject", "Original-From"],
        env: BTreeMap::from([("name".into(), "Stalwart Sieve".into())]),
        meta: vec![],
        uris: BTreeSet::new(),
        lists: BTreeSet::new(),
        orig: false,
        subject: "Automated reply".into(),
        prefix: "Auto: ".into(),
        host: "localhost".into(),
    }
}
const PROT: &[&str] = &["Original-Subject", "Original-From", "X-P1", "X-P2", "Subject"];
const CAPS: &[(&str, &str)] = &[("fileinto", "fileinto"), ("vnd.stalwart.while", "vnd.stalwart.while"), ("imap4flags", "imap4flags"), ("body", "body"), ("copy", "copy")];
const URIS: &[&str] = &["mailto", "https", "xmpp", "tel"];
const LISTS: &[&str] = &["urn:a", "urn:b", ":addrbook:default"];

macro_rules! put {
    ($r:expr, $o:expr, $set:ident, $with:ident, $($v:expr),+) => {
        if $r.chance(1, 2) { $o.$set($($v),+) } else { $o = $o.$with($($v),+) }
    };
}

fn one(r: &mut Rng, mut rt: Runtime, w: &mut Want) -> Runtime {
    match r.below(19) {
        0 => {
            w.cpu = r.below(60);
            put!(r, rt, set_cpu_limit, with_cpu_limit, w.cpu);
        }
        1 => {
            w.nested = r.below(6);
            put!(r, rt, set_max_nested_includes, with_max_nested_includes, w.nested);
        }
        2 => {
            w.redirects = r.below(8);
            put!(r, rt, set_max_redirects, with_max_redirects, w.redirects);
        }
        3 => {
            w.out = r.below(8);
            put!(r, rt, set_max_out_messages, with_max_out_messages, w.out);
        }
        4 => {
            w.received = r.below(14);
            put!(r, rt, set_max_received_headers, with_max_received_headers, w.received);
        }
        5 => {
            w.var = r.below(6000);
            put!(r, rt, set_max_variable_size, with_max_variable_size, w.var);
        }
        6 => {
            w.header = 1 + r.below(2000);
            put!(r, rt, set_max_header_size, with_max_header_size, w.header);
        }
        7 => {
            w.vac = r.next() >> 20;
            put!(r, rt, set_default_vacation_expiry, with_default_vacation_expiry, w.vac);
        }
        8 => {
            w.dup = r.next() >> 20;
            put!(r, rt, set_default_duplicate_expiry, with_default_duplicate_expiry, w.dup);
        }
        9 | 10 => {
            let (n, c) = *r.pick(CAPS);
            match r.below(5) {
                0 => {
                    w.off.remove(n);
                    rt.set_capability(c);
                }
                1 => {
                    w.off.remove(n);
                    rt = rt.with_capability(Capability::parse(c));
                }
                2 => {
                    w.off.insert(n);
                    rt.unset_capability(c);
                }
                3 => {
                    w.off.insert(n);
                    rt = rt.without_capability(Capability::parse(c));
                }
                _ => {
                    let b = *r.pick(CAPS);
                    w.off.insert(n);
                    w.off.insert(b.0);
                    rt = rt.without_capabilities([c, b.1]);
                }
            }
        }
        11 => {
            if r.chance(2, 3) {
                let n = *r.pick(PROT);
                w.protected.push(n);
                put!(r, rt, set_protected_header, with_protected_header, n);
            } else {
                w.protected = (0..r.below(3)).map(|_| *r.pick(PROT)).collect();
                rt = rt.with_protected_headers(w.protected.clone());
            }
        }
        12 => {
            let (n, v) = (*r.pick(&["name", "domain", "vnd.x"]), format!("rt{}", r.below(9)));
            w.env.insert(n.into(), v.clone());
            if r.chance(1, 2) {
                rt.set_env_variable(n, v);
            } else {
                rt = rt.with_env_variable(n, v);
            }
        }
        13 => {
            let (n, v) = (*r.pick(&["/private/a", "/shared/b"]), format!("srv{}", r.below(9)));
            w.meta.push((n.into(), v.clone()));
            let m = Metadata::server(n.to_string());
            put!(r, rt, set_medatata, with_metadata, m, v);
        }
        14 => {
            if r.chance(2, 3) {
                let n = *r.pick(URIS);
                w.uris.insert(n);
                put!(r, rt, set_valid_notification_uri, with_valid_notification_uri, n);
            } else {
                w.uris = (0..r.below(3)).map(|_| *r.pick(URIS)).collect();
                rt = rt.with_valid_notification_uris(w.uris.iter().copied());
            }
        }
        15 => {
            if r.chance(2, 3) {
                let n = *r.pick(LISTS);
                w.lists.insert(n);
                put!(r, rt, set_valid_ext_list, with_valid_ext_list, n);
            } else {
                w.lists = (0..r.below(3)).map(|_| *r.pick(LISTS)).collect();
                rt = rt.with_valid_ext_lists(w.lists.iter().copied());
            }
        }
        16 => {
            w.orig = r.chance(1, 2);
            put!(r, rt, set_vacation_use_orig_rcpt, with_vacation_use_orig_rcpt, w.orig);
        }
        17 => {
            let v = format!("default {}", r.below(9));
            if r.chance(1, 2) {
                w.subject = v.clone();
                put!(r, rt, set_vacation_default_subject, with_vacation_default_subject, v);
            } else {
                w.prefix = v.clone();
                put!(r, rt, set_vacation_subject_prefix, with_vacation_subject_prefix, v);
            }
        }
        _ => {
            w.host = format!("h{}.example.org", r.below(9));
            let h = w.host.clone();
            put!(r, rt, set_local_hostname, with_local_hostname, h);
        }
    }
    rt
}

#[derive(Clone, Debug, Default)]
struct Ctx {
    user: String,
    name: String,
    env: BTreeMap<String, String>,
    globals: BTreeMap<String, String>,
    meta: Vec<(String, String)>,
    spam: Option<f64>,
    virus: &'static str,
    to: Vec<&'static str>,
}
/// What is done to a context; replayed on the context of every probe.
#[derive(Clone, Debug)]
enum Op {
    User(String),
    Name(String),
    Env(&'static str, String),
    Global(&'static str, String),
    Meta(&'static str, String),
    Spam(f64),
    Virus(&'static str),
    To(&'static str),
    Clear,
}
fn apply<'x>(mut c: Context<'x>, ops: &[(Op, bool)]) -> Context<'x> {
    macro_rules! put {
        ($w:expr, $set:ident, $with:ident, $($v:expr),+) => {
            if $w { c = c.$with($($v),+) } else { c.$set($($v),+) }
        };
    }
    for (o, w) in ops.iter().cloned() {
        match o {
            Op::User(u) => put!(w, set_user_address, with_user_address, u),
            Op::Name(n) => put!(w, set_user_full_name, with_user_full_name, &n),
            Op::Env(n, v) => put!(w, set_env_variable, with_env_variable, n, v),
            Op::Global(n, v) => put!(w, set_global_variable, with_global_variable, n, v),
            Op::Meta(n, v) => put!(w, set_medatata, with_metadata, Metadata::server(n.to_string()), v),
            Op::Spam(s) => put!(w, set_spam_status, with_spam_status, if s == 0.0 { SpamStatus::Ham } else if s == 1.0 { SpamStatus::Spam } else { SpamStatus::MaybeSpam(s) }),
            Op::Virus(v) => put!(w, set_virus_status, with_virus_status, match v {
                "1" => VirusStatus::Clean,
                "2" => VirusStatus::Replaced,
                "3" => VirusStatus::Cured,
                "4" => VirusStatus::MaybeVirus,
                _ => VirusStatus::Virus,
            }),
            Op::To(t) => put!(w, set_envelope, with_envelope, Envelope::To, t),
            Op::Clear => c.clear_envelope(),
        }
    }
    c
}

fn case(rep: &mut Rep, r: &mut Rng) {
    if r.chance(1, 3) {
        let mut l = DEF;
        let n = r.below(14);
        let c = compiler(r, &mut l, n);
        for _ in 0..2 {
            limits(rep, r, &c, &l);
        }
        return;
    }
    let mut w = fresh();
    let mut rt = Runtime::new().with_capability(Capability::Expressions).with_functions(&mut run::functions());
    let n = r.below(12);
    for _ in 0..n {
        rt = one(r, rt, &mut w);
    }
    let mut x = Ctx { user: String::new(), virus: "0", ..Default::default() };
    let mut ops = vec![];
    for _ in 0..r.below(8) {
        let o = match r.below(9) {
            0 => Op::User(format!("u{}@example.org", r.below(5))),
            1 => Op::Name(r.pick(&["Joe", "A \"B\" C", "x\r\ny"]).to_string()),
            2 => Op::Env(r.pick(&["name", "domain", "vnd.x"]), format!("ctx{}", r.below(9))),
            3 => Op::Global(r.pick(&["ga", "gb"]), format!("g{}", r.below(9))),
            4 => Op::Meta(r.pick(&["/private/a", "/shared/b"]), format!("c{}", r.below(9))),
            5 => Op::Spam(*r.pick(&[0.0, 0.25, 0.5, 0.75, 1.0])),
            6 => Op::Virus(r.pick(&["1", "2", "3", "4", "5"])),
            7 => Op::To(r.pick(&["final@example.org", "other@example.org"])),
            _ => Op::Clear,
        };
        match o.clone() {
            Op::User(u) => x.user = u,
            Op::Name(n) => x.name = n,
            Op::Env(n, v) => drop(x.env.insert(n.into(), v)),
            Op::Global(n, v) => drop(x.globals.insert(n.into(), v)),
            Op::Meta(n, v) => x.meta.push((n.into(), v)),
            Op::Spam(s) => x.spam = Some(s),
            Op::Virus(v) => x.virus = v,
            Op::To(t) => x.to.push(t),
            Op::Clear => x.to.clear(),
        }
        ops.push((o, r.chance(1, 2)));
    }
    for _ in 0..2 {
        probe(rep, r, &rt, &w, &ops, &x);
        if !rep.fails.is_empty() && rep.fails.len() > 4 {
            return;
        }
    }
}

fn go(rt: &Runtime, script: &str, msg: &str, ops: &[(Op, bool)], extra: impl FnOnce(&mut Context), host: &mut dyn FnMut(&Event) -> Input) -> Result<run::Trace, String> {
    let s = run::compile(&sieve::Compiler::new().register_functions(&mut run::functions()).with_max_string_size(1 << 16).with_max_header_size(1 << 16), script)?;
    let mut c = apply(rt.filter(msg.as_bytes()), ops);
    extra(&mut c);
    let t = run::drive(&mut c, s, 20_000, host);
    match t.broken() {
        Some(b) => Err(format!("{b}\n{}", t.show())),
        None => Ok(t),
    }
}

fn probe(rep: &mut Rep, r: &mut Rng, rt: &Runtime, w: &Want, ops: &[(Op, bool)], x: &Ctx) {
    const MSG: &str = "From: s@remote.org\r\nTo: final@example.org\r\nSubject: hi\r\nOriginal-Subject: o\r\nOriginal-From: o\r\nX-P1: 1\r\nX-P2: 2\r\nMessage-ID: <m@remote.org>\r\n\r\nBody\r\n";
    let req = |caps: &str| format!("require [{caps}];\n");
    let which = if w.off.contains("vnd.stalwart.while") && r.chance(1, 20) { 9 } else { r.below(19) };
    let (what, want, got): (&str, String, String);
    let host = &mut run::default_answer;
    let mut script;
    let cut = |s: &str| s[..s.len().min(w.var)].to_string();
    macro_rules! run {
        ($s:expr, $m:expr, $e:expr, $h:expr) => {
            match go(rt, $s, $m, ops, $e, $h) {
                Ok(t) => t,
                Err(e) => return rep.fail("broken run", format!("{e}\n{w:?}\n{ops:?}\n{}", $s)),
            }
        };
    }
    match which {
        0 => {
            what = "cpu limit";
            let near = w.cpu.saturating_sub(1) + r.below(3);
            let n = near.max(1);
            script = "discard;".repeat(n);
            let t = run!(&script, MSG, |_| (), host);
            want = if n > w.cpu { "[\"CPULimitReached\"]" } else { "[]" }.to_string();
            got = format!("{:?}", t.errs());
            script = format!("{n} times discard;");
        }
        1 => {
            what = "nested includes";
            // each script includes another, once
            let mut deep = String::from("keep;");
            let depth = 7;
            let mut scripts = vec![];
            for i in (0..depth).rev() {
                deep = format!("require [\"include\"]; include \"s{}\";", i + 1);
                scripts.push(run::compile(&run::compiler(), &deep).unwrap());
            }
            scripts.reverse();
            let last = run::compile(&run::compiler(), "keep;").unwrap();
            let mut asked = 0usize;
            let mut h2 = |e: &Event| match e {
                Event::IncludeScript { name, .. } => {
                    asked += 1;
                    let n: usize = name.as_str()[1..].parse().unwrap();
                    Input::script(name.clone(), scripts.get(n).cloned().unwrap_or(last.clone()))
                }
                e => run::default_answer(e),
            };
            let first = "require [\"include\"]; include \"s0\";".to_string();
            let t = run!(&first, MSG, |_| (), &mut h2);
            script = first + &deep;
            want = if w.cpu < 30 { "?".into() } else { format!("{} {}", w.nested.saturating_sub(1).min(depth + 1), w.nested.saturating_sub(1) < depth + 1) };
            got = if w.cpu < 30 { "?".into() } else { format!("{asked} {}", t.errs() == ["TooManyIncludes"]) };
        }
        2 | 3 => {
            what = if which == 2 { "redirects" } else { "outgoing messages" };
            script = String::new();
            for i in 0..9 {
                script += &format!("redirect \"r{i}@example.org\";\n");
            }
            let n = (0..8).filter(|_| r.chance(1, 2)).count() + 8 * r.below(2);
            let mut m = String::new();
            for i in 0..n {
                m += &format!("Received: from h{i} by x; Mon, 1 Jan 2024 00:00:00 +0000\r\n");
            }
            m += MSG;
            let t = run!(&script, &m, |_| (), host);
            let mut e = if n >= w.received { 0 } else { 9.min(w.redirects).min(w.out) };
            e = e.min(w.cpu);
            want = e.to_string();
            got = t.events().filter(|e| matches!(e, Event::SendMessage { .. })).count().to_string();
        }
        4 => {
            what = "variable size";
            let n = (w.var + 2).saturating_sub(r.below(5));
            script = req("\"variables\", \"vnd.stalwart.expressions\"") + &format!("set \"v\" \"{}\"; eval \"t(v)\";", "x".repeat(n));
            let t = run!(&script, MSG, |_| (), host);
            want = if w.cpu < 12 { "[]".into() } else { format!("[{}]", n.min(w.var)) };
            got = if w.cpu < 12 { "[]".into() } else { format!("{:?}", t.marks().iter().map(|m| m.len()).collect::<Vec<_>>()) };
            script.truncate(80);
        }
        5 => {
            what = "header size";
            let n = (w.header + 2).saturating_sub(r.below(5)).max(1);
            script = req("\"editheader\"") + &format!("addheader \"X-L\" \"{}\";", "x".repeat(n));
            let t = run!(&script, MSG, |_| (), host);
            want = if w.cpu < 5 { "?".into() } else { n.min(w.header).to_string() };
            let m = t.msgs.values().next().map(|m| String::from_utf8_lossy(m).into_owned()).unwrap_or_default();
            got = if w.cpu < 5 { "?".into() } else { m.bytes().filter(|b| *b == b'x').count().saturating_sub(MSG.matches('x').count()).to_string() };
            script.truncate(80);
        }
        6..=8 => {
            what = "vacation";
            let to = *r.pick(&["final@example.org", "orig@example.org", "other@example.org", "u1@example.org", "u2@example.org"]);
            let subject = r.chance(1, 2);
            let n = if r.chance(1, 3) { (w.received + 1).saturating_sub(r.below(3)) } else { 0 };
            let mut m = String::new();
            for i in 0..n {
                m += &format!("Received: from h{i} by x; Mon, 1 Jan 2024 00:00:00 +0000\r\n");
            }
            m += &format!("From: s@remote.org\r\nTo: {to}\r\nMessage-ID: <m@remote.org>\r\n{}\r\nBody\r\n", if subject { "Subject: hi\r\n" } else { "" });
            script = req("\"vacation\"") + "vacation \"gone\";";
            let t = run!(&script, &m, |c| {
                c.set_envelope(Envelope::From, "s@remote.org");
                c.set_envelope(Envelope::Orcpt, "orig@example.org");
            }, host);
            let user = x.user.clone();
            let known = if w.orig { to == "orig@example.org" } else { x.to.contains(&to) };
            let ask = (known || to == user) && n <= w.received && w.out > 0;
            if w.cpu < 10 {
                (want, got) = ("?".into(), "?".into());
            } else {
                let exp = t.events().find_map(|e| if let Event::DuplicateId { expiry, .. } = e { Some(*expiry) } else { None });
                // the answer of the host was yes
                let mut g = format!("{exp:?}");
                let mut e = format!("{:?}", ask.then_some(w.vac));
                let t = run!(&script, &m, |c| {
                    c.set_envelope(Envelope::From, "s@remote.org");
                    c.set_envelope(Envelope::Orcpt, "orig@example.org");
                }, &mut |e| match e {
                    Event::DuplicateId { .. } => Input::False,
                    e => run::default_answer(e),
                });
                if let Some(m) = t.msgs.values().next().filter(|_| ask) {
                    let m = String::from_utf8_lossy(m).into_owned();
                    let line = |n: &str| m.lines().find_map(|l| l.strip_prefix(n)).unwrap_or("?").to_string();
                    e += &format!(" {}", if subject { format!("{}hi", w.prefix) } else { w.subject.clone() });
                    g += &format!(" {}", line("Subject: "));
                    let id = line("Message-ID: ");
                    e += &format!(" @{}>", w.host);
                    g += &format!(" @{}", id.rsplit('@').next().unwrap());
                    let name: String = x.name.chars().filter(|c| !"\r\n".contains(*c)).flat_map(|c| if c == '"' { vec!['\\', c] } else { vec![c] }).collect();
                    if !user.is_empty() {
                        e += &format!(" {}", if name.is_empty() { user } else { format!("\"{name}\" <{user}>") });
                        g += &format!(" {}", line("From: "));
                    }
                } else if ask {
                    g += " nothing sent";
                }
                (want, got) = (e, g);
            }
        }
        9 | 10 => {
            what = "capability";
            let (n, _) = *r.pick(CAPS);
            script = format!("require \"{n}\"; discard;");
            let t = run!(&script, MSG, |_| (), host);
            want = if w.cpu < 3 { "?".into() } else { format!("{}", w.off.contains(n)) };
            got = if w.cpu < 3 { "?".into() } else { format!("{}", t.errs() == [format!("CapabilityNotAllowed({n})")]) };
        }
        11 => {
            what = "protected header";
            let n = *r.pick(PROT);
            let n2 = if r.chance(1, 2) { n.to_ascii_lowercase() } else { n.to_string() };
            script = req("\"editheader\"") + &format!("deleteheader \"{n2}\"; if exists \"{n}\" {{ discard; }}");
            let t = run!(&script, MSG, |_| (), host);
            // From, To, Subject, Received … are not deleted by RFC 5293 anyway
            let kept = w.protected.iter().any(|p| p.eq_ignore_ascii_case(n));
            want = if w.cpu < 12 { "?".into() } else { kept.to_string() };
            got = if w.cpu < 12 { "?".into() } else { t.events().any(|e| matches!(e, Event::Discard)).to_string() };
        }
        12 => {
            what = "environment";
            let n = *r.pick(&["name", "domain", "vnd.x", "version"]);
            script = req("\"vnd.stalwart.expressions\"") + &format!("eval \"t(env.{n})\";");
            let t = run!(&script, MSG, |_| (), host);
            let mut e = x.env.get(n).or(w.env.get(n)).cloned().unwrap_or_default();
            let mut g = t.marks().concat();
            if n == "version" {
                (e, g) = ("true".into(), (!g.is_empty() && g.chars().all(|c| c.is_ascii_digit() || c == '.')).to_string());
            }
            (want, got) = if w.cpu < 12 { ("?".into(), "?".into()) } else { (e, g) };
        }
        13 => {
            what = "metadata";
            let n = *r.pick(&["/private/a", "/shared/b"]);
            script = req("\"servermetadata\", \"variables\", \"vnd.stalwart.expressions\"") + &format!("if servermetadata :matches \"{n}\" \"*\" {{ set \"v\" \"${{0}}\"; eval \"t(v)\"; }}");
            let t = run!(&script, MSG, |_| (), host);
            let e = x.meta.iter().find(|m| m.0 == n).or(w.meta.iter().find(|m| m.0 == n)).map(|m| cut(&m.1)).unwrap_or_default();
            (want, got) = if w.cpu < 12 { ("?".into(), "?".into()) } else { (e, t.marks().concat()) };
        }
        14 => {
            what = "notification methods";
            let n = *r.pick(URIS);
            script = req("\"enotify\"") + &format!("if valid_notify_method \"{n}:x@example.org\" {{ discard; }}");
            let t = run!(&script, MSG, |_| (), host);
            (want, got) = if w.cpu < 12 { ("?".into(), "?".into()) } else { (w.uris.contains(n).to_string(), t.events().any(|e| matches!(e, Event::Discard)).to_string()) };
        }
        15 => {
            what = "lists";
            let n = *r.pick(LISTS);
            script = req("\"extlists\"") + &format!("if valid_ext_list \"{n}\" {{ discard; }}");
            let t = run!(&script, MSG, |_| (), host);
            (want, got) = if w.cpu < 12 { ("?".into(), "?".into()) } else { (w.lists.contains(n).to_string(), t.events().any(|e| matches!(e, Event::Discard)).to_string()) };
        }
        16 => {
            what = "duplicate";
            script = req("\"duplicate\"") + "if duplicate { discard; }";
            let t = run!(&script, MSG, |_| (), host);
            let e = t.events().find_map(|e| if let Event::DuplicateId { expiry, .. } = e { Some(*expiry) } else { None });
            (want, got) = if w.cpu < 12 { ("?".into(), "?".into()) } else { (format!("{:?}", Some(w.dup)), format!("{e:?}")) };
        }
        17 => {
            what = "global variables";
            let n = *r.pick(&["ga", "gb"]);
            script = req("\"include\", \"variables\", \"vnd.stalwart.expressions\"") + &format!("eval \"t(global.{n})\";");
            let t = run!(&script, MSG, |_| (), host);
            (want, got) = if w.cpu < 12 { ("?".into(), "?".into()) } else { (x.globals.get(n).cloned().unwrap_or_default(), t.marks().concat()) };
        }
        _ => {
            what = "spam and virus status";
            script = req("\"spamtestplus\", \"virustest\", \"relational\", \"comparator-i;ascii-numeric\", \"variables\", \"vnd.stalwart.expressions\"")
                + "if spamtest :percent :matches \"*\" { set \"v\" \"${0}\"; eval \"t(v)\"; }\nif virustest :matches \"*\" { set \"v\" \"${0}\"; eval \"t(v)\"; }";
            let t = run!(&script, MSG, |_| (), host);
            let e = [x.spam.map_or("0".to_string(), |s| ((s * 100.0) as i64).to_string()), x.virus.to_string()].map(|s| cut(&s));
            (want, got) = if w.cpu < 20 { ("?".into(), "?".into()) } else { (format!("{e:?}"), format!("{:?}", t.marks())) };
        }
    }
    if want == "?" {
        rep.trivial();
        return;
    }
    rep.ok(&(what, &want, format!("{w:?}{ops:?}")));
    rep.cover(what);
    if want != got {
        rep.fail(what, format!("{got} instead of {want}\nruntime {w:?}\ncontext {ops:?}\n{script}"));
        return;
    }
    rep.sample(|| format!("{what}: {want}; {w:?} {ops:?}"));
}

#[derive(Clone, Debug)]
struct Lim {
    /// script, string, name, blocks, tests, parts, matches, locals, header, includes
    n: [usize; 10],
    unchecked: bool,
}
const DEF: Lim = Lim { n: [1 << 20, 4096, 32, 15, 15, 3, 30, 128, 1024, 6], unchecked: false };

fn compiler(r: &mut Rng, l: &mut Lim, ops: usize) -> Compiler {
    let mut c = Compiler::new();
    for _ in 0..ops {
        let k = r.below(11);
        let n = match k {
            0 => 600 + r.below(5000),
            1 => 16 + r.below(5000),
            2 => 8 + r.below(60),
            6 | 7 => r.below(80),
            8 => r.below(2000),
            _ => r.below(22),
        };
        if k == 10 {
            l.unchecked = r.chance(1, 2);
            put!(r, c, set_no_capability_check, with_no_capability_check, l.unchecked);
            continue;
        }
        l.n[k] = n;
        match k {
            0 => put!(r, c, set_max_script_size, with_max_script_size, n),
            1 => put!(r, c, set_max_string_size, with_max_string_size, n),
            2 => put!(r, c, set_max_variable_name_size, with_max_variable_name_size, n),
            3 => put!(r, c, set_max_nested_blocks, with_max_nested_blocks, n),
            4 => put!(r, c, set_max_nested_tests, with_max_nested_tests, n),
            5 => put!(r, c, set_max_nested_foreverypart, with_max_nested_foreverypart, n),
            6 => put!(r, c, set_max_match_variables, with_max_match_variables, n),
            7 => put!(r, c, set_max_local_variables, with_max_local_variables, n),
            8 => put!(r, c, set_max_header_size, with_max_header_size, n),
            _ => put!(r, c, set_max_includes, with_max_includes, n),
        }
    }
    c
}

fn limits(rep: &mut Rep, r: &mut Rng, c: &Compiler, l: &Lim) {
    let k = r.below(11);
    let near = |l: usize, r: &mut Rng| (l + 2).saturating_sub(r.below(4));
    let cap = |s: &str| if l.unchecked { String::new() } else { format!("require \"{s}\";\n") };
    // text, longest string, how the error is called if the number is beyond the limit
    let (script, longest, err) = match k {
        0 => {
            let n = near(l.n[0], r);
            (format!("#{}", "x".repeat(n.max(1) - 1)), 0, (n > l.n[0]).then_some("ScriptTooLong"))
        }
        1 => {
            let n = near(l.n[1], r);
            (format!("redirect \"{}\";", "x".repeat(n)), 0, (n >= l.n[1]).then_some("StringTooLong"))
        }
        2 => {
            let n = near(l.n[2], r);
            (format!("{}{}global \"{}\";", cap("include"), cap("variables"), "g".repeat(n)), n, (n >= l.n[2]).then_some("VariableTooLong"))
        }
        3 => {
            let n = near(l.n[3], r);
            (format!("{}{}", "if true {".repeat(n), "}".repeat(n)), 0, (n > l.n[3]).then_some("TooManyNestedBlocks"))
        }
        4 => {
            let n = near(l.n[4], r);
            if l.n[3] == 0 {
                return rep.trivial();
            }
            (format!("if {}true{} {{}}", "anyof(".repeat(n), ")".repeat(n)), 0, (n > l.n[4]).then_some("TooManyNestedTests"))
        }
        5 => {
            // the directly enclosing loop does not count
            let n = near(l.n[5] + 1, r);
            if n > l.n[3] {
                return rep.trivial();
            }
            (format!("{}{}{}", cap("foreverypart"), "foreverypart {".repeat(n), "}".repeat(n)), 0, (n > l.n[5] + (l.n[5] > 0) as usize).then_some("TooManyNestedForEveryParts"))
        }
        6 => {
            let n = near(l.n[6], r);
            (format!("{}redirect \"${{{n}}}\";", cap("variables")), 5, (n >= l.n[6].min(63)).then_some("InvalidMatchVariable"))
        }
        7 => {
            let n = near(l.n[7], r);
            let mut s = cap("variables");
            for i in 0..n {
                s += &format!("set \"v{i}\" \"\";");
            }
            (s, 4, (n > l.n[7].min(256)).then_some("TooManyVariables"))
        }
        8 => {
            let n = near(l.n[8], r);
            (format!("{}addheader \"X-A\" \"{}\";", cap("editheader"), "h".repeat(n)), n, (n > l.n[8]).then_some("HeaderTooLong"))
        }
        9 => {
            let n = near(l.n[9], r);
            (format!("{}{}", cap("include"), "include \"s\";".repeat(n)), 1, (n > l.n[9]).then_some("TooManyIncludes"))
        }
        _ => ("discard; fileinto \"x\";".to_string(), 1, (!l.unchecked).then_some("UndeclaredCapability")),
    };
    if k != 0 && script.len() > l.n[0] || longest.max(12) >= l.n[1] {
        return rep.trivial();
    }
    rep.ok(&(&script, format!("{l:?}")));
    rep.cover("compiler");
    let got = match run::no_panic(|| c.compile(script.as_bytes())) {
        Ok(Ok(_)) => None,
        Ok(Err(e)) => Some(format!("{:?}", e.error_type()).split(['(', ' ']).next().unwrap().to_string()),
        Err(p) => Some(p),
    };
    if got.as_deref() != err {
        rep.fail("compiler limit", format!("{got:?} instead of {err:?}\n{l:?} (kind {k})\n{}", &script[..script.len().min(300)]));
    }
}

fn directed(rep: &mut Rep) {
    let mut r2 = Rng::new(8);
    for _ in 0..200 {
        limits(rep, &mut r2, &Compiler::new(), &DEF);
    }
    let mut r = Rng::new(7);
    let rt = Runtime::new().with_capability(Capability::Expressions).with_functions(&mut run::functions());
    for _ in 0..300 {
        probe(rep, &mut r, &rt, &fresh(), &[], &Ctx { virus: "0", ..Default::default() });
    }
}
