//! What can be no address and what is no URI is not used as one.
use crate::gen::quote;
use crate::props::p25;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::{Event, Input, Recipient};

pub const PROP: Prop = Prop { id: "P36", quick: 1_800_000, thorough: 40_000_000, directed, case };

const MSG: &[u8] = b"From: Sender <sender@remote.org>\r\nTo: me@home.net\r\nSubject: x\r\n\r\nbody\r\n";

/// Characters and whether they are within quotation marks; the marks themselves are left out.
fn unquote(s: &str) -> Vec<(char, bool)> {
    let mut o = vec![];
    let mut q = false;
    let mut prev = ' ';
    for c in s.chars() {
        if c == '"' {
            // a mark after a backslash does not end what is quoted
            if !q || prev != '\\' {
                q = !q;
            }
        } else {
            o.push((c, q));
        }
        prev = c;
    }
    o
}
/// The address to redirect to, if it can be one.
fn address(s: &str) -> Option<String> {
    let all = unquote(s);
    let mut last = String::new();
    let parts: Vec<&[(char, bool)]> = all.split(|c| c.0 == '<').collect();
    for (i, p) in parts.iter().enumerate() {
        let kept: Vec<(char, bool)> = p.iter().copied().filter(|(c, q)| *c != '>' && (!c.is_ascii_whitespace() || *q && !"\r\n".contains(*c))).collect();
        let ats: Vec<usize> = (0..kept.len()).filter(|k| kept[*k] == ('@', false)).collect();
        if ats.len() > 1 || ats.first() == Some(&0) {
            return None;
        }
        if i + 1 == parts.len() {
            let at = *ats.first()?;
            kept[at..].iter().position(|c| *c == ('.', false))?;
            last = kept.iter().map(|c| c.0).collect();
        }
    }
    Some(last)
}
fn junk(r: &mut Rng) -> String {
    let n = r.below(9);
    (0..n).map(|_| *r.pick(&["a", "a", "b.c", "@", "@", ".", "<", ">", "\"", "\\", " ", "\t", "\r\n", "\u{e9}", "x@y.z", "<a@b.c>", ",", "\u{a0}", ":", "(c)"])).collect()
}
/// An address in one of its usual forms, and what is wrong with it if something is.
fn typical(r: &mut Rng) -> (String, Option<String>, &'static str) {
    let local = *r.pick(&["user", "first.last", "u+detail", "\u{e9}", "x", "A_B-c"]);
    let domain = *r.pick(&["example.org", "a.b", "sub.mail.example.org", "x-1.net", "\u{e9}.fr"]);
    let (mut l, mut at, mut d) = (local, "@", domain);
    let wrong = match r.below(10) {
        0 => {
            at = *r.pick(&["", "#", " at "]);
            "no at sign"
        }
        1 => {
            at = *r.pick(&["@@", "@x@"]);
            "two at signs"
        }
        2 => {
            d = *r.pick(&["localhost", "", "example,org"]);
            "no dot in the domain"
        }
        3 => {
            l = "";
            "nothing before the at sign"
        }
        _ => "",
    };
    let a = format!("{l}{at}{d}");
    let ok = if wrong.is_empty() { Some(a.clone()) } else { None };
    let form = r.below(7);
    let s = match form {
        0 | 1 => a,
        2 => format!("<{a}>"),
        3 => format!("Some Name <{a}>"),
        4 => format!("\"Name, Some\" <{a}>"),
        5 => format!(" \"at@home.org \\\" <x\" <{a}> "),
        _ => format!("  {a}\t\r\n"),
    };
    (s, ok, if wrong.is_empty() { "address" } else { wrong })
}

fn redirects(rep: &mut Rep, given: &[(String, bool)], lists: u64) {
    let mut script = String::from("discard;\n");
    let mut want = vec![];
    for (i, (s, var)) in given.iter().enumerate() {
        let a = if *var {
            script += &format!("set \"v{i}\" {};\n", quote(s));
            format!("\"${{v{i}}}\"")
        } else {
            quote(s)
        };
        if lists >> (i % 64) & 1 == 1 {
            // names of lists are passed on
            script += &format!("redirect :list :copy {a};\n");
            if !s.is_empty() {
                want.push(format!("{:?}", Recipient::List(s.clone())));
                rep.cover("list");
            }
            continue;
        }
        script += &format!("redirect :copy {a};\n");
        if let Some(a) = address(s) {
            want.push(a);
        }
    }
    rep.current = script.clone();
    let cur = script;
    let rt = run::runtime().with_max_redirects(1000).with_max_out_messages(1000);
    let tr = match run::simple_with(&cur, MSG, &rt, |c| c.set_user_address("nobody@nowhere.invalid"), &mut |_| Input::True) {
        Ok(t) => t,
        Err(e) => return rep.fail("compile", format!("{e}\n{cur}")),
    };
    rep.ok(&cur);
    if let Some(e) = tr.broken() {
        return rep.fail("broken", format!("{e}\n{cur}"));
    }
    let got: Vec<String> = tr
        .events()
        .filter_map(|e| match e {
            Event::SendMessage { recipient: Recipient::Address(a), .. } => Some(a.clone()),
            Event::SendMessage { recipient, .. } => Some(format!("{recipient:?}")),
            _ => None,
        })
        .collect();
    if got != want || !matches!(tr.events().last(), Some(Event::Discard)) {
        return rep.fail("redirect", format!("expected {want:?}\nobserved {got:?}\nof {given:?}\n{cur}"));
    }
    rep.cover_n("redirected", want.len() as u64);
    rep.cover_n("not redirected", (given.len() - want.len()) as u64);
}

/// A URI, whether it is well formed, and its scheme.
fn uri(r: &mut Rng) -> (String, bool) {
    match r.below(8) {
        0 => (r.pick(p25::BAD).to_string(), false).fix(),
        1 | 2 => (p25::mailto(r).0, true),
        3 => {
            // a good one damaged
            let (t, _) = p25::mailto(r);
            let body = &t[7..];
            match r.below(6) {
                0 => (t.replacen(':', "", 1), false),
                1 => (format!("mailto:x{}%", body), false),
                2 => (format!("mailto:x{}%4", body), false),
                3 => (format!("mailto:nobody,{body}"), false),
                4 => (format!("mailto:x@y.z%{}", *r.pick(&["4g", "g4", "  ", "%%", "-1", "\u{e9}"])), false),
                _ => (format!("mailto:one@two@{body}"), false),
            }
        }
        4 => (format!("{}:{}", r.pick(&["xmpp", "tel", "http", "https"]), r.pick(&["a", "a@b.c", "+1", "//x.y/?z", ":", " "])), true),
        5 => (format!("{}:", r.pick(&["xmpp", "tel", "http", "https", "mailto", ""])), false),
        6 => (format!("{}:{}", r.pick(&["ftp", "xmp", "xmpps", "x", "", "urn", "mail to", "sms", "httpss", "tels"]), r.pick(&["a", "a@b.c"])), false),
        _ => (r.pick(&["", "xmpp", "tel", "https", "mailto", "a@b.c", "x y z", "//x"]).to_string(), false),
    }
}
trait Fix {
    fn fix(self) -> Self;
}
impl Fix for (String, bool) {
    /// This one is well formed.
    fn fix(self) -> Self {
        let ok = self.0 == "mailto:a@b.c?subject";
        (self.0, ok)
    }
}

fn uris(rep: &mut Rep, r: &mut Rng) {
    let us: Vec<(String, bool)> = (0..1 + r.below(6)).map(|_| uri(r)).collect();
    // some schemes and some whole URIs are enabled
    let mut enabled: Vec<String> = vec![];
    for s in ["mailto", "xmpp", "tel", "http", "https", "ftp"] {
        if r.chance(1, 2) {
            enabled.push(s.into());
        }
    }
    for u in &us {
        if r.chance(1, 6) {
            enabled.push(u.0.clone());
        }
    }
    let ok = |u: &(String, bool)| u.1 && (enabled.contains(&u.0) || enabled.iter().any(|e| *e == u.0.split(':').next().unwrap()));
    let mut script = String::new();
    let mut want = vec![];
    for (i, u) in us.iter().enumerate() {
        script += &format!("set \"u{i}\" {};\n", quote(&u.0));
        let a = if r.chance(1, 2) { format!("\"${{u{i}}}\"") } else { quote(&u.0) };
        // alone, and together with what is valid
        script += &format!("if valid_notify_method {a} {{ eval \"t('{i}')\"; }} else {{ eval \"t('-{i}')\"; }}\n");
        want.push(if ok(u) { format!("{i}") } else { format!("-{i}") });
        if r.chance(1, 3) {
            let cap = *r.pick(&["online", "Online", "offline"]);
            script += &format!("if not notify_method_capability {a} \"{cap}\" \"maybe\" {{ eval \"t('no')\"; }} else {{ eval \"t('yes')\"; }}\n");
            want.push(if ok(u) && cap != "offline" { "yes" } else { "no" }.into());
        }
    }
    let picks: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(us.len())).collect();
    script += &format!("if not valid_notify_method [{}] {{ eval \"t('none')\"; }} else {{ eval \"t('all')\"; }}\n", picks.iter().map(|i| quote(&us[*i].0)).collect::<Vec<_>>().join(", "));
    want.push(if picks.iter().all(|i| ok(&us[*i])) { "all" } else { "none" }.into());
    rep.current = format!("{script}enabled {enabled:?}");
    let cur = rep.current.clone();
    let mut rt = sieve::Runtime::new().with_capability(sieve::compiler::grammar::Capability::Expressions).with_functions(&mut run::functions()).with_cpu_limit(6000);
    rt.valid_notification(&enabled);
    let tr = match run::simple_with(&script, MSG, &rt, |_| (), &mut |_| Input::True) {
        Ok(t) => t,
        Err(e) => return rep.fail("compile", format!("{e}\n{cur}")),
    };
    rep.ok(&cur);
    if let Some(e) = tr.broken() {
        return rep.fail("broken", format!("{e}\n{cur}"));
    }
    let got = tr.marks();
    if got != want {
        return rep.fail("notification methods", format!("expected {want:?}\nobserved {got:?}\n{cur}"));
    }
    for u in &us {
        rep.cover(match (u.1, ok(u)) {
            (true, true) => "method enabled",
            (true, false) => "method not enabled",
            _ => "no URI",
        });
    }
    rep.sample(|| cur.clone());
    // as a constant
    let k = r.below(us.len());
    let text = format!("keep;\nnotify {};\n", quote(&us[k].0));
    let res = run::compile(&run::compiler(), &text);
    match (&res, us[k].1) {
        (Ok(_), true) => rep.cover("constant method accepted"),
        (Err(e), false) if e.contains("InvalidURI") && e.contains("line 2") => rep.cover("constant method refused"),
        _ => rep.fail("constant method", format!("{:?}\n{text}", res.err())),
    }
}
trait Enable {
    fn valid_notification(&mut self, v: &[String]);
}
impl Enable for sieve::Runtime {
    fn valid_notification(&mut self, v: &[String]) {
        for s in v {
            self.set_valid_notification_uri(s.clone());
        }
    }
}

fn senders(rep: &mut Rep, r: &mut Rng) {
    let (mut s, ok, mut what) = typical(r);
    let mut good = ok.is_some() && !s.contains('\u{e9}') && !s.contains("\\\"");
    if !good && ok.is_some() {
        return rep.trivial();
    }
    if good && r.chance(1, 3) {
        let a = ok.unwrap();
        good = false;
        what = "brackets";
        s = match r.below(6) {
            0 => format!("<{a}"),
            1 => format!("{a}>"),
            2 => format!("<<{a}>>"),
            3 => format!("Me <{a}> <{a}>x<"),
            4 => format!("<{a}>>"),
            _ => format!("\"<{a}>"),
        };
    } else if !good && (s.contains("at@home") || what == "nothing before the at sign" && s.contains("\"")) {
        return rep.trivial();
    }
    let text = format!("notify :from {} \"xmpp:a@b.c\";\n", quote(&s));
    rep.current = text.clone();
    rep.ok(&text);
    let res = run::compile(&run::compiler(), &text);
    match (&res, good) {
        (Ok(_), true) => rep.cover("sender accepted"),
        (Err(e), false) if e.contains("InvalidAddress") => {
            rep.cover("sender refused");
            rep.cover(what);
        }
        _ => rep.fail("sender", format!("{what}: {:?}\n{text}", res.err())),
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    match r.below(4) {
        0 => uris(rep, r),
        1 => {
            for _ in 0..3 {
                senders(rep, r);
            }
        }
        _ => {
            let mut given = vec![];
            for _ in 0..1 + r.below(6) {
                let s = if r.chance(1, 2) {
                    let (s, ok, what) = typical(r);
                    // the reference is right about the usual forms
                    if address(&s) != ok {
                        rep.current = s.clone();
                        return rep.fail("reference", format!("{s:?} {ok:?} {what}"));
                    }
                    rep.cover(what);
                    s
                } else {
                    junk(r)
                };
                given.push((s, r.chance(1, 3)));
            }
            let lists = if r.chance(1, 4) { r.next() } else { 0 };
            redirects(rep, &given, lists);
        }
    }
}

fn directed(rep: &mut Rep) {
    // every short text over the characters that matter
    let abc = ['a', '@', '.', '<', '>', '"', '\\', ' ', '\r'];
    let mut all: Vec<String> = vec![String::new()];
    let mut level = all.clone();
    for _ in 0..6 {
        level = level.iter().flat_map(|s| abc.iter().map(move |c| format!("{s}{c}"))).collect();
        // longer ones need an at sign and a dot soon
        if level[0].len() == 6 {
            level.retain(|s| s.contains('@') && s.contains('.'));
        }
        all.extend(level.iter().cloned());
    }
    let mut r = Rng::new(rep.seed);
    let work: Vec<(String, bool)> = all.into_iter().map(|s| (s, false)).collect();
    for c in work.chunks(400) {
        redirects(rep, c, 0x40_1000);
    }
    for _ in 0..2000 {
        senders(rep, &mut r);
    }
}
