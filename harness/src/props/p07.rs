//! Outgoing messages are bounded: redirects, vacation replies and notifications are sent exactly while
//! the limits allow it, in loops and included scripts as well, and a refused redirect keeps the message.
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::{Event, Input, Recipient, Sieve};

pub const PROP: Prop = Prop { id: "P07", quick: 1_600_000, thorough: 10_000_000, directed, case };

#[derive(Clone, Debug)]
enum St {
    /// copy, list, recipient
    Redirect(bool, bool, String),
    Mailto(u32, bool),
    Other(u32),
    Vacation(u32),
    Keep,
    Discard,
    Loop(u32, u32, Vec<St>),
    Parts(Vec<St>),
    Include(usize),
    If(bool, Vec<St>),
}

struct G<'a> {
    r: &'a mut Rng,
    n: u32,
}

impl G<'_> {
    fn block(&mut self, d: usize, lvl: usize) -> Vec<St> {
        (0..1 + self.r.below(5)).map(|_| self.st(d, lvl)).collect()
    }
    fn st(&mut self, d: usize, lvl: usize) -> St {
        self.n += 1;
        let n = self.n;
        match self.r.below(if d > 2 { 9 } else { 13 }) {
            0..=2 => {
                let a = match self.r.below(8) {
                    0 => "ME@example.org".into(),
                    1 => "me@example.org".into(),
                    2 => "not an address".into(),
                    _ => format!("r{n}@dest.net"),
                };
                St::Redirect(self.r.chance(1, 2), self.r.chance(1, 6), a)
            }
            3 | 4 => St::Mailto(n, self.r.chance(1, 4)),
            5 => St::Other(n),
            6 | 7 => St::Vacation(n),
            8 => {
                if self.r.chance(1, 2) {
                    St::Keep
                } else {
                    St::Discard
                }
            }
            9 | 10 => {
                let k = 1 + self.r.below(4) as u32;
                St::Loop(n, k, self.block(d + 1, lvl))
            }
            11 if lvl < 2 => St::Include(lvl + 1),
            11 => St::If(self.r.chance(2, 3), self.block(d + 1, lvl)),
            _ => St::Parts(self.block(3, lvl)),
        }
    }
}

fn text(b: &[St], o: &mut String) {
    for s in b {
        match s {
            St::Redirect(c, l, a) => *o += &format!("redirect{}{} \"{a}\";\n", if *c { " :copy" } else { "" }, if *l { " :list" } else { "" }),
            St::Mailto(n, fcc) => *o += &format!("notify :message \"n{n}\"{} \"mailto:n{n}@dest.net\";\n", if *fcc { " :fcc \"Sent\"" } else { "" }),
            St::Other(n) => *o += &format!("notify \"xmpp:n{n}\";\n"),
            St::Vacation(n) => *o += &format!("vacation :handle \"h{n}\" \"gone\";\n"),
            St::Keep => *o += "keep;\n",
            St::Discard => *o += "discard;\n",
            St::Loop(n, k, b) => {
                *o += &format!("let \"i{n}\" \"0\";\nwhile \"i{n} < {k}\" {{\nlet \"i{n}\" \"i{n} + 1\";\n");
                text(b, o);
                *o += "}\n";
            }
            St::Parts(b) => {
                *o += "foreverypart {\n";
                text(b, o);
                *o += "}\n";
            }
            St::Include(k) => *o += &format!("include \"s{k}\";\n"),
            St::If(c, b) => {
                *o += &format!("if {c} {{\n");
                text(b, o);
                *o += "}\n";
            }
        }
    }
}

#[derive(Default)]
struct Ref<'a> {
    scripts: Vec<&'a [St]>,
    dup: Vec<bool>,
    asked: usize,
    red: usize,
    out: usize,
    max_red: usize,
    max_out: usize,
    received: usize,
    max_received: usize,
    reply_ok: bool,
    notify_ok: bool,
    parts: usize,
    nested: bool,
    exp: Vec<String>,
    fin: Option<&'static str>,
    explicit: bool,
    refused: [u64; 4],
}

impl Ref<'_> {
    fn run(&mut self, b: &[St]) {
        for s in b {
            if self.exp.len() > 400 {
                return;
            }
            match s {
                St::Redirect(copy, list, a) => {
                    if !list && !a.contains('@') {
                        self.refused[3] += 1;
                        continue;
                    }
                    if self.red >= self.max_red || self.out >= self.max_out || self.received >= self.max_received {
                        self.refused[0] += 1;
                        continue;
                    }
                    if !list && a.eq_ignore_ascii_case("me@example.org") {
                        self.refused[3] += 1;
                        continue;
                    }
                    self.red += 1;
                    self.out += 1;
                    if !copy && !self.explicit && self.fin == Some("keep") {
                        self.fin = None;
                    }
                    self.exp.push(format!("redirect {a}"));
                }
                St::Mailto(n, fcc) => {
                    if !self.notify_ok {
                        continue;
                    }
                    if self.out < self.max_out {
                        self.exp.push(format!("mailto n{n}@dest.net"));
                        self.out += 1;
                    } else {
                        // handed to the host, which knows what to do with it
                        self.refused[1] += 1;
                        self.exp.push(format!("notify mailto:n{n}@dest.net"));
                        self.out += 1;
                    }
                    if *fcc {
                        self.exp.push("fcc".into());
                    }
                }
                St::Other(n) => {
                    if self.notify_ok {
                        self.exp.push(format!("notify xmpp:n{n}"));
                        self.out += 1;
                    }
                }
                St::Vacation(n) => {
                    if self.out >= self.max_out {
                        self.refused[2] += 1;
                        continue;
                    }
                    if !self.reply_ok || self.received > self.max_received {
                        continue;
                    }
                    self.exp.push(format!("duplicate? _vsender@remote.orgh{n}"));
                    let d = self.dup[self.asked % self.dup.len()];
                    self.asked += 1;
                    if !d {
                        self.out += 1;
                        self.exp.push("reply sender@remote.org".into());
                    }
                }
                St::Keep => {
                    self.fin = Some("keep");
                    self.explicit = true;
                }
                St::Discard => {
                    if !self.explicit {
                        self.fin = Some("discard");
                    }
                }
                St::Loop(_, k, b) => {
                    for _ in 0..*k {
                        self.run(b);
                    }
                }
                St::Parts(b) => {
                    let n = if self.nested { 0 } else { self.parts };
                    self.nested = true;
                    for _ in 0..n {
                        self.run(b);
                    }
                    self.nested = n == 0;
                }
                St::Include(k) => {
                    let b = self.scripts[*k];
                    self.run(b);
                }
                St::If(c, b) => {
                    if *c {
                        self.run(b);
                    }
                }
            }
        }
    }
}

fn observed(items: &[Tr]) -> Vec<String> {
    let mut o = vec![];
    for i in items {
        match i {
            Tr::Ev(Event::SendMessage { recipient: Recipient::Address(a), message_id: 0, .. } | Event::SendMessage { recipient: Recipient::List(a), message_id: 0, .. }) => o.push(format!("redirect {a}")),
            Tr::Ev(Event::SendMessage { recipient: Recipient::Address(a), .. }) => o.push(format!("reply {a}")),
            Tr::Ev(Event::SendMessage { recipient: Recipient::Group(v), .. }) => o.push(format!("mailto {}", v.join(","))),
            Tr::Ev(Event::Notify { method, .. }) => o.push(format!("notify {method}")),
            Tr::Ev(Event::DuplicateId { id, .. }) => o.push(format!("duplicate? {id}")),
            Tr::Ev(Event::FileInto { .. }) => o.push("fcc".into()),
            Tr::Ev(Event::Keep { .. }) => o.push("keep".into()),
            Tr::Ev(Event::Discard) => o.push("discard".into()),
            Tr::Ev(Event::CreatedMessage { .. } | Event::IncludeScript { .. }) => (),
            t => o.push(run::show_tr(t)),
        }
    }
    o
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut g = G { r, n: 0 };
    let scripts: Vec<Vec<St>> = (0..3).map(|l| g.block(if l == 0 { 0 } else { 2 }, l)).collect();
    check(rep, r, &scripts)
}

fn check(rep: &mut Rep, r: &mut Rng, scripts: &[Vec<St>]) {
    let small = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 3, 4, 7, 20]);
    let (max_red, max_out) = (small(r), small(r));
    let received = r.below(5);
    let max_received = if r.chance(1, 2) { r.below(6) } else { 50 };
    let auto = match r.below(8) {
        0 => "Auto-Submitted: auto-generated\r\n",
        1 => "Auto-Submitted: No\r\n",
        2 => "List-Id: <x>\r\n",
        _ => "",
    };
    let multi = r.chance(1, 2);
    let mut msg = String::new();
    for i in 0..received {
        msg += &format!("{}: from a{i} by b; Fri, 21 Nov 1997 10:01:10 -0600\r\n", r.pick(&["Received", "RECEIVED", "received"]));
    }
    msg += auto;
    msg += "From: sender@remote.org\r\nTo: me@example.org\r\nSubject: s\r\n";
    msg += if multi { "Content-Type: multipart/mixed; boundary=\"bb\"\r\n\r\n--bb\r\nContent-Type: text/plain\r\n\r\na\r\n--bb\r\nContent-Type: text/html\r\n\r\nb\r\n--bb--\r\n" } else { "\r\nbody\r\n" };
    let dup: Vec<bool> = (0..1 + r.below(4)).map(|_| r.chance(1, 3)).collect();
    let mut m = Ref {
        scripts: scripts.iter().map(|s| s.as_slice()).collect(),
        dup: dup.clone(),
        max_red,
        max_out,
        received,
        max_received,
        reply_ok: !auto.contains("generated") && !auto.contains("List"),
        notify_ok: !auto.contains("generated"),
        parts: if multi { 3 } else { 1 },
        fin: Some("keep"),
        ..Default::default()
    };
    let main = m.scripts[0];
    m.run(main);
    if m.exp.len() > 400 {
        return rep.cover("too long");
    }
    if let Some(f) = m.fin {
        m.exp.push(f.into());
    }
    let texts: Vec<String> = scripts
        .iter()
        .map(|s| {
            let mut o = String::new();
            text(s, &mut o);
            o
        })
        .collect();
    let show = || format!("main:\n{}s1:\n{}s2:\n{}max_redirects {max_red} max_out_messages {max_out} max_received {max_received} received {received} {auto} duplicates {dup:?}", texts[0], texts[1], texts[2]);
    rep.current = show();
    let c = run::compiler().with_max_includes(1000).with_max_nested_foreverypart(10);
    let mut compiled: Vec<Sieve> = vec![];
    for t in &texts {
        match run::compile(&c, t) {
            Ok(s) => compiled.push(s),
            Err(e) => return rep.fail("a valid script is rejected", format!("{e}\n{t}")),
        }
    }
    let mut rt = run::runtime().with_max_redirects(max_red).with_max_out_messages(max_out);
    if r.chance(1, 2) {
        rt.set_max_received_headers(max_received);
    } else {
        rt = rt.with_max_received_headers(max_received);
    }
    let mut ctx = rt.filter(msg.as_bytes());
    run::std_context(&mut ctx);
    let mut asked = 0;
    let tr = run::drive(&mut ctx, compiled[0].clone(), 5_000, &mut |ev| match ev {
        Event::DuplicateId { .. } => {
            asked += 1;
            if dup[(asked - 1) % dup.len()] {
                Input::True
            } else {
                Input::False
            }
        }
        Event::IncludeScript { name, .. } => {
            let i: usize = name.as_str()[1..].parse().unwrap();
            Input::Script { name: name.clone(), script: compiled[i].clone().into() }
        }
        ev => run::default_answer(ev),
    });
    if let Some(b) = tr.broken() {
        return rep.fail("the run is broken", format!("{b}\n{}", show()));
    }
    let got = observed(&tr.items);
    if got != m.exp {
        return rep.fail("outgoing messages differ", format!("{}\n-- expected\n{}\n-- observed\n{}", show(), m.exp.join("\n"), got.join("\n")));
    }
    // independent of the reference: the limits themselves
    let n = |p: &str| got.iter().filter(|g| g.starts_with(p)).count();
    if n("redirect") > max_red || n("redirect") + n("reply") + n("mailto") > max_out {
        return rep.fail("a limit is exceeded", format!("{}\n{}", show(), got.join("\n")));
    }
    for (k, v) in ["redirects refused by a limit", "mailto beyond the limit", "replies refused by the limit", "redirects refused for their address"].iter().zip(m.refused) {
        rep.cover_n(k, v);
    }
    for k in ["redirect", "reply", "mailto", "notify"] {
        rep.cover_n(&format!("observed {k}"), n(k) as u64);
    }
    rep.sample(|| format!("{} => {}", show(), got.join(", ")));
    if got.len() > 1 {
        rep.ok(&(texts, max_red, max_out, received, max_received));
    } else {
        rep.trivial();
    }
}

fn directed(_: &mut Rep) {}
