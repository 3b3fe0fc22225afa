//! Tests that the host answers: what is asked, when, and what the answer means.
use crate::gen::quote;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::{runtime::Variable, Event, Input, Mailbox, MatchAs};

pub const PROP: Prop = Prop { id: "P18", quick: 950_000, thorough: 8_000_000, directed, case };

enum Node {
    Const(bool, String),
    Ask(String, Event, Ans),
    Not(Box<Node>),
    All(Vec<Node>),
    Any(Vec<Node>),
}
#[derive(Clone)]
enum Ans {
    Yes(bool),
    Val(Variable, bool),
}
struct B {
    script: String,
    n: usize,
    expiry: u64,
    /// known values of variables, in order
    msgid: Option<String>,
    xid: Option<String>,
}
const NAMES: &[&str] = &["INBOX", "Archive", "a/b", "\u{c9}t\u{e9}", "", "x y", "\\q", "urn:l1", "\"q\"", "${novar", "50%"];

impl B {
    fn text(&mut self, r: &mut Rng, nonempty: bool) -> String {
        loop {
            let s = r.pick(NAMES).to_string();
            if !nonempty || !s.is_empty() {
                return s;
            }
        }
    }
    fn str(&mut self, r: &mut Rng, s: &str) -> String {
        match r.below(6) {
            0 => {
                self.n += 1;
                self.script += &format!("set \"v{}\" {};\n", self.n, quote(s));
                format!("\"${{v{}}}\"", self.n)
            }
            1 if s.len() > 1 && s.is_char_boundary(1) => {
                self.n += 1;
                self.script += &format!("set \"v{}\" {};\n", self.n, quote(&s[1..]));
                let q = quote(&s[..1]);
                if s.starts_with('$') {
                    return quote(s);
                }
                format!("{}${{v{}}}\"", &q[..q.len() - 1], self.n)
            }
            _ => quote(s),
        }
    }
    fn strs(&mut self, r: &mut Rng, v: &[String]) -> String {
        let t: Vec<String> = v.iter().map(|s| self.str(r, s)).collect();
        if t.len() == 1 && r.chance(1, 2) {
            t[0].clone()
        } else {
            format!("[{}]", t.join(", "))
        }
    }
    fn list(&mut self, r: &mut Rng) -> Vec<String> {
        (0..1 + r.below(3)).map(|_| self.text(r, false)).collect()
    }
    fn leaf(&mut self, r: &mut Rng) -> Node {
        let yes = Ans::Yes(r.chance(1, 2));
        match r.below(10) {
            0 => {
                let b = r.chance(1, 2);
                let t = match r.below(4) {
                    0 | 1 => b.to_string(),
                    2 => format!("exists {}", if b { "\"Subject\"" } else { "\"X-None\"" }),
                    _ => format!("string :is \"a\" {}", if b { "\"A\"" } else { "\"b\"" }),
                };
                Node::Const(b, t)
            }
            1 => {
                let l = self.list(r);
                let t = format!("mailboxexists {}", self.strs(r, &l));
                Node::Ask(t, Event::MailboxExists { mailboxes: l.into_iter().map(Mailbox::Name).collect(), special_use: vec![] }, yes)
            }
            2 => {
                let l = self.list(r);
                let t = format!("mailboxidexists {}", self.strs(r, &l));
                Node::Ask(t, Event::MailboxExists { mailboxes: l.into_iter().map(Mailbox::Id).collect(), special_use: vec![] }, yes)
            }
            3 => {
                let l: Vec<String> = (0..1 + r.below(2)).map(|_| r.pick(&["\\Sent", "\\Trash", "\\x"]).to_string()).collect();
                let mut t = "specialuse_exists ".to_string();
                let mut mailboxes = vec![];
                if r.chance(1, 2) {
                    let m = self.text(r, false);
                    t += &self.str(r, &m);
                    t += " ";
                    mailboxes.push(Mailbox::Name(m));
                }
                t += &self.strs(r, &l);
                Node::Ask(t, Event::MailboxExists { mailboxes, special_use: l }, yes)
            }
            4..=6 => {
                let mut args = vec![];
                let id = match r.below(3) {
                    0 => {
                        let s = self.text(r, false);
                        args.push(format!(":uniqueid {}", self.str(r, &s)));
                        Some(s)
                    }
                    1 => {
                        let (n, v) = match r.below(4) {
                            0 | 1 => ("X-Event-Id", self.xid.clone()),
                            2 => ("Message-ID", self.msgid.clone()),
                            _ => ("X-None", None),
                        };
                        args.push(format!(":header {}", self.str(r, n)));
                        v
                    }
                    _ => self.msgid.clone(),
                };
                let mut pre = String::new();
                if r.chance(1, 2) {
                    pre = self.text(r, false);
                    args.push(format!(":handle {}", self.str(r, &pre)));
                }
                let mut expiry = self.expiry;
                if r.chance(1, 2) {
                    expiry = *r.pick(&[0, 1, 60, 86_400, 4_000_000_000, 1 << 40]);
                    args.push(format!(":seconds {expiry}"));
                }
                let last = r.chance(1, 3);
                if last {
                    args.push(":last".into());
                }
                r.shuffle(&mut args);
                let t = format!("duplicate {}", args.join(" "));
                match id {
                    Some(id) if !id.is_empty() => Node::Ask(t, Event::DuplicateId { id: pre + &id, expiry, last }, yes),
                    _ => Node::Const(false, t),
                }
            }
            7 | 8 => {
                let s = self.text(r, true);
                let l = self.list(r);
                let (c, match_as) = match r.below(5) {
                    0 => (":comparator \"i;octet\" ", MatchAs::Octet),
                    1 => (":comparator \"i;ascii-numeric\" ", MatchAs::Number),
                    2 => (":comparator \"i;ascii-casemap\" ", MatchAs::Lowercase),
                    _ => ("", MatchAs::Lowercase),
                };
                let (w, v, s) = match r.below(3) {
                    0 => ("header", "Hello".to_string(), "\"subject\"".into()),
                    1 => ("address", "me@example.org".into(), "\"to\"".into()),
                    _ => ("string", s.clone(), self.str(r, &s)),
                };
                let t = format!("{w} {c}:list {s} {}", self.strs(r, &l));
                Node::Ask(t, Event::ListContains { lists: l, values: vec![v], match_as }, yes)
            }
            _ => {
                let k = self.n;
                self.n += 1;
                let (v, b): (Variable, bool) = match r.below(4) {
                    0 => (Variable::from(0i64), false),
                    1 => (Variable::from(""), false),
                    2 => (Variable::from("x"), true),
                    _ => (Variable::from(7i64), true),
                };
                Node::Ask(format!("eval \"q('k{k}')\""), Event::Function { id: run::Q, arguments: vec![Variable::from(format!("k{k}").as_str())] }, Ans::Val(v, b))
            }
        }
    }
    fn node(&mut self, r: &mut Rng, depth: usize) -> Node {
        if depth == 0 || r.chance(2, 5) {
            return self.leaf(r);
        }
        match r.below(3) {
            0 => Node::Not(Box::new(self.node(r, depth - 1))),
            k => {
                let v = (0..1 + r.below(3)).map(|_| self.node(r, depth - 1)).collect();
                if k == 1 {
                    Node::All(v)
                } else {
                    Node::Any(v)
                }
            }
        }
    }
}
impl Node {
    fn text(&self) -> String {
        match self {
            Node::Const(_, t) | Node::Ask(t, ..) => t.clone(),
            Node::Not(n) => format!("not {}", n.text()),
            Node::All(v) => format!("allof ({})", v.iter().map(|n| n.text()).collect::<Vec<_>>().join(", ")),
            Node::Any(v) => format!("anyof ({})", v.iter().map(|n| n.text()).collect::<Vec<_>>().join(", ")),
        }
    }
    fn eval(&self, out: &mut Vec<(Event, Option<Ans>)>) -> bool {
        match self {
            Node::Const(b, _) => *b,
            Node::Ask(_, e, a) => {
                out.push((e.clone(), Some(a.clone())));
                match a {
                    Ans::Yes(b) | Ans::Val(_, b) => *b,
                }
            }
            Node::Not(n) => !n.eval(out),
            Node::All(v) => v.iter().all(|n| n.eval(out)),
            Node::Any(v) => v.iter().any(|n| n.eval(out)),
        }
    }
}
fn mark(s: &str) -> Event {
    Event::Function { id: run::T, arguments: vec![Variable::from(s)] }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let msgid = r.chance(2, 3).then(|| "id1@remote.org".to_string());
    let xid = r.chance(2, 3).then(|| r.pick(&["ev1@x.y", "a.b@c", "ev2@x.y"]).to_string());
    // an identifier the script adds
    let own = xid.clone();
    let mut xid = xid;
    let mut script = String::new();
    if r.chance(1, 4) {
        let last = r.chance(1, 2);
        let id = r.pick(&["new@x.y", "n2@a.b"]).to_string();
        script += &format!("addheader {}\"X-Event-Id\" \"{}<{id}>\";\n", if last { ":last " } else { "" }, r.pick(&["", " "]));
        if !last || xid.is_none() {
            xid = Some(id);
        }
    }
    let mut b = B { script, n: 0, expiry: *r.pick(&[604800, 7, 0]), msgid, xid };
    let mut out = vec![];
    for i in 0..1 + r.below(4) {
        let arms: Vec<Node> = (0..1 + r.below(3)).map(|_| b.node(r, 3)).collect();
        let mut done = false;
        for (k, n) in arms.iter().enumerate() {
            b.script += &format!("{} {} {{ eval \"t('{i}.{k}')\"; }}\n", if k == 0 { "if" } else { "elsif" }, n.text());
            if !done && n.eval(&mut out) {
                done = true;
                out.push((mark(&format!("{i}.{k}")), None));
            }
        }
        if r.chance(1, 2) {
            b.script += &format!("else {{ eval \"t('{i}.e')\"; }}\n");
            if !done {
                out.push((mark(&format!("{i}.e")), None));
            }
        }
        if r.chance(1, 2) {
            b.script += &format!("eval \"t('{i}')\";\n");
            out.push((mark(&i.to_string()), None));
        }
    }
    let mut msg = String::from("From: a@b.c\r\nTo: me@example.org\r\nSubject: Hello\r\n");
    if let Some(m) = &b.msgid {
        msg += &format!("Message-ID: <{m}>\r\n");
    }
    if let Some(m) = &own {
        if r.chance(1, 4) {
            msg += "X-Event-Id: \r\n";
        }
        msg += &format!("X-Event-Id: <{m}>\r\n");
        if r.chance(1, 4) {
            msg += "X-Event-Id: <second@x.y>\r\n";
        }
    }
    msg += "\r\nx\r\n";
    rep.current = format!("{}\n{msg}", b.script);
    let rt = run::runtime().with_default_duplicate_expiry(b.expiry);
    let mut pos = 0;
    let mut bad = None;
    let mut seen = vec![];
    let res = run::simple_with(&b.script, msg.as_bytes(), &rt, |_| {}, &mut |e: &Event| {
        if matches!(e, Event::Keep { .. } | Event::CreatedMessage { .. }) {
            return Input::True;
        }
        let want = out.get(pos);
        pos += 1;
        if want.map(|w| &w.0) != Some(e) && bad.is_none() {
            bad = Some(format!("event {pos}: expected {:?}\nobserved {e:?}", want.map(|w| &w.0)));
        }
        match e {
            Event::MailboxExists { special_use, mailboxes } => seen.push(if !special_use.is_empty() { "special use" } else if matches!(mailboxes[0], Mailbox::Id(_)) { "mailbox id" } else { "mailbox" }),
            Event::DuplicateId { .. } => seen.push("duplicate"),
            Event::ListContains { .. } => seen.push("list"),
            Event::Function { id, .. } if *id == run::Q => seen.push("function"),
            _ => (),
        }
        match want {
            Some((_, Some(Ans::Yes(true)))) => Input::True,
            Some((_, Some(Ans::Yes(false)))) => Input::False,
            Some((_, Some(Ans::Val(v, _)))) => Input::FncResult(v.clone()),
            _ => Input::FncResult(Variable::from(1i64)),
        }
    });
    match res {
        Ok(_) => {
            rep.ok(&rep.current.clone());
            for s in seen {
                rep.cover(s);
            }
            rep.cover_n("events", pos as u64);
            let cur = rep.current.clone();
            rep.sample(|| cur);
            if bad.is_none() && pos != out.len() {
                bad = Some(format!("{pos} events instead of {}", out.len()));
            }
            if let Some(b) = bad {
                rep.fail("questions", format!("{b}\n{}", rep.current));
            }
        }
        Err(e) => rep.fail("run", format!("{e}\n{}", rep.current)),
    }
}

fn directed(_: &mut Rep) {}
