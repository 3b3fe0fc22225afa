//! Generator of action scripts together with a reference model of what they have to do: which
//! events are emitted, in which order, with which arguments, and what happens to the message at the
//! end. The model knows Sieve's rules (RFC 5228 2.10, RFC 5232, RFC 3894, ...), not the engine.
use crate::gen::quote;
use crate::rng::Rng;
use crate::run::Tr;
use sieve::compiler::grammar::actions::action_redirect::{ByMode, ByTime, Notify, NotifyItem, Ret};
use sieve::{Event, Importance, Mailbox, Recipient};

/// of the message the scripts are run for
const SUBJECT: &str = "Hello";

/// A string argument: literal text and variables.
#[derive(Clone, Debug)]
pub enum P {
    L(String),
    V(usize),
}
pub type S = Vec<P>;

pub struct Limits {
    pub redirects: usize,
    pub out: usize,
    pub received: usize,
    pub user: String,
    pub num_received: usize,
}

#[derive(Clone, Debug)]
enum Fin {
    Implicit,
    Keep(Vec<String>, usize),
    Discard,
    None,
}

pub struct Model<'a> {
    pub r: &'a mut Rng,
    pub text: String,
    pub exp: Vec<Tr>,
    pub lim: Limits,
    pub vars: Vec<String>,
    pub gflags: Vec<String>,
    fin: Fin,
    explicit: bool,
    changed: bool,
    pub main_id: usize,
    pub last_id: usize,
    redirects: usize,
    out: usize,
    pub live: bool,
    pub errors: bool,
    pub edits: bool,
    pub stats: Vec<&'static str>,
    ended: bool,
    pub answers: Vec<bool>,
}

fn lower(s: &str) -> String {
    s.to_lowercase()
}

const WORDS: &[&str] = &[
    "INBOX", "a", "Archive/2020", "x y", "\u{e9}t\u{e9}", "quo\"te", "back\\slash", "100%", "$1", "{v}", "multi\r\nline", "folder.sub", "#news", "a;b",
];
const FLAGS: &[&str] = &["\\Seen", "\\Flagged", "$label", "Work", "work", "\\SEEN", "x", "\\Deleted"];

pub fn rset(v: &[P]) -> String {
    let mut o = String::new();
    for p in v {
        match p {
            P::L(l) => o += l,
            P::V(i) => o += &format!("${{v{i}}}"),
        }
    }
    quote(&o)
}

impl<'a> Model<'a> {
    pub fn new(r: &'a mut Rng, lim: Limits) -> Self {
        Model {
            r,
            text: String::new(),
            exp: vec![],
            lim,
            vars: vec![],
            gflags: vec![],
            fin: Fin::Implicit,
            explicit: false,
            changed: false,
            main_id: 0,
            last_id: 0,
            redirects: 0,
            out: 0,
            live: true,
            errors: true,
            edits: true,
            stats: vec![],
            ended: false,
            answers: vec![],
        }
    }
    fn ev(&mut self, e: Event) {
        self.exp.push(Tr::Ev(e));
    }
    fn val(&self, s: &S) -> String {
        s.iter()
            .map(|p| match p {
                P::L(l) => l.clone(),
                P::V(i) => self.vars[*i].clone(),
            })
            .collect()
    }
    fn string(&mut self, words: &[&str]) -> S {
        let mut o = vec![];
        for _ in 0..1 + self.r.below(2) {
            if !self.vars.is_empty() && self.r.chance(1, 3) {
                o.push(P::V(self.r.below(self.vars.len())));
            } else {
                o.push(P::L(self.r.pick(words).to_string()));
            }
        }
        o
    }
    fn build(&mut self) {
        if self.changed {
            self.changed = false;
            self.last_id += 1;
            self.main_id = self.last_id;
            self.ev(Event::CreatedMessage { message_id: self.last_id, message: vec![] });
        }
    }
    /// A flag list: its text and its value.
    fn flag_list(&mut self) -> (String, Vec<String>) {
        let n = 1 + self.r.below(3);
        if n == 1 {
            // one string: flags separated by spaces
            let k = self.r.below(4);
            let mut fl = vec![];
            for _ in 0..k {
                fl.push(self.r.pick(FLAGS).to_string());
            }
            let t = fl.join(if self.r.chance(1, 3) { "  " } else { " " });
            let t = quote(&t);
            (if self.r.chance(1, 2) { format!("[{t}]") } else { t }, fl)
        } else {
            let mut fl = vec![];
            let mut tx = vec![];
            for _ in 0..n {
                let f = self.r.pick(FLAGS).to_string();
                tx.push(quote(&f));
                fl.push(f);
            }
            (format!("[{}]", tx.join(", ")), fl)
        }
    }
    fn flags_arg(&mut self, cmd: &mut String) -> Vec<String> {
        if self.r.chance(1, 2) {
            let (t, v) = self.flag_list();
            *cmd += &format!(" :flags {t}");
            v
        } else {
            self.gflags.clone()
        }
    }
    fn finish(&mut self) {
        if self.ended {
            return;
        }
        self.ended = true;
        self.live = false;
        match self.fin.clone() {
            Fin::None => (),
            Fin::Discard => self.ev(Event::Discard),
            fin => {
                let (flags, id) = match fin {
                    Fin::Keep(f, id) => (f, Some(id)),
                    _ => (self.gflags.clone(), None),
                };
                let mid = match id {
                    Some(id) => id,
                    None => {
                        self.build();
                        self.main_id
                    }
                };
                self.ev(Event::Keep { flags, message_id: mid });
            }
        }
    }
    pub fn end(&mut self) {
        self.finish();
    }
    fn error(&mut self, e: String) {
        self.exp.push(Tr::Err(e));
        self.finish();
    }
    fn note(&mut self, s: &'static str) {
        if self.live {
            self.stats.push(s);
        }
    }

    /// One statement; the model executes it when it is live.
    pub fn stmt(&mut self, d: usize) {
        match self.r.below(if d > 2 { 23 } else { 30 }) {
            3 => self.notify(),
            0..=2 => {
                let mut c = "keep".to_string();
                let f = self.flags_arg(&mut c);
                self.text += &c;
                self.text += ";\n";
                if self.live {
                    self.note("keep");
                    self.build();
                    self.explicit = true;
                    self.fin = Fin::Keep(f, self.main_id);
                }
            }
            4 | 5 => {
                self.text += "discard;\n";
                if self.live {
                    self.note("discard");
                    if !self.explicit {
                        self.fin = Fin::Discard;
                    }
                }
            }
            6..=10 => self.fileinto(),
            11..=14 => self.redirect(),
            15 => {
                let ext = self.r.chance(1, 2);
                let s = self.string(&["no", "Go away", "l1\r\nl2", "\u{e9}", ""]);
                self.text += &format!("{} {};\n", if ext { "ereject" } else { "reject" }, rset(&s));
                if self.live {
                    self.note("reject");
                    self.fin = Fin::None;
                    let reason = self.val(&s);
                    self.ev(Event::Reject { extended: ext, reason });
                }
            }
            16..=18 => {
                let (t, v) = self.flag_list();
                let k = self.r.below(3);
                self.text += &format!("{} {t};\n", ["setflag", "addflag", "removeflag"][k]);
                if self.live {
                    self.note("flags");
                    match k {
                        0 => {
                            self.gflags.clear();
                            for f in v {
                                if !self.gflags.iter().any(|g| lower(g) == lower(&f)) {
                                    self.gflags.push(f);
                                }
                            }
                        }
                        1 => {
                            for f in v {
                                if !self.gflags.iter().any(|g| lower(g) == lower(&f)) {
                                    self.gflags.push(f);
                                }
                            }
                        }
                        _ => self.gflags.retain(|g| !v.iter().any(|f| lower(f) == lower(g))),
                    }
                }
            }
            19 | 20 if self.edits => {
                if self.r.chance(3, 4) {
                    self.text += "addheader \"X-New\" \"v\";\n";
                } else {
                    self.text += "addheader :last \"X-Other\" \"w\";\n";
                }
                if self.live {
                    self.note("edit");
                    self.changed = true;
                }
            }
            21 if self.r.chance(1, 3) => {
                self.text += "stop;\n";
                if self.live {
                    self.note("stop");
                    self.finish();
                }
            }
            22 if self.errors && self.r.chance(1, 3) => {
                let k = self.r.below(3);
                if k == 0 {
                    self.text += "while \"1\" {}\n";
                    if self.live {
                        self.note("cpu limit");
                        self.error("CPULimitReached".into());
                    }
                } else {
                    let s = self.string(&["bad", "error text"]);
                    self.text += &format!("error {};\n", rset(&s));
                    if self.live {
                        self.note("script error");
                        let v = self.val(&s);
                        self.error(format!("ScriptErrorMessage({v})"));
                    }
                }
            }
            23..=26 => {
                // a question to the host
                let neg = self.r.chance(1, 3);
                let b = self.r.pick(&["Junk", "A"]).to_string();
                self.text += &format!("if {}mailboxexists {} {{\n", if neg { "not " } else { "" }, quote(&b));
                let was = self.live;
                let mut take = false;
                if was {
                    let a = self.r.chance(1, 2);
                    self.answers.push(a);
                    self.ev(Event::MailboxExists { mailboxes: vec![Mailbox::Name(b)], special_use: vec![] });
                    take = a != neg;
                }
                self.block(d, was && take);
                if self.r.chance(1, 2) {
                    self.text += "else {\n";
                    self.block(d, was && !take);
                }
            }
            _ => {
                let t = self.r.chance(1, 2);
                self.text += &format!("if {} {{\n", if t { "true" } else { "false" });
                let was = self.live;
                self.block(d, was && t);
                if self.r.chance(1, 2) {
                    self.text += "else {\n";
                    self.block(d, was && !t);
                }
            }
        }
    }
    fn block(&mut self, d: usize, live: bool) {
        let was = self.live;
        self.live = live && !self.ended;
        for _ in 0..1 + self.r.below(3) {
            self.stmt(d + 1);
        }
        self.text += "}\n";
        self.live = was && !self.ended;
    }

    fn fileinto(&mut self) {
        let folder = self.string(WORDS);
        let mut c = "fileinto".to_string();
        let mut args = [0, 1, 2, 3, 4];
        self.r.shuffle(&mut args);
        let (mut copy, mut create) = (false, false);
        let mut flags = self.gflags.clone();
        let (mut special, mut mid) = (None, None);
        for a in args {
            match a {
                0 if self.r.chance(1, 2) => {
                    copy = true;
                    c += " :copy";
                }
                1 if self.r.chance(1, 4) => {
                    create = true;
                    c += " :create";
                }
                2 if self.r.chance(1, 3) => {
                    let (t, v) = self.flag_list();
                    c += &format!(" :flags {t}");
                    flags = v;
                }
                3 if self.r.chance(1, 5) => {
                    let s = self.string(&["\\Junk", "\\Archive"]);
                    c += &format!(" :specialuse {}", rset(&s));
                    special = Some(self.val(&s));
                }
                4 if self.r.chance(1, 5) => {
                    let s = self.string(&["id1", "F123-x"]);
                    c += &format!(" :mailboxid {}", rset(&s));
                    mid = Some(self.val(&s));
                }
                _ => (),
            }
        }
        self.text += &format!("{c} {};\n", rset(&folder));
        if self.live {
            self.note(if copy { "fileinto copy" } else { "fileinto" });
            self.build();
            if !copy && !self.explicit {
                self.fin = Fin::None;
            }
            let folder = self.val(&folder);
            self.ev(Event::FileInto { folder, flags, mailbox_id: mid, special_use: special, create, message_id: self.main_id });
        }
    }

    fn redirect(&mut self) {
        let mut c = "redirect".to_string();
        let (mut copy, mut list) = (false, false);
        let mut notify = Notify::Default;
        let mut ret = Ret::Default;
        let mut mode = ByMode::Default;
        let mut trace = false;
        let mut time: Option<ByTime<i64>> = None;
        let mut args = [0, 1, 2, 3, 4, 5, 6];
        self.r.shuffle(&mut args);
        let dby = self.r.chance(1, 3);
        for a in args {
            match a {
                0 if self.r.chance(1, 2) => {
                    copy = true;
                    c += " :copy";
                }
                1 if self.r.chance(1, 6) => {
                    list = true;
                    c += " :list";
                }
                2 if self.r.chance(1, 4) => {
                    let (t, n) = match self.r.below(10) {
                        0 => ("NEVER", Notify::Never),
                        8 => ("Failure", Notify::Items(vec![NotifyItem::Failure])),
                        9 => ("Never", Notify::Never),
                        // unknown items are passed over
                        5 => ("failure, bogus", Notify::Items(vec![NotifyItem::Failure])),
                        6 => ("never, success,", Notify::Items(vec![NotifyItem::Success])),
                        7 => (" delay  ,x,failure ,delays", Notify::Items(vec![NotifyItem::Delay, NotifyItem::Failure])),
                        1 => ("SUCCESS", Notify::Items(vec![NotifyItem::Success])),
                        2 => ("failure, delay", Notify::Items(vec![NotifyItem::Failure, NotifyItem::Delay])),
                        3 => ("Delay,Success", Notify::Items(vec![NotifyItem::Delay, NotifyItem::Success])),
                        _ => ("failure", Notify::Items(vec![NotifyItem::Failure])),
                    };
                    c += &format!(" :notify \"{t}\"");
                    notify = n;
                }
                3 if self.r.chance(1, 4) => {
                    let (t, v) = if self.r.chance(1, 2) { (*self.r.pick(&["FULL", "full", "Full"]), Ret::Full) } else { ("hdrs", Ret::Hdrs) };
                    c += &format!(" :ret \"{t}\"");
                    ret = v;
                }
                4 if dby => {
                    if self.r.chance(1, 2) {
                        let n = self.r.below(100_000) as u64;
                        c += &format!(" :bytimerelative {n}");
                        time = Some(ByTime::Relative { rlimit: n, mode: ByMode::Default, trace: false });
                    } else {
                        let (t, v) = *self.r.pick(&[
                            ("2020-11-20T18:30:00Z", 1605897000i64),
                            ("2001-09-09T03:46:40+02:00", 1_000_000_000),
                            ("1970-01-01T00:00:01-01:00", 3601),
                            ("2000-02-29T23:59:59Z", 951868799),
                        ]);
                        c += &format!(" :bytimeabsolute \"{t}\"");
                        time = Some(ByTime::Absolute { alimit: v, mode: ByMode::Default, trace: false });
                    }
                }
                5 if dby && self.r.chance(1, 2) => {
                    if self.r.chance(1, 2) {
                        c += " :bymode \"notify\"";
                        mode = ByMode::Notify;
                    } else {
                        c += " :bymode \"Return\"";
                        mode = ByMode::Return;
                    }
                }
                6 if dby && self.r.chance(1, 2) => {
                    c += " :bytrace";
                    trace = true;
                }
                _ => (),
            }
        }
        let by_time = match time {
            None => ByTime::None,
            Some(ByTime::Relative { rlimit, .. }) => ByTime::Relative { rlimit, mode, trace },
            Some(ByTime::Absolute { alimit, .. }) => ByTime::Absolute { alimit, mode, trace },
            Some(b) => b,
        };
        let user = self.lim.user.clone();
        let (s, addr): (S, Option<String>) = match self.r.below(9) {
            0 => (vec![P::L("other@dest.net".into())], Some("other@dest.net".into())),
            1 => (vec![P::L("Some Body <u.x@sub.dest.net>".into())], Some("u.x@sub.dest.net".into())),
            2 => (vec![P::L(format!("u{}@dest.net", self.r.below(5)))], None),
            3 => (vec![P::L(self.r.pick(&["no-at", "", "two@at@x.org", "nodot@host", "@x.org"]).to_string())], Some(String::new())),
            4 => {
                let mut u = user.clone();
                if self.r.chance(1, 2) {
                    u = u.to_ascii_uppercase();
                }
                (vec![P::L(u.clone())], Some(u))
            }
            5 if !self.vars.is_empty() => {
                let i = self.r.below(self.vars.len());
                let ok = self.vars[i].bytes().all(|b| b.is_ascii_alphanumeric());
                let v = self.vars[i].clone();
                if ok && !v.is_empty() {
                    (vec![P::V(i), P::L("@dyn.example.net".into())], Some(format!("{v}@dyn.example.net")))
                } else {
                    (vec![P::L("a@b.c".into())], None)
                }
            }
            _ => (vec![P::L("a@b.c".into())], None),
        };
        let s = if list && self.r.chance(1, 2) { vec![P::L(self.r.pick(&["tag:example.com,2010-05-28:mylist", "urn:ietf:params:sieve:addrbook:default", "x", " My <List> "]).to_string())] } else { s };
        let addr = match addr {
            // names of lists are no addresses
            _ if list => Some(self.val(&s)).filter(|n| !n.is_empty()),
            None => Some(self.val(&s)),
            Some(a) if a.is_empty() => None,
            a => a,
        };
        self.text += &format!("{c} {};\n", rset(&s));
        if !self.live {
            return;
        }
        let Some(addr) = addr else {
            return self.note("redirect to an invalid address");
        };
        if self.redirects >= self.lim.redirects || self.out >= self.lim.out || self.lim.num_received >= self.lim.received {
            return self.note("redirect beyond a limit");
        }
        if !list && addr.eq_ignore_ascii_case(&user) {
            return self.note("redirect to oneself");
        }
        self.note(if copy { "redirect copy" } else { "redirect" });
        if !copy && !self.explicit && matches!(self.fin, Fin::Implicit) {
            self.fin = Fin::None;
        }
        self.build();
        self.redirects += 1;
        self.out += 1;
        self.ev(Event::SendMessage {
            recipient: if list { Recipient::List(addr) } else { Recipient::Address(addr) },
            notify,
            return_of_content: ret,
            by_time,
            message_id: self.main_id,
        });
    }

    /// A notification: its message is another one than the one the later actions refer to.
    fn notify(&mut self) {
        let host = self.r.chance(1, 4);
        let fcc = self.r.chance(1, 3);
        let s = self.string(&["pager", "on-call"]);
        let mut t = String::new();
        let method: String;
        let mut to = None;
        if host {
            method = "tel:+1-555".into();
            t += &quote(&method);
        } else if s.iter().all(|p| matches!(p, P::L(_))) || self.r.chance(1, 2) {
            t += "\"mailto:pager@remote.org\"";
            method = "mailto:pager@remote.org".into();
            to = Some("pager@remote.org".to_string());
        } else {
            // only plain names make an address
            let v = self.val(&s);
            let ok = !v.is_empty() && v.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
            if ok {
                method = format!("mailto:{v}@remote.org");
                to = Some(format!("{v}@remote.org"));
                let mut s = s;
                s.insert(0, P::L("mailto:".into()));
                s.push(P::L("@remote.org".into()));
                t += &rset(&s);
            } else {
                method = "mailto:pager@remote.org".into();
                to = Some("pager@remote.org".to_string());
                t += &quote(&method);
            }
        }
        self.text += &format!("notify {}{t};\n", if fcc { ":fcc \"Sent\" " } else { "" });
        if !self.live {
            return;
        }
        self.note("notify");
        let mail = to.is_some() && self.out < self.lim.out;
        if mail || fcc {
            self.last_id += 1;
            self.ev(Event::CreatedMessage { message_id: self.last_id, message: vec![] });
        }
        self.out += 1;
        if mail {
            self.ev(Event::SendMessage { recipient: Recipient::Group(vec![to.unwrap()]), notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: self.last_id });
        } else {
            self.ev(Event::Notify { from: None, importance: Importance::Normal, options: vec![], message: SUBJECT.into(), method });
        }
        if fcc {
            self.ev(Event::FileInto { folder: "Sent".into(), flags: vec![], mailbox_id: None, special_use: None, create: false, message_id: self.last_id });
        }
    }

    pub fn prologue(&mut self) {
        for i in 0..self.r.below(4) {
            let v = self.r.pick(&["alice", "", "x y", "Z9", "q\"q", "\u{1F600}", "b\\s"]).to_string();
            self.text += &format!("set \"v{i}\" {};\n", quote(&v));
            self.vars.push(v);
        }
    }
}
