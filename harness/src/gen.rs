//! Grammar-based generator of complete Sieve scripts that use every command, test, tag and
//! extension. It only knows the language's syntax and static rules (what has to be declared, what
//! can be nested where), not what scripts do. Scripts are made of tokens, so that the same script
//! can be written down in different ways, and the generator records the capabilities it used.
use crate::rng::Rng;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// command or test name
    W(String),
    /// tagged argument, without the colon
    Tag(String),
    /// content of a string, before encoding
    S(String),
    /// number with its suffix
    N(String),
    /// one of `[ ] ( ) , ; { }`
    P(char),
}

pub struct Opts {
    pub loops: bool,
    pub exprs: bool,
    pub includes: bool,
    pub dates: bool,
    pub max_stmts: usize,
    pub hostile: bool,
    /// only constructs that do not need `mime` part structure changes
    pub edit: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { loops: true, exprs: true, includes: true, dates: true, max_stmts: 8, hostile: true, edit: true }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub o: Opts,
    pub out: Vec<Tok>,
    pub caps: BTreeSet<&'static str>,
    vars: Vec<Vec<String>>,
    globals: Vec<String>,
    loops: Vec<(bool, Option<String>)>,
    depth: usize,
    parts: usize,
    match_ok: bool,
    pub includes: usize,
    budget: usize,
    whiles: usize,
}

const HDRS: &[&str] = &[
    "Subject", "From", "To", "Cc", "X-Test", "Received", "Date", "Message-ID", "Content-Type", "List-Id", "X-Spam",
    "References", "subject", "RESENT-TO", "Content-Disposition", "x-other",
];
const AHDRS: &[&str] = &["From", "To", "Cc", "Bcc", "Sender", "Reply-To", "Resent-To", "to"];
const WORDS: &[&str] = &[
    "hello", "Sender", "test", "a", "ab", "abc", "5", "10", "x y", "", "me@example.org", "\u{e9}t\u{e9}", "INBOX", "\\Seen",
    "$label", "sender@remote.org", "a*b", "?", "*", "text/plain", "0", "-3", "1.5", "quoted \"x\"", "back\\slash", "line\nbreak",
];
const HOSTILE: &[&str] = &[
    "${", "${}", "${a", "${hex:41}", "${unicode:1F600}", "${hex:}", "$${x}", "${unicode: 41 42 }", "${1}", "${0}", "\u{0}",
    "%41", "\r\nBcc: x@y", "\u{1F600}", "${header.subject}", "${env.domain}", "${envelope.from}", "${part.text}", "[[", "(((", "\\",
    "${header.received[1].from}", "${header.*.raw}", "${body.to_text}", "${header.to[*].addr[*]}", "${t.x}",
];
const RELS: &[&str] = &["gt", "ge", "lt", "le", "eq", "ne"];
const REGEXES: &[&str] = &["^a.*b$", "(.)(.)", "[a-z]+", "x|y", "(a)?(b)?", "\\d+", ".*"];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, o: Opts) -> Self {
        let budget = 60;
        Gen {
            r,
            o,
            out: vec![],
            caps: BTreeSet::new(),
            vars: vec![vec![]],
            globals: vec![],
            loops: vec![],
            depth: 0,
            parts: 0,
            match_ok: false,
            includes: 0,
            budget,
            whiles: 0,
        }
    }
    /// The commands of a script, without its `require`.
    pub fn script(&mut self) {
        let n = 1 + self.r.below(self.o.max_stmts);
        for _ in 0..n {
            self.stmt();
        }
    }

    fn w(&mut self, s: &str) {
        self.out.push(Tok::W(s.into()));
    }
    fn tag(&mut self, s: &str) {
        self.out.push(Tok::Tag(s.into()));
    }
    fn s(&mut self, s: &str) {
        self.out.push(Tok::S(s.into()));
    }
    fn n(&mut self, n: u64) {
        let n = if self.r.chance(1, 12) { format!("{n}{}", self.r.pick(&["K", "M", "k"])) } else { n.to_string() };
        self.out.push(Tok::N(n));
    }
    fn p(&mut self, c: char) {
        self.out.push(Tok::P(c));
    }
    fn cap(&mut self, c: &'static str) {
        self.caps.insert(c);
    }
    fn half(&mut self) -> bool {
        self.r.chance(1, 2)
    }
    fn some_var(&mut self) -> Option<String> {
        let all: Vec<&String> = self.vars.iter().flatten().chain(self.globals.iter()).collect();
        if all.is_empty() {
            None
        } else {
            Some(all[self.r.below(all.len())].clone())
        }
    }
    pub fn text(&mut self) -> String {
        let mut t = String::new();
        for _ in 0..1 + self.r.below(2) {
            match self.r.below(10) {
                0 | 1 => {
                    if let Some(v) = self.some_var() {
                        t += &format!("${{{v}}}");
                        continue;
                    }
                    t += "v";
                }
                2 if self.match_ok => t += &format!("${{{}}}", self.r.below(4)),
                3 if self.o.hostile => t += *self.r.pick(HOSTILE),
                _ => t += *self.r.pick(WORDS),
            }
        }
        t
    }
    fn str(&mut self) {
        let t = self.text();
        self.out.push(Tok::S(t));
    }
    /// a string or a list of strings
    fn list(&mut self, mut f: impl FnMut(&mut Self) -> String) {
        if self.half() {
            let t = f(self);
            self.out.push(Tok::S(t));
        } else {
            let n = 1 + self.r.below(3);
            self.p('[');
            for i in 0..n {
                if i > 0 {
                    self.p(',');
                }
                let t = f(self);
                self.out.push(Tok::S(t));
            }
            self.p(']');
        }
    }
    fn strs(&mut self) {
        self.list(|g| g.text());
    }
    fn fresh_or_known(&mut self) -> String {
        if self.half() {
            if let Some(v) = self.some_var() {
                return v;
            }
        }
        let v = format!("v{}", self.r.below(12));
        if !self.vars.iter().flatten().any(|x| *x == v) && !self.globals.contains(&v) {
            self.vars.last_mut().unwrap().push(v.clone());
        }
        v
    }
    fn cmp(&mut self) {
        if self.r.chance(1, 3) {
            self.tag("comparator");
            let c = *self.r.pick(&["i;octet", "i;ascii-casemap", "i;ascii-numeric"]);
            self.s(c);
        }
    }
    /// Returns the kind of match that was chosen.
    fn mtype(&mut self, lists: bool) -> &'static str {
        let k = if lists { 10 } else { 9 };
        match self.r.below(k) {
            0 | 1 => "",
            2 => {
                self.tag("is");
                "is"
            }
            3 => {
                self.tag("contains");
                "contains"
            }
            4 | 5 => {
                self.tag("matches");
                self.match_ok = true;
                "matches"
            }
            6 => {
                self.cap("regex");
                self.tag("regex");
                self.match_ok = true;
                "regex"
            }
            7 => {
                self.cap("relational");
                self.tag("value");
                let x = *self.r.pick(RELS);
                self.s(x);
                "value"
            }
            8 => {
                self.cap("relational");
                self.tag("count");
                let x = *self.r.pick(RELS);
                self.s(x);
                "count"
            }
            _ => {
                self.cap("extlists");
                self.tag("list");
                "list"
            }
        }
    }
    fn keys(&mut self, m: &str) {
        match m {
            "regex" => self.list(|g| g.r.pick(REGEXES).to_string()),
            "count" | "value" => self.list(|g| g.r.below(12).to_string()),
            "matches" => self.list(|g| {
                let mut t = String::new();
                for _ in 0..1 + g.r.below(4) {
                    t += *g.r.pick(&["*", "?", "a", "e", " ", "Hello", "\\\\*", "**", "org"]);
                }
                t
            }),
            _ => self.strs(),
        }
    }
    fn index(&mut self) {
        if self.r.chance(1, 5) {
            self.cap("index");
            self.tag("index");
            let n = self.r.below(3) as u64;
            self.out.push(Tok::N(n.to_string()));
            if self.half() {
                self.tag("last");
            }
        }
    }
    fn mime(&mut self, opts: bool) {
        if self.r.chance(1, 5) {
            self.cap("mime");
            self.tag("mime");
            if self.half() {
                self.tag("anychild");
            }
            if opts {
                match self.r.below(5) {
                    0 => self.tag("type"),
                    1 => self.tag("subtype"),
                    2 => self.tag("contenttype"),
                    3 => {
                        self.tag("param");
                        self.list(|g| g.r.pick(&["charset", "boundary", "name", "filename"]).to_string());
                    }
                    _ => (),
                }
            }
        }
    }
    fn date_part(&mut self) {
        let p = *self.r.pick(&[
            "year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday",
        ]);
        self.s(p);
    }
    fn zone(&mut self) -> String {
        (*self.r.pick(&["+0000", "-0500", "+0530", "+1400", "-1200", "+0100"])).to_string()
    }

    fn convert(&mut self) {
        self.cap("convert");
        self.w("convert");
        match self.r.below(3) {
            0 => {
                self.str();
                self.str();
            }
            1 => {
                self.s("text/plain");
                self.str();
            }
            _ => {
                self.s("text/html");
                self.s("text/plain");
            }
        }
        self.list(|g| g.r.pick(&["x", "charset=utf-8"]).to_string());
    }
    pub fn test(&mut self, d: usize) {
        if self.budget > 0 {
            self.budget -= 1;
        }
        let max = if d > 2 || self.budget == 0 { 22 } else { 26 };
        match self.r.below(max) {
            0 => self.w("true"),
            1 if self.r.chance(1, 3) => self.convert(),
            1 => self.w("false"),
            2 => {
                self.w("size");
                let t = if self.half() { "over" } else { "under" };
                self.tag(t);
                let n = self.r.below(2000) as u64;
                self.n(n);
            }
            3 => {
                self.w("exists");
                self.mime(false);
                self.list(|g| g.r.pick(HDRS).to_string());
            }
            4 | 5 => {
                self.w("header");
                let m = self.mtype(true);
                self.cmp();
                self.index();
                self.mime(true);
                self.list(|g| g.r.pick(HDRS).to_string());
                self.keys(m);
            }
            6 => {
                self.w("address");
                let p = *self.r.pick(&["", "localpart", "domain", "all", "user", "detail"]);
                if !p.is_empty() {
                    if p == "user" || p == "detail" {
                        self.cap("subaddress");
                    }
                    self.tag(p);
                }
                let m = self.mtype(true);
                self.cmp();
                self.index();
                self.mime(false);
                self.list(|g| g.r.pick(AHDRS).to_string());
                self.keys(m);
            }
            7 => {
                self.cap("envelope");
                self.w("envelope");
                let p = *self.r.pick(&["", "localpart", "domain", "all", "user", "detail"]);
                if !p.is_empty() {
                    if p == "user" || p == "detail" {
                        self.cap("subaddress");
                    }
                    self.tag(p);
                }
                let m = self.mtype(true);
                self.cmp();
                match self.r.below(4) {
                    0 => {
                        self.cap("envelope-dsn");
                        self.list(|g| g.r.pick(&["notify", "orcpt", "ret", "envid"]).to_string());
                    }
                    1 => {
                        self.cap("envelope-deliverby");
                        self.list(|g| g.r.pick(&["bytimeabsolute", "bytimerelative", "bymode", "bytrace"]).to_string());
                    }
                    _ => self.list(|g| g.r.pick(&["from", "to"]).to_string()),
                }
                self.keys(m);
            }
            8 => {
                self.cap("body");
                self.w("body");
                match self.r.below(4) {
                    0 => self.tag("raw"),
                    1 => self.tag("text"),
                    2 => {
                        self.tag("content");
                        self.list(|g| g.r.pick(&["text", "text/html", "", "multipart", "message/rfc822"]).to_string());
                    }
                    _ => (),
                }
                let m = self.mtype(false);
                self.cmp();
                self.keys(m);
            }
            9 if self.o.dates => {
                self.cap("date");
                self.w("date");
                match self.r.below(4) {
                    0 => self.tag("originalzone"),
                    1 => {
                        self.tag("zone");
                        let z = self.zone();
                        self.s(&z);
                    }
                    _ => (),
                }
                let m = self.mtype(true);
                self.cmp();
                self.index();
                self.s("Date");
                self.date_part();
                self.keys(m);
            }
            10 if self.o.dates => {
                self.cap("date");
                self.w("currentdate");
                if self.half() {
                    self.tag("zone");
                    let z = self.zone();
                    self.s(&z);
                }
                let m = self.mtype(true);
                self.cmp();
                self.date_part();
                self.keys(m);
            }
            11 => {
                self.cap("duplicate");
                self.w("duplicate");
                if self.half() {
                    self.tag("handle");
                    self.str();
                }
                match self.r.below(3) {
                    0 => {
                        self.tag("header");
                        let h = *self.r.pick(HDRS);
                        self.s(h);
                    }
                    1 => {
                        self.tag("uniqueid");
                        self.str();
                    }
                    _ => (),
                }
                if self.half() {
                    self.tag("seconds");
                    let n = self.r.below(100_000) as u64;
                    self.n(n);
                }
                if self.half() {
                    self.tag("last");
                }
            }
            12 | 13 => {
                self.cap("variables");
                self.w("string");
                let m = self.mtype(true);
                self.cmp();
                self.strs();
                self.keys(m);
            }
            14 => {
                self.cap("imap4flags");
                self.w("hasflag");
                let m = self.mtype(false);
                self.cmp();
                if self.r.chance(1, 3) {
                    let v = self.fresh_or_known();
                    self.s(&v);
                }
                self.keys(m);
            }
            15 => {
                self.cap("mailbox");
                self.w("mailboxexists");
                self.strs();
            }
            16 => match self.r.below(5) {
                0 => {
                    self.cap("mboxmetadata");
                    self.w("metadata");
                    let m = self.mtype(false);
                    self.cmp();
                    self.str();
                    self.str();
                    self.keys(m);
                }
                1 => {
                    self.cap("mboxmetadata");
                    self.w("metadataexists");
                    self.str();
                    self.strs();
                }
                2 => {
                    self.cap("servermetadata");
                    self.w("servermetadata");
                    let m = self.mtype(false);
                    self.cmp();
                    self.str();
                    self.keys(m);
                }
                3 => {
                    self.cap("servermetadata");
                    self.w("servermetadataexists");
                    self.strs();
                }
                _ => {
                    self.cap("mailboxid");
                    self.w("mailboxidexists");
                    self.strs();
                }
            },
            17 => {
                self.cap("environment");
                self.w("environment");
                let m = self.mtype(false);
                self.cmp();
                let e = *self.r.pick(&["domain", "host", "location", "name", "phase", "remote-ip", "version", "x"]);
                self.s(e);
                self.keys(m);
            }
            18 => match self.r.below(3) {
                0 => {
                    self.cap("spamtest");
                    self.w("spamtest");
                    if self.half() {
                        self.cap("spamtestplus");
                        self.tag("percent");
                    }
                    let m = self.mtype(false);
                    self.cmp();
                    let _ = m;
                    let n = self.r.below(12).to_string();
                    self.s(&n);
                }
                1 => {
                    self.cap("virustest");
                    self.w("virustest");
                    self.mtype(false);
                    self.cmp();
                    let n = self.r.below(6).to_string();
                    self.s(&n);
                }
                _ => {
                    self.cap("special-use");
                    self.w("specialuse_exists");
                    if self.half() {
                        self.str();
                    }
                    self.list(|g| g.r.pick(&["\\Drafts", "\\Junk", "\\Sent"]).to_string());
                }
            },
            19 => match self.r.below(3) {
                0 => {
                    self.cap("enotify");
                    self.w("valid_notify_method");
                    self.list(|g| g.r.pick(&["mailto:a@b.org", "xmpp:x@y", "mailto:bad", "tel:1"]).to_string());
                }
                1 => {
                    self.cap("enotify");
                    self.w("notify_method_capability");
                    let m = self.mtype(false);
                    self.cmp();
                    self.s("mailto:a@b.org");
                    self.s("online");
                    self.keys(m);
                }
                _ => {
                    self.cap("extlists");
                    self.w("valid_ext_list");
                    self.strs();
                }
            },
            20 => {
                self.cap("ihave");
                self.w("ihave");
                self.list(|g| g.r.pick(&["fileinto", "nope", "variables", "imap4flags", "vnd.x"]).to_string());
            }
            21 if self.o.exprs => {
                self.cap("vnd.stalwart.expressions");
                self.w("eval");
                let e = self.expr(0);
                self.s(&e);
            }
            22 | 23 => {
                self.w("not");
                self.test(d + 1);
            }
            24 | 25 => {
                let w = if self.half() { "anyof" } else { "allof" };
                self.w(w);
                self.p('(');
                for i in 0..1 + self.r.below(3) {
                    if i > 0 {
                        self.p(',');
                    }
                    self.test(d + 1);
                }
                self.p(')');
            }
            _ => self.w("true"),
        }
    }

    pub fn expr(&mut self, d: usize) -> String {
        let k = if d > 3 { 5 } else { 14 };
        match self.r.below(k) {
            0 => self.r.range(-20, 100).to_string().replace('-', "0 - "),
            1 => format!("'{}'", self.r.pick(&["a", "abc", "5", "x y", "", "1.5"])),
            2 | 3 => self.some_var().unwrap_or_else(|| "1".into()),
            4 => self
                .r
                .pick(&["true", "false", "2.5", "header.subject", "env.domain", "envelope.from", "header.to[*].addr[*]", "part.text", "seven()"])
                .to_string(),
            5 => format!("!({})", self.expr(d + 1)),
            6 => format!("-({})", self.expr(d + 1)),
            7 => format!("[{}, {}]", self.expr(d + 1), self.expr(d + 1)),
            8 => format!("up({})", self.expr(d + 1)),
            9 => format!("cat({}, {})", self.expr(d + 1), self.expr(d + 1)),
            10 => format!("q({})", self.expr(d + 1)),
            11 => format!("t({})", self.expr(d + 1)),
            _ => {
                let op = *self.r.pick(&["+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "^"]);
                format!("({}) {op} ({})", self.expr(d + 1), self.expr(d + 1))
            }
        }
    }

    fn block(&mut self) {
        self.p('{');
        self.depth += 1;
        self.vars.push(vec![]);
        let saved = self.match_ok;
        let n = self.r.below(4);
        for _ in 0..n {
            self.stmt();
        }
        self.match_ok = saved;
        self.vars.pop();
        self.depth -= 1;
        self.p('}');
    }

    fn modifiers(&mut self) {
        let mut m = vec!["lower", "upper", "lowerfirst", "upperfirst", "quotewildcard", "quoteregex", "length"];
        self.r.shuffle(&mut m);
        for x in m.iter().take(self.r.below(3)) {
            self.tag(x);
        }
        if self.r.chance(1, 8) {
            self.tag("replace");
            self.str();
            self.str();
        }
    }
    fn fcc(&mut self) {
        if self.r.chance(1, 3) {
            self.cap("fcc");
            self.tag("fcc");
            self.str();
            if self.half() {
                self.cap("mailbox");
                self.tag("create");
            }
            if self.half() {
                self.cap("imap4flags");
                self.tag("flags");
                self.strs();
            }
            if self.r.chance(1, 4) {
                self.cap("special-use");
                self.tag("specialuse");
                self.s("\\Sent");
            }
            if self.r.chance(1, 4) {
                self.cap("mailboxid");
                self.tag("mailboxid");
                self.str();
            }
        }
    }

    pub fn stmt(&mut self) {
        if self.budget == 0 {
            self.w("keep");
            self.p(';');
            return;
        }
        self.budget -= 1;
        let deep = self.depth >= 4;
        match self.r.below(34) {
            0..=4 if !deep => {
                self.w("if");
                self.test(0);
                self.block();
                while self.r.chance(1, 4) {
                    self.w("elsif");
                    self.test(0);
                    self.block();
                }
                if self.r.chance(1, 3) {
                    self.w("else");
                    self.block();
                }
            }
            5 | 6 => {
                self.cap("fileinto");
                self.w("fileinto");
                if self.half() {
                    self.cap("copy");
                    self.tag("copy");
                }
                if self.r.chance(1, 3) {
                    self.cap("mailbox");
                    self.tag("create");
                }
                if self.r.chance(1, 3) {
                    self.cap("imap4flags");
                    self.tag("flags");
                    self.strs();
                }
                if self.r.chance(1, 6) {
                    self.cap("mailboxid");
                    self.tag("mailboxid");
                    self.str();
                }
                if self.r.chance(1, 6) {
                    self.cap("special-use");
                    self.tag("specialuse");
                    self.s("\\Junk");
                }
                self.str();
                self.p(';');
            }
            7 => {
                self.w("keep");
                if self.half() {
                    self.cap("imap4flags");
                    self.tag("flags");
                    self.strs();
                }
                self.p(';');
            }
            8 => {
                self.w("discard");
                self.p(';');
            }
            9 | 10 => {
                self.w("redirect");
                if self.half() {
                    self.cap("copy");
                    self.tag("copy");
                }
                if self.r.chance(1, 6) {
                    self.cap("extlists");
                    self.tag("list");
                }
                if self.r.chance(1, 4) {
                    self.cap("redirect-deliverby");
                    if self.half() {
                        self.tag("bytimerelative");
                        let n = self.r.below(1000) as u64;
                        self.n(n);
                    } else {
                        self.tag("bytimeabsolute");
                        self.s("2020-11-20T18:30:00Z");
                    }
                    if self.half() {
                        self.tag("bymode");
                        let m = *self.r.pick(&["notify", "return"]);
                        self.s(m);
                    }
                    if self.half() {
                        self.tag("bytrace");
                    }
                }
                if self.r.chance(1, 4) {
                    self.cap("redirect-dsn");
                    if self.half() {
                        self.tag("notify");
                        let m = *self.r.pick(&["never", "success,failure", "delay"]);
                        self.s(m);
                    } else {
                        self.tag("ret");
                        let m = *self.r.pick(&["FULL", "hdrs"]);
                        self.s(m);
                    }
                }
                let a = *self.r.pick(&["a@b.org", "me@example.org", "x", "other@dest.net", "${envelope.to}", "<c@d.org>"]);
                self.s(a);
                self.p(';');
            }
            11 => {
                self.w("stop");
                self.p(';');
            }
            12..=15 => {
                self.cap("variables");
                self.w("set");
                self.modifiers();
                if self.r.chance(1, 6) {
                    self.tag("local");
                    let v = self.fresh_or_known();
                    self.s(&v);
                } else {
                    let v = self.fresh_or_known();
                    self.s(&v);
                }
                self.str();
                self.p(';');
            }
            16 if self.o.edit => {
                self.cap("editheader");
                self.w("addheader");
                if self.half() {
                    self.tag("last");
                }
                let h = *self.r.pick(&["X-New", "X-Test", "Subject", "Received", "X-A"]);
                self.s(h);
                self.str();
                self.p(';');
            }
            17 if self.o.edit => {
                self.cap("editheader");
                self.w("deleteheader");
                let mut m = "";
                if self.r.chance(1, 3) {
                    self.tag("index");
                    let n = self.r.below(3).to_string();
                    self.out.push(Tok::N(n));
                    if self.half() {
                        self.tag("last");
                    }
                }
                let pat = self.half();
                if pat {
                    m = self.mtype(false);
                    self.cmp();
                }
                let h = *self.r.pick(HDRS);
                self.s(h);
                if pat {
                    self.keys(m);
                }
                self.p(';');
            }
            18 | 19 => {
                self.cap("imap4flags");
                let w = *self.r.pick(&["setflag", "addflag", "removeflag"]);
                self.w(w);
                if self.r.chance(1, 3) {
                    let v = self.fresh_or_known();
                    self.s(&v);
                    self.list(|g| g.r.pick(&["\\Seen", "\\Flagged a", "b", "$x", ""]).to_string());
                } else {
                    self.list(|g| g.r.pick(&["\\Seen", "\\Flagged a", "b", "$x", ""]).to_string());
                }
                self.p(';');
            }
            20 => {
                let (w, c) = if self.half() { ("reject", "reject") } else { ("ereject", "ereject") };
                self.cap(c);
                self.w(w);
                self.str();
                self.p(';');
            }
            21 => {
                self.cap("vacation");
                self.w("vacation");
                match self.r.below(4) {
                    0 => {
                        self.tag("days");
                        let n = self.r.below(40) as u64;
                        self.n(n);
                    }
                    1 => {
                        self.cap("vacation-seconds");
                        self.tag("seconds");
                        let n = self.r.below(100_000) as u64;
                        self.n(n);
                    }
                    _ => (),
                }
                if self.half() {
                    self.tag("subject");
                    self.str();
                }
                if self.r.chance(1, 3) {
                    self.tag("from");
                    self.str();
                }
                if self.r.chance(1, 3) {
                    self.tag("addresses");
                    self.list(|g| g.r.pick(&["me@example.org", "x@y.org"]).to_string());
                }
                if self.r.chance(1, 3) {
                    self.tag("handle");
                    self.str();
                }
                if self.r.chance(1, 5) {
                    self.tag("mime");
                }
                self.fcc();
                self.str();
                self.p(';');
            }
            22 => {
                self.cap("enotify");
                self.w("notify");
                if self.r.chance(1, 3) {
                    self.tag("from");
                    self.s("from@x.org");
                }
                if self.r.chance(1, 3) {
                    self.tag("importance");
                    let n = *self.r.pick(&["1", "2", "3"]);
                    self.s(n);
                }
                if self.r.chance(1, 3) {
                    self.tag("options");
                    self.strs();
                }
                if self.half() {
                    self.tag("message");
                    self.str();
                }
                self.fcc();
                let m = *self.r.pick(&["mailto:a@b.org", "xmpp:u@h.org", "mailto:a@b.org?subject=x&body=y", "mailto:c@d.org,e@f.org"]);
                self.s(m);
                self.p(';');
            }
            23 if self.o.includes && self.includes < 3 => {
                self.cap("include");
                self.includes += 1;
                self.w("include");
                if self.half() {
                    let l = *self.r.pick(&["personal", "global"]);
                    self.tag(l);
                }
                if self.r.chance(1, 3) {
                    self.tag("once");
                }
                if self.r.chance(1, 3) {
                    self.tag("optional");
                }
                let n = *self.r.pick(&["inc1", "inc2", "missing"]);
                self.s(n);
                self.p(';');
            }
            24 if self.o.includes => {
                self.cap("include");
                self.w("return");
                self.p(';');
            }
            25 if self.depth == 0 => {
                self.cap("include");
                self.cap("variables");
                let v = format!("g{}", self.r.below(4));
                self.w("global");
                self.s(&v);
                self.p(';');
                if !self.globals.contains(&v) {
                    self.globals.push(v);
                }
            }
            26 if self.o.exprs => {
                self.cap("vnd.stalwart.expressions");
                let e = self.expr(0);
                let v = self.fresh_or_known();
                self.w("let");
                self.s(&v);
                self.s(&e);
                self.p(';');
            }
            27 if self.o.exprs => {
                self.cap("vnd.stalwart.expressions");
                let e = self.expr(0);
                self.w("eval");
                self.s(&e);
                self.p(';');
            }
            28 if self.o.loops && !deep && self.whiles < 2 => {
                // at most three rounds per loop, counted by a script-level variable
                self.cap("vnd.stalwart.while");
                self.cap("vnd.stalwart.expressions");
                self.whiles += 1;
                let v = format!("i{}", self.r.below(1000));
                self.w("let");
                self.s(&v);
                self.s("0");
                self.p(';');
                self.vars.last_mut().unwrap().push(v.clone());
                self.w("while");
                self.s(&format!("{v} < 3"));
                self.p('{');
                self.w("let");
                self.s(&v);
                self.s(&format!("{v} + 1"));
                self.p(';');
                self.depth += 1;
                self.loops.push((false, None));
                self.vars.push(vec![]);
                for _ in 0..self.r.below(4) {
                    self.stmt();
                }
                self.vars.pop();
                self.loops.pop();
                self.depth -= 1;
                self.p('}');
            }
            29 | 30 if self.o.loops && !deep && self.parts < 2 => {
                self.cap("foreverypart");
                self.w("foreverypart");
                let mut label = None;
                if self.half() {
                    let l = format!("l{}", self.out.len());
                    self.tag("name");
                    self.s(&l);
                    label = Some(l);
                }
                self.loops.push((true, label));
                self.parts += 1;
                self.p('{');
                self.depth += 1;
                self.vars.push(vec![]);
                for _ in 0..self.r.below(4) {
                    self.stmt();
                }
                self.vars.pop();
                self.depth -= 1;
                self.p('}');
                self.parts -= 1;
                self.loops.pop();
            }
            31 if !self.loops.is_empty() => {
                let label = self.loops.iter().rev().find_map(|l| l.1.clone());
                self.w("if");
                self.test(1);
                self.p('{');
                if self.r.chance(1, 3) && self.loops.iter().any(|l| !l.0) {
                    self.cap("vnd.stalwart.while");
                    self.w("continue");
                } else {
                    self.w("break");
                    if let (Some(l), true) = (label, self.half()) {
                        self.cap("foreverypart");
                        self.tag("name");
                        self.s(&l);
                    }
                }
                self.p(';');
                self.p('}');
            }
            32 if self.o.edit => match self.r.below(4) {
                0 => {
                    self.cap("replace");
                    self.w("replace");
                    if self.half() {
                        self.tag("subject");
                        self.str();
                    }
                    if self.r.chance(1, 4) {
                        self.tag("from");
                        self.s("rep@x.org");
                    }
                    self.str();
                    self.p(';');
                }
                1 => {
                    self.cap("enclose");
                    self.w("enclose");
                    if self.half() {
                        self.tag("subject");
                        self.str();
                    }
                    if self.half() {
                        self.tag("headers");
                        self.list(|g| g.r.pick(&["X-E: 1", "X-F: two words"]).to_string());
                    }
                    self.str();
                    self.p(';');
                }
                2 => {
                    self.convert();
                    self.p(';');
                }
                _ => {
                    self.cap("extracttext");
                    self.w("extracttext");
                    self.modifiers();
                    if self.half() {
                        self.tag("first");
                        let n = self.r.below(40).to_string();
                        self.out.push(Tok::N(n));
                    }
                    let v = self.fresh_or_known();
                    self.s(&v);
                    self.p(';');
                }
            },
            33 if self.r.chance(1, 4) => {
                self.cap("ihave");
                self.w("error");
                self.str();
                self.p(';');
            }
            _ => {
                self.w("keep");
                self.p(';');
            }
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

/// The plain way of writing a script down.
pub fn render(toks: &[Tok]) -> String {
    let mut o = String::new();
    let mut prev_word = false;
    for t in toks {
        match t {
            Tok::W(w) => {
                if prev_word {
                    o.push(' ');
                }
                o += w;
                prev_word = true;
            }
            Tok::Tag(w) => {
                if prev_word {
                    o.push(' ');
                }
                o.push(':');
                o += w;
                prev_word = true;
            }
            Tok::N(n) => {
                if prev_word {
                    o.push(' ');
                }
                o += n;
                prev_word = true;
            }
            Tok::S(s) => {
                if prev_word {
                    o.push(' ');
                }
                o += &quote(s);
                prev_word = true;
            }
            Tok::P(c) => {
                if matches!(c, '(' | '[' | '{') && prev_word {
                    o.push(' ');
                }
                o.push(*c);
                if matches!(c, ';' | '{' | '}') {
                    o.push('\n');
                }
                prev_word = matches!(c, ')' | ']');
            }
        }
    }
    o
}

pub fn require(caps: &BTreeSet<&'static str>) -> String {
    if caps.is_empty() {
        return String::new();
    }
    format!("require [{}];\n", caps.iter().map(|c| quote(c)).collect::<Vec<_>>().join(", "))
}

/// A whole script with its `require`.
pub fn script(r: &mut Rng, o: Opts) -> (String, BTreeSet<&'static str>) {
    let mut g = Gen::new(r, o);
    g.script();
    (format!("{}{}", require(&g.caps), render(&g.out)), g.caps)
}

// ---------------------------------------------------------------------------------- messages

const TEXTS: &[&str] = &[
    "Hello world", "a", "", "line one\r\nline two", "<p>html <b>bold</b></p>", "caf\u{e9} \u{1F600}", "x=3D y", "--b0", "abc abc",
];

fn part(r: &mut Rng, d: usize, o: &mut String) {
    match r.below(if d >= 3 { 5 } else { 8 }) {
        0 | 1 => {
            *o += "Content-Type: text/plain; charset=utf-8\r\n\r\n";
            *o += r.pick(TEXTS);
        }
        2 => {
            *o += "Content-Type: text/html\r\nX-Part: html\r\n\r\n<html><body>";
            *o += r.pick(TEXTS);
            *o += "</body></html>";
        }
        3 => {
            *o += "Content-Type: application/octet-stream; name=\"f.bin\"\r\nContent-Disposition: attachment; filename=\"f.bin\"\r\nContent-Transfer-Encoding: base64\r\n\r\nAAECAwQFBgc=";
        }
        4 => {
            *o += "Content-Type: text/plain\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\ncaf=C3=A9 =\r\nsoft";
        }
        5 => {
            *o += "Content-Type: message/rfc822\r\n\r\n";
            headers(r, o, false);
            part(r, d + 1, o);
        }
        _ => {
            let b = format!("b{d}x{:02}", r.below(100));
            *o += &format!("Content-Type: multipart/{}; boundary=\"{b}\"\r\n\r\npreamble\r\n", r.pick(&["mixed", "alternative", "related"]));
            for _ in 0..1 + r.below(3) {
                *o += &format!("--{b}\r\n");
                part(r, d + 1, o);
                *o += "\r\n";
            }
            *o += &format!("--{b}--\r\n");
        }
    }
}

fn headers(r: &mut Rng, o: &mut String, top: bool) {
    let addr = |r: &mut Rng| -> String {
        (*r.pick(&[
            "Sender <sender@remote.org>", "me@example.org", "\"Q, uoted\" <q@x.org>, b@y.net", "Group: a@b.c, d@e.f;", "=?utf-8?q?caf=C3=A9?= <u+detail@d.org>",
            "Me <me@example.org>",
        ]))
        .to_string()
    };
    let n = 2 + r.below(8);
    for _ in 0..n {
        let h = match r.below(14) {
            0 => format!("From: {}", addr(r)),
            1 => format!("To: {}", addr(r)),
            2 => format!("Cc: {}", addr(r)),
            3 => format!("Subject: {}", r.pick(&["Hello", "a b", "=?utf-8?b?w6k=?=", "", "folded\r\n subject", "caf\u{e9}", "5"])),
            4 => format!("X-Test: {}", r.pick(TEXTS).replace("\r\n", " ")),
            5 => "Date: Tue, 1 Apr 1997 09:06:31 -0800".to_string(),
            6 => format!("Message-ID: <id{}@remote.org>", r.below(9)),
            7 => "Received: from a.org (b.org [1.2.3.4]) by c.org with ESMTP id 1; Fri, 21 Nov 1997 10:01:10 -0600".to_string(),
            8 => format!("List-Id: <{}>", r.below(9)),
            9 => "References: <a@b> <c@d>".to_string(),
            10 => format!("Auto-Submitted: {}", r.pick(&["no", "auto-replied"])),
            11 => format!("Bcc: {}", addr(r)),
            12 => format!("X-Test: {}", r.below(20)),
            _ => format!("Resent-To: {}", addr(r)),
        };
        *o += &h;
        *o += "\r\n";
    }
    if top && r.chance(1, 2) {
        *o += "MIME-Version: 1.0\r\n";
    }
}

pub fn message(r: &mut Rng) -> Vec<u8> {
    let mut o = String::new();
    headers(r, &mut o, true);
    if r.chance(1, 3) {
        o += "\r\n";
        o += *r.pick(TEXTS);
        o += "\r\n";
    } else {
        part(r, 0, &mut o);
    }
    let mut m = o.into_bytes();
    if r.chance(1, 8) {
        // lone line feeds
        m.retain(|&b| b != b'\r');
    }
    m
}

/// Valid messages damaged in several ways, and noise. Never empty: the parser refuses those.
/// The structure of nested messages is left alone: the message parser (a dependency) loops, panics or
/// returns cyclic trees for some of those (see DESIGN.md), and `well_formed` filters the rest.
pub fn hostile_message(r: &mut Rng) -> Vec<u8> {
    let mut m = message(r);
    let has = |m: &[u8], s: &[u8]| m.windows(s.len()).any(|w| w.eq_ignore_ascii_case(s));
    let nested = has(&m, b"message/");
    for _ in 0..r.below(6) {
        if m.is_empty() {
            break;
        }
        let p = r.below(m.len());
        match r.below(5) {
            0 if !nested => m.truncate(p),
            1 => {
                if m[p] != b'-' && !(nested && m[p] < 32) {
                    m[p] = *r.pick(&[0u8, 0x80, 0xff, b'x', b' ', b'<', b'"', b'=', b'?'])
                }
            }
            2 if !nested => {
                m.remove(p);
            }
            3 if !nested => {
                let q = p + r.below(m.len() - p);
                let s: Vec<u8> = m[p..q].to_vec();
                let at = r.below(m.len());
                m.splice(at..at, s);
            }
            _ => m.insert(p, *r.pick(&[0u8, b'\n', b'\r', 0xff, b'"', b'<', b':', b'='])),
        }
    }
    m
}

/// Whether the tree the message parser returned is one: children after their parents, each part once,
/// offsets in order.
pub fn well_formed(m: &mail_parser::Message) -> bool {
    let mut seen = vec![0u32; m.parts.len()];
    for (i, p) in m.parts.iter().enumerate() {
        if p.offset_header > p.offset_body || p.offset_body > p.offset_end || p.offset_end as usize > m.raw_message.len() {
            return false;
        }
        match &p.body {
            mail_parser::PartType::Multipart(v) => {
                let mut last = p.offset_body;
                for c in v {
                    let c = *c as usize;
                    if c <= i || c >= m.parts.len() || seen[c] > 0 || m.parts[c].offset_header < last || m.parts[c].offset_end > p.offset_end {
                        return false;
                    }
                    last = m.parts[c].offset_end;
                    seen[c] = 1;
                }
            }
            mail_parser::PartType::Message(m) => {
                if !well_formed(m) {
                    return false;
                }
            }
            _ => (),
        }
    }
    seen.iter().skip(1).all(|s| *s == 1)
}
