//! Capabilities: every construct is only accepted where its capability is required (in the block or an
//! enclosing one), a script that requires what the host does not allow ends there with an error, ihave
//! tells what the host allows, and unknown commands are errors exactly when they are reached.
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::{gen, Prop};
use sieve::compiler::grammar::Capability;
use sieve::compiler::ErrorType;
use sieve::{Compiler, Event, Input, Sieve};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop { id: "P09", quick: 1_300_000, thorough: 20_000_000, directed, case };

fn strict() -> Compiler {
    Compiler::new().register_functions(&mut run::functions()).with_max_includes(100).with_max_nested_blocks(30)
}

enum Res {
    Ok(Sieve),
    Undeclared(String),
    Other(String),
}

fn compile(s: &str) -> Res {
    match run::no_panic(|| strict().compile(s.as_bytes())) {
        Ok(Ok(s)) => Res::Ok(s),
        Ok(Err(e)) => match e.error_type() {
            ErrorType::UndeclaredCapability(c) => Res::Undeclared(c.to_string()),
            _ => Res::Other(e.to_string()),
        },
        Err(p) => Res::Other(format!("panic {p}")),
    }
}

/// Compiles with all of `caps`, and without each of them.
fn minimal(rep: &mut Rep, body: &str, caps: &[&str]) -> Option<Sieve> {
    rep.current = format!("{caps:?}\n{body}");
    let req = |c: &mut dyn Iterator<Item = &&str>| {
        let v: Vec<String> = c.map(|c| format!("\"{c}\"")).collect();
        if v.is_empty() {
            String::new()
        } else {
            format!("require [{}];\n", v.join(", "))
        }
    };
    let all = format!("{}{body}", req(&mut caps.iter()));
    let s = match compile(&all) {
        Res::Ok(s) => s,
        Res::Undeclared(c) => {
            rep.fail("a construct needs another capability than its own", format!("{c} with {caps:?}\n{all}"));
            return None;
        }
        Res::Other(e) => {
            rep.fail("a valid script is rejected", format!("{e}\n{all}"));
            return None;
        }
    };
    for c in caps {
        if (*c == "spamtest" && caps.contains(&"spamtestplus")) || c.starts_with("comparator") || *c == "encoded-character" {
            continue;
        }
        let t = format!("{}{body}", req(&mut caps.iter().filter(|x| *x != c)));
        match compile(&t) {
            Res::Undeclared(u) if u == *c => {
                rep.cover(&format!("enforced {c}"));
                rep.ok(&t);
            }
            Res::Undeclared(u) => return fail_none(rep, format!("capability {u} is reported instead of {c}\n{t}")),
            Res::Ok(_) => return fail_none(rep, format!("compiles without {c}\n{t}")),
            Res::Other(e) => return fail_none(rep, format!("another error without {c}: {e}\n{t}")),
        }
    }
    Some(s)
}

fn fail_none(rep: &mut Rep, d: String) -> Option<Sieve> {
    rep.fail("a capability is not enforced", d);
    None
}

fn runtime(denied: &BTreeSet<String>) -> sieve::Runtime {
    let mut rt = run::runtime();
    for d in denied {
        rt.unset_capability(Capability::parse(d));
    }
    rt
}

/// Capabilities in the order the script names them, with what they imply.
fn order(caps: &[&str]) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for c in caps {
        if !o.iter().any(|x| x == c) {
            o.push(c.to_string());
            if *c == "spamtestplus" && !o.iter().any(|x| x == "spamtest") {
                o.push("spamtest".into());
            }
        }
    }
    o
}

fn known(c: &str) -> bool {
    !matches!(Capability::parse(c), Capability::Other(_))
}

fn cap_err(c: &str) -> String {
    if known(c) {
        format!("CapabilityNotAllowed({c})")
    } else {
        format!("CapabilityNotSupported({c})")
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    if r.chance(1, 3) {
        generated(rep, r)
    } else {
        blocks(rep, r)
    }
}

/// A script over the whole language: exactly its capabilities are needed, and none may be denied.
fn generated(rep: &mut Rep, r: &mut Rng) {
    let mut g = gen::Gen::new(r, gen::Opts { max_stmts: 4, hostile: false, ..Default::default() });
    g.script();
    let (body, caps) = (gen::render(&g.out), g.caps.clone());
    let mut caps: Vec<&str> = caps.into_iter().collect();
    r.shuffle(&mut caps);
    let Some(script) = minimal(rep, &body, &caps) else { return };
    let mut denied = BTreeSet::new();
    for c in &caps {
        if r.chance(1, 4) {
            denied.insert(c.to_string());
        }
    }
    if r.chance(1, 3) {
        denied.insert(r.pick(&Capability::all()).to_string());
    }
    let exp = order(&caps).into_iter().find(|c| denied.contains(c)).map(|c| cap_err(&c));
    if rep.verbose {
        println!("denied {denied:?}\n{}", rep.current);
    }
    let rt = runtime(&denied);
    let mut ctx = rt.filter(run::MSG);
    run::std_context(&mut ctx);
    let tr = run::drive(&mut ctx, script, 5_000, &mut run::default_answer);
    let errs: Vec<String> = tr.errs().iter().filter(|e| e.starts_with("Capability")).map(|e| e.to_string()).collect();
    if errs != exp.clone().into_iter().collect::<Vec<_>>() {
        return rep.fail("denied capabilities", format!("{caps:?} denied {denied:?}\n{body}\nexpected {exp:?}\nobserved {}", tr.show()));
    }
    if exp.is_some() {
        rep.cover("runs with a denied capability");
        if !matches!(&tr.items[..], [Tr::Err(_), Tr::Ev(Event::Keep { message_id: 0, .. })]) {
            return rep.fail("a command ran despite a denied capability", format!("{caps:?} denied {denied:?}\n{body}\n{}", tr.show()));
        }
    }
    rep.ok(&(body, denied));
}

// --------------------------------------------------------------------------- blocks, ihave, unknown names

/// Statements (one event or mark each) and the capabilities they need.
const USES: &[(&str, &[&str])] = &[
    ("fileinto \"@\";", &["fileinto"]),
    ("fileinto :copy \"@\";", &["fileinto", "copy"]),
    ("fileinto :create \"@\";", &["fileinto", "mailbox"]),
    ("redirect \"@@x.org\";", &[]),
    ("redirect :copy \"@@x.org\";", &["copy"]),
    ("redirect :list \"@@x.org\";", &["extlists"]),
    ("redirect :ret \"FULL\" \"@@x.org\";", &["redirect-dsn"]),
    ("notify \"xmpp:@\";", &["enotify"]),
    ("reject \"@\";", &["reject"]),
    ("ereject \"@\";", &["ereject"]),
    ("eval \"t('@')\";", &["vnd.stalwart.expressions"]),
    ("let \"x\" \"t('@')\";", &["vnd.stalwart.expressions"]),
    ("if mailboxexists \"@\" {}", &["mailbox"]),
    ("if mailboxidexists \"@\" {}", &["mailboxid"]),
    ("if specialuse_exists \"@\" {}", &["special-use"]),
    ("if header :list \"Subject\" \"@\" {}", &["extlists"]),
    ("if string :list \"a\" \"@\" {}", &["variables", "extlists"]),
    ("if duplicate :uniqueid \"@\" {}", &["duplicate"]),
    ("include \"@\";", &["include"]),
];
const UNKNOWN: &[&str] = &[
    "frob", "frob :tag \"a;b}\" 5", "frob [\"a\", \"b\"] { keep; x { y; } }", "frob (a, b [\"}\"])", "frob text:\r\n}\r\n.\r\n", "elbow { if a { b; } else { c; } }",
];
const UTESTS: &[&str] = &["frob", "frob :is \"a\"", "frob [\"a\", \"b\"] \"c\"", "frob (true, false)", "frob :x [\"a,b\"] (y \"z\", [\"u\", \"v\"])"];
const ALLCAPS: &[&str] = &[
    "fileinto", "copy", "mailbox", "extlists", "redirect-dsn", "enotify", "reject", "ereject", "vnd.stalwart.expressions", "mailboxid", "special-use", "variables",
    "duplicate", "include", "ihave", "spamtest", "spamtestplus", "vnd.unknown", "comparator-i;octet", "comparator-x", "encoded-character", "nope", "body",
];

#[derive(Clone, Debug)]
enum Test {
    Const(bool),
    Ihave(Vec<String>),
    Unknown(usize),
    Not(Box<Test>),
    Any(Vec<Test>),
    All(Vec<Test>),
}

#[derive(Clone, Debug)]
enum St {
    Require(Vec<String>),
    Use(usize, u32),
    Unknown(usize),
    If(Vec<(Test, Vec<St>)>, Option<Vec<St>>),
}

struct G<'a> {
    r: &'a mut Rng,
    n: u32,
    scope: Vec<Vec<String>>,
    careless: bool,
}

impl G<'_> {
    fn test(&mut self, d: usize) -> Test {
        match self.r.below(if d > 2 { 4 } else { 7 }) {
            0 => Test::Const(self.r.chance(1, 2)),
            1 | 2 => Test::Ihave((0..1 + self.r.below(3)).map(|_| self.r.pick(ALLCAPS).to_string()).collect()),
            3 => {
                if self.r.chance(1, 2) {
                    Test::Const(true)
                } else {
                    Test::Unknown(self.r.below(UTESTS.len()))
                }
            }
            4 => Test::Not(self.test(d + 1).into()),
            5 => Test::Any((0..1 + self.r.below(3)).map(|_| self.test(d + 1)).collect()),
            _ => Test::All((0..1 + self.r.below(3)).map(|_| self.test(d + 1)).collect()),
        }
    }
    fn has(&self, c: &str) -> bool {
        self.scope.iter().flatten().any(|x| x == c)
    }
    fn block(&mut self, d: usize) -> Vec<St> {
        let mut o = vec![];
        self.scope.push(vec![]);
        for _ in 0..if d == 0 { 2 } else { self.r.below(2) } {
            let n = if d == 0 { 1 + self.r.below(12) } else { 1 + self.r.below(3) };
            let mut v: Vec<String> = (0..n).map(|_| self.r.pick(ALLCAPS).to_string()).collect();
            if self.r.chance(3, 4) {
                v.retain(|c| known(c));
            }
            if d == 0 && self.r.chance(1, 2) {
                v.push("ihave".into());
            }
            if v.is_empty() {
                continue;
            }
            self.scope.last_mut().unwrap().extend(v.clone());
            o.push(St::Require(v));
        }
        for _ in 0..self.r.below(4) {
            self.n += 1;
            let s = match self.r.below(if d > 2 { 6 } else { 9 }) {
                0..=4 => {
                    let u = self.r.below(USES.len());
                    if !self.careless && !USES[u].1.iter().all(|c| self.has(c)) {
                        continue;
                    }
                    St::Use(u, self.n)
                }
                5 => St::Unknown(self.r.below(UNKNOWN.len())),
                _ => {
                    let k = 1 + self.r.below(2);
                    let mut v = vec![];
                    for _ in 0..k {
                        let t = self.test(0);
                        v.push((t, self.block(d + 1)));
                    }
                    let e = if self.r.chance(1, 2) { Some(self.block(d + 1)) } else { None };
                    St::If(v, e)
                }
            };
            if !self.careless && !self.has("ihave") && needs_ihave(&s) {
                continue;
            }
            o.push(s);
        }
        self.scope.pop();
        o
    }
}

fn needs_ihave(s: &St) -> bool {
    fn t(x: &Test) -> bool {
        match x {
            Test::Ihave(_) | Test::Unknown(_) => true,
            Test::Not(t1) => t(t1),
            Test::Any(v) | Test::All(v) => v.iter().any(t),
            _ => false,
        }
    }
    match s {
        St::Unknown(_) => true,
        St::If(v, _) => v.iter().any(|(x, _)| t(x)),
        _ => false,
    }
}

fn ttext(t: &Test) -> String {
    match t {
        Test::Const(b) => b.to_string(),
        Test::Ihave(v) if v.len() == 1 => format!("ihave \"{}\"", v[0]),
        Test::Ihave(v) => format!("ihave {v:?}"),
        Test::Unknown(i) => UTESTS[*i].into(),
        Test::Not(t) => format!("not {}", ttext(t)),
        Test::Any(v) => format!("anyof({})", v.iter().map(ttext).collect::<Vec<_>>().join(", ")),
        Test::All(v) => format!("allof({})", v.iter().map(ttext).collect::<Vec<_>>().join(", ")),
    }
}

fn text(b: &[St], o: &mut String) {
    for s in b {
        match s {
            St::Require(v) if v.len() == 1 => *o += &format!("require \"{}\";\n", v[0]),
            St::Require(v) => *o += &format!("require {v:?};\n"),
            St::Use(u, n) => *o += &format!("{}\n", stmt(*u, *n)),
            St::Unknown(i) => {
                *o += UNKNOWN[*i];
                *o += if UNKNOWN[*i].contains('{') { "\n" } else { ";\n" };
            }
            St::If(v, e) => {
                for (i, (t, b)) in v.iter().enumerate() {
                    *o += &format!("{} {} {{\n", if i == 0 { "if" } else { "elsif" }, ttext(t));
                    text(b, o);
                    *o += "}\n";
                }
                if let Some(b) = e {
                    *o += "else {\n";
                    text(b, o);
                    *o += "}\n";
                }
            }
        }
    }
}

fn stmt(u: usize, n: u32) -> String {
    // "@@" is the mark followed by an at sign
    USES[u].0.replace("@@", &format!("n{n}\u{1}")).replace('@', &format!("n{n}")).replace('\u{1}', "@")
}

/// Where the compiler has to stop, if it has to: the capability, or unknown names without ihave.
#[derive(Debug, PartialEq)]
enum Bad {
    Cap(String),
    Unknown,
}

fn check_block(b: &[St], scope: &mut Vec<BTreeSet<String>>) -> Option<Bad> {
    scope.push(BTreeSet::new());
    let mut bad = None;
    let has = |scope: &Vec<BTreeSet<String>>, c: &str| scope.iter().any(|s| s.contains(c));
    fn test(t: &Test, ih: bool) -> Option<Bad> {
        match t {
            Test::Const(_) => None,
            Test::Ihave(_) if !ih => Some(Bad::Cap("ihave".into())),
            Test::Unknown(_) if !ih => Some(Bad::Unknown),
            Test::Not(t) => test(t, ih),
            Test::Any(v) | Test::All(v) => v.iter().find_map(|t| test(t, ih)),
            _ => None,
        }
    }
    for s in b {
        bad = match s {
            St::Require(v) => {
                for c in v {
                    scope.last_mut().unwrap().insert(c.clone());
                    if c == "spamtestplus" {
                        scope.last_mut().unwrap().insert("spamtest".into());
                    }
                }
                None
            }
            // tags are checked in order; the command itself before them
            St::Use(u, _) => USES[*u].1.iter().find(|c| !has(scope, c)).map(|c| Bad::Cap(c.to_string())),
            St::Unknown(_) => (!has(scope, "ihave")).then_some(Bad::Unknown),
            St::If(v, e) => v
                .iter()
                .find_map(|(t, b)| test(t, has(scope, "ihave")).or_else(|| check_block(b, scope)))
                .or_else(|| e.as_ref().and_then(|b| check_block(b, scope))),
        };
        if bad.is_some() {
            break;
        }
    }
    scope.pop();
    bad
}

struct Ref<'a> {
    denied: &'a BTreeSet<String>,
    scope: Vec<BTreeSet<String>>,
    exp: Vec<String>,
}

impl Ref<'_> {
    fn allowed(&self, c: &str) -> bool {
        known(c) && c != "comparator-x" && !self.denied.contains(c)
    }
    fn test(&mut self, t: &Test) -> Result<bool, String> {
        Ok(match t {
            Test::Const(b) => *b,
            Test::Ihave(v) => v.iter().all(|c| c != "variables" && c != "encoded-character" && self.allowed(c)),
            Test::Unknown(i) => return Err(format!("InvalidInstruction({})", UTESTS[*i].split(' ').next().unwrap())),
            Test::Not(t) => !self.test(t)?,
            Test::Any(v) => {
                for t in v {
                    if self.test(t)? {
                        return Ok(true);
                    }
                }
                false
            }
            Test::All(v) => {
                for t in v {
                    if !self.test(t)? {
                        return Ok(false);
                    }
                }
                true
            }
        })
    }
    fn run(&mut self, b: &[St]) -> Result<(), String> {
        // requires come first in a block
        let mut all: Vec<&str> = vec![];
        for s in b {
            if let St::Require(v) = s {
                all.extend(v.iter().map(|s| s.as_str()));
            }
        }
        let mut mine = BTreeSet::new();
        for c in order(&all) {
            if self.scope.iter().any(|s| s.contains(&c)) {
                continue;
            }
            if !self.allowed(&c) {
                return Err(if c == "comparator-x" { "CapabilityNotAllowed(x)".into() } else { cap_err(&c) });
            }
            mine.insert(c);
        }
        self.scope.push(mine);
        for s in b {
            match s {
                St::Require(_) => (),
                St::Use(_, n) => self.exp.push(format!("n{n}")),
                St::Unknown(i) => return Err(format!("InvalidInstruction({})", UNKNOWN[*i].split(' ').next().unwrap())),
                St::If(v, e) => {
                    let mut done = false;
                    for (t, b) in v {
                        if self.test(t)? {
                            self.run(b)?;
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        if let Some(b) = e {
                            self.run(b)?;
                        }
                    }
                }
            }
        }
        self.scope.pop();
        Ok(())
    }
}

fn blocks(rep: &mut Rep, r: &mut Rng) {
    let careless = r.chance(1, 3);
    let mut g = G { r, n: 0, scope: vec![], careless };
    let b = g.block(0);
    let mut s = String::new();
    text(&b, &mut s);
    rep.current = s.clone();
    let bad = check_block(&b, &mut vec![]);
    let script = match (compile(&s), &bad) {
        (Res::Ok(s), None) => s,
        (Res::Undeclared(c), Some(Bad::Cap(d))) if c == *d => {
            rep.cover("scripts refused for a capability out of scope");
            return rep.ok(&s);
        }
        (Res::Other(e), Some(Bad::Unknown)) if !e.contains("panic") => {
            rep.cover("scripts refused for an unknown name");
            return rep.ok(&s);
        }
        (Res::Ok(_), b) => return rep.fail("a capability is not enforced", format!("expected {b:?}\n{s}")),
        (Res::Undeclared(c), b) => return rep.fail("the compiler asks for the wrong capability", format!("{c}, expected {b:?}\n{s}")),
        (Res::Other(e), b) => return rep.fail("the compiler fails", format!("{e}, expected {b:?}\n{s}")),
    };
    let mut denied = BTreeSet::new();
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(3) {
            denied.insert(r.pick(ALLCAPS).to_string());
        }
    }
    let mut m = Ref { denied: &denied, scope: vec![], exp: vec![] };
    let end = m.run(&b);
    let rt = runtime(&denied).with_max_redirects(100).with_max_out_messages(100);
    let mut ctx = rt.filter(run::MSG);
    run::std_context(&mut ctx);
    let tr = run::drive(&mut ctx, script, 5_000, &mut |e| match e {
        Event::Function { .. } => Input::FncResult(1i64.into()),
        _ => Input::False,
    });
    let show = || format!("{s}\ndenied {denied:?}\nexpected {:?} {end:?}\nobserved\n{}", m.exp, tr.show());
    if let Some(b) = tr.broken() {
        return rep.fail("the run is broken", format!("{b}\n{}", show()));
    }
    // each use carries its number
    let mut got = vec![];
    for i in &tr.items {
        if let Tr::Ev(e) = i {
            if matches!(e, Event::Keep { .. } | Event::Discard) {
                continue;
            }
            let t = format!("{e:?}");
            let p = t.find("n1").into_iter().chain((2..10).filter_map(|d| t.find(&format!("n{d}")))).min();
            match p {
                Some(p) => got.push(format!("n{}", t[p + 1..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>())),
                None => got.push(t),
            }
        }
    }
    let errs: Vec<String> = tr.errs().iter().map(|e| e.to_string()).collect();
    if got != m.exp || errs != end.clone().err().into_iter().collect::<Vec<_>>() {
        return rep.fail("the run differs", show());
    }
    match &end {
        Ok(()) => rep.cover("runs to the end"),
        Err(e) => {
            let k = e.split('(').next().unwrap().to_string();
            rep.cover(&format!("runs ended by {k}"));
            // the error is not lost for the message
            let last = tr.items.last();
            let disposed = tr.events().any(|e| matches!(e, Event::FileInto { .. } | Event::SendMessage { .. } | Event::Reject { .. }));
            if !disposed && !matches!(last, Some(Tr::Ev(Event::Keep { message_id: 0, .. }))) {
                return rep.fail("the message is lost after an error", show());
            }
        }
    }
    rep.sample(|| format!("{s} denied {denied:?} => {got:?} {end:?}"));
    if s.contains("ihave") && !errs.is_empty() || !got.is_empty() {
        rep.ok(&(s, denied));
    } else {
        rep.trivial();
    }
}

// -------------------------------------------------------------------------------------------- the table

fn directed(rep: &mut Rep) {
    let mut rows: Vec<(String, Vec<&'static str>)> = vec![];
    let mut row = |s: &str, c: &[&'static str]| rows.push((s.to_string(), c.to_vec()));
    row("keep; discard; stop; if true {} if not false {} if anyof(size :over 1K, exists \"a\", header \"a\" \"b\", address \"from\" \"b\") {} redirect \"a@b.c\";", &[]);
    row("fileinto \"a\";", &["fileinto"]);
    for (t, c) in [(":copy", "copy"), (":create", "mailbox"), (":flags \"a\"", "imap4flags"), (":mailboxid \"x\"", "mailboxid"), (":specialuse \"\\\\Junk\"", "special-use")] {
        row(&format!("fileinto {t} \"a\";"), &["fileinto", c]);
    }
    row("fileinto :copy :create :flags \"a\" :mailboxid \"x\" :specialuse \"\\\\Junk\" \"a\";", &["fileinto", "copy", "mailbox", "imap4flags", "mailboxid", "special-use"]);
    row("keep :flags \"a\";", &["imap4flags"]);
    for (t, c) in [
        (":copy", "copy"),
        (":list", "extlists"),
        (":bytimerelative 5", "redirect-deliverby"),
        (":bytimeabsolute \"2020-11-20T18:30:00Z\"", "redirect-deliverby"),
        (":bymode \"notify\"", "redirect-deliverby"),
        (":bytrace", "redirect-deliverby"),
        (":ret \"FULL\"", "redirect-dsn"),
        (":notify \"NEVER\"", "redirect-dsn"),
    ] {
        if t == ":bymode \"notify\"" || t == ":bytrace" {
            row(&format!("redirect {t} :bytimerelative 5 \"a@b.c\";"), &[c]);
            row(&format!("redirect :bytimerelative 5 {t} \"a@b.c\";"), &[c]);
        } else {
            row(&format!("redirect {t} \"a@b.c\";"), &[c]);
        }
    }
    row("reject \"a\";", &["reject"]);
    row("ereject \"a\";", &["ereject"]);
    row("setflag \"a\";", &["imap4flags"]);
    row("addflag \"a\";", &["imap4flags"]);
    row("removeflag \"a\";", &["imap4flags"]);
    row("set \"a\" \"b\";", &["variables"]);
    row("set :lower :upperfirst :quotewildcard :length \"a\" \"b\";", &["variables"]);
    row("vacation \"a\";", &["vacation"]);
    row("vacation :days 5 :subject \"a\" :from \"a@b.c\" :addresses \"c@d.e\" :mime :handle \"h\" \"a\";", &["vacation"]);
    row("vacation :seconds 5 \"a\";", &["vacation", "vacation-seconds"]);
    for (cmd, tail, cap) in [("vacation", "\"x\"", "vacation"), ("notify", "\"mailto:a@b.c\"", "enotify")] {
        row(&format!("{cmd} :fcc \"a\" {tail};"), &[cap, "fcc"]);
        row(&format!("{cmd} :fcc \"a\" :create {tail};"), &[cap, "fcc", "mailbox"]);
        row(&format!("{cmd} :fcc \"a\" :flags \"b\" {tail};"), &[cap, "fcc", "imap4flags"]);
        row(&format!("{cmd} :fcc \"a\" :mailboxid \"b\" {tail};"), &[cap, "fcc", "mailboxid"]);
        row(&format!("{cmd} :fcc \"a\" :specialuse \"\\\\Sent\" {tail};"), &[cap, "fcc", "special-use"]);
    }
    row("notify :from \"a@b.c\" :importance \"1\" :options \"a\" :message \"m\" \"mailto:a@b.c\";", &["enotify"]);
    row("addheader \"a\" \"b\";", &["editheader"]);
    row("addheader :last \"a\" \"b\";", &["editheader"]);
    row("deleteheader \"a\";", &["editheader"]);
    row("deleteheader :index 1 :last \"a\";", &["editheader"]);
    row("foreverypart { break; }", &["foreverypart"]);
    row("foreverypart :name \"a\" { break :name \"a\"; }", &["foreverypart"]);
    row("replace \"a\";", &["replace"]);
    row("enclose \"a\";", &["enclose"]);
    row("convert \"text/html\" \"text/plain\" \"x\";", &["convert"]);
    row("foreverypart { extracttext \"a\"; }", &["foreverypart", "extracttext"]);
    row("include \"a\";", &["include"]);
    row("include :global :once :optional \"a\";", &["include"]);
    row("return;", &["include"]);
    row("global \"a\";", &["include", "variables"]);
    row("let \"a\" \"1\";", &["vnd.stalwart.expressions"]);
    row("eval \"1\";", &["vnd.stalwart.expressions"]);
    row("while \"0\" { break; }", &["vnd.stalwart.while"]);
    row("while \"0\" { continue; }", &["vnd.stalwart.while"]);
    row("error \"a\";", &["ihave"]);
    row("if ihave \"fileinto\" {}", &["ihave"]);
    row("if eval \"1\" {}", &["vnd.stalwart.expressions"]);
    row("if envelope \"from\" \"a\" {}", &["envelope"]);
    for p in ["notify", "orcpt", "ret", "envid"] {
        row(&format!("if envelope \"{p}\" \"a\" {{}}"), &["envelope", "envelope-dsn"]);
    }
    for p in ["bytimeabsolute", "bytimerelative", "bymode", "bytrace"] {
        row(&format!("if envelope \"{p}\" \"a\" {{}}"), &["envelope", "envelope-deliverby"]);
        row(&format!("if envelope [\"from\", \"{p}\"] \"a\" {{}}"), &["envelope", "envelope-deliverby"]);
    }
    row("if duplicate {}", &["duplicate"]);
    row("if hasflag \"a\" {}", &["imap4flags"]);
    row("if mailboxexists \"a\" {}", &["mailbox"]);
    row("if mailboxidexists \"a\" {}", &["mailboxid"]);
    row("if metadataexists \"a\" \"b\" {}", &["mboxmetadata"]);
    row("if servermetadataexists \"a\" {}", &["servermetadata"]);
    row("if valid_ext_list \"a\" {}", &["extlists"]);
    row("if valid_notify_method \"mailto:a\" {}", &["enotify"]);
    row("if specialuse_exists \"\\\\Junk\" {}", &["special-use"]);
    row("if convert \"text/html\" \"text/plain\" \"x\" {}", &["convert"]);
    row("if exists :mime \"a\" {}", &["mime"]);
    row("if exists :mime :anychild \"a\" {}", &["mime"]);
    // every test that compares x every way of comparing
    let tests: &[(&str, &str, &[&str])] = &[
        ("header", "\"subject\"", &[]),
        ("address", "\"from\"", &[]),
        ("envelope", "\"from\"", &["envelope"]),
        ("body", "", &["body"]),
        ("date", "\"date\" \"year\"", &["date"]),
        ("currentdate", "\"year\"", &["date"]),
        ("string", "\"a\"", &["variables"]),
        ("hasflag", "", &["imap4flags"]),
        ("environment", "\"name\"", &["environment"]),
        ("notify_method_capability", "\"mailto:a@b.c\" \"online\"", &["enotify"]),
        ("metadata", "\"INBOX\" \"/a\"", &["mboxmetadata"]),
        ("servermetadata", "\"/a\"", &["servermetadata"]),
        ("spamtest", "", &["spamtest"]),
        ("virustest", "", &["virustest"]),
    ];
    for (name, args, caps) in tests {
        let key = if name.ends_with("mtest") || *name == "virustest" { "\"5\"" } else { "[\"5\", \"6\"]" };
        for (tag, cap) in [
            ("", ""),
            (":is", ""),
            (":contains", ""),
            (":matches", ""),
            (":regex", "regex"),
            (":value \"gt\"", "relational"),
            (":count \"ge\"", "relational"),
            (":list", "extlists"),
        ] {
            if !matches!(*name, "header" | "address" | "envelope" | "date" | "currentdate" | "string") && tag == ":list" {
                continue;
            }
            let mut c = caps.to_vec();
            if !cap.is_empty() {
                c.push(cap);
            }
            row(&format!("if {name} {tag} {args} {key} {{}}"), &c);
            row(&format!("if anyof(false, not {name} :comparator \"i;octet\" {tag} {args} {key}) {{}}"), &c);
        }
        if matches!(*name, "header" | "address" | "date") {
            let mut c = caps.to_vec();
            c.push("index");
            row(&format!("if {name} :index 1 {args} {key} {{}}"), &c);
            row(&format!("if {name} :index 1 :last {args} {key} {{}}"), &c);
            c.push("mime");
            row(&format!("if {name} :mime :index 1 :anychild {args} {key} {{}}"), &c);
        }
        if *name == "header" {
            for o in [":type", ":subtype", ":contenttype", ":param \"charset\""] {
                row(&format!("if header :mime {o} \"Content-Type\" {key} {{}}"), &["mime"]);
            }
        }
        if matches!(*name, "address" | "envelope") {
            for p in [":localpart", ":domain", ":all"] {
                row(&format!("if {name} {p} {args} {key} {{}}"), caps);
            }
            for p in [":user", ":detail"] {
                let mut c = caps.to_vec();
                c.push("subaddress");
                row(&format!("if {name} {p} {args} {key} {{}}"), &c);
            }
        }
        if *name == "spamtest" {
            row(&format!("if spamtest :percent :value \"gt\" {key} {{}}"), &["spamtest", "spamtestplus", "relational"]);
        }
    }
    for (tag, cap) in [(":regex", "regex"), (":value \"gt\"", "relational"), (":count \"ge\"", "relational")] {
        row(&format!("deleteheader {tag} \"a\" \"5\";"), &["editheader", cap]);
    }
    for (s, c) in &rows {
        minimal(rep, s, c);
        // also in a nested block, where the outer requires count
        let t = format!("if true {{ if false {{}} else {{ {s} }} }}");
        minimal(rep, &t, c);
        rep.cover("rows of the table");
        // without the check everything but ihave compiles without a require
        let free = Compiler::new().register_functions(&mut run::functions()).with_no_capability_check(true);
        let ok = free.compile(s.as_bytes()).is_ok();
        if ok == c.contains(&"ihave") {
            rep.fail("no capability check", s.clone());
        }
    }
    // each capability the library knows, denied and allowed, required alone
    for c in Capability::all() {
        let name = c.to_string();
        if Capability::parse(&name) != *c {
            rep.fail("the name of a capability", format!("{c:?} {name}"));
        }
        for denied in [false, true] {
            let rt = if denied { run::runtime().without_capability(c.clone()) } else { run::runtime() };
            let s = strict().compile(format!("require \"{name}\"; redirect \"a@b.org\";").as_bytes());
            let Ok(s) = s else {
                rep.fail("require of a known capability", name.clone());
                continue;
            };
            let mut ctx = rt.filter(run::MSG);
            let tr = run::drive(&mut ctx, s, 10, &mut run::default_answer);
            let ok = match &tr.items[..] {
                [Tr::Err(e), Tr::Ev(Event::Keep { .. })] => denied && *e == format!("CapabilityNotAllowed({name})"),
                [Tr::Ev(Event::SendMessage { .. })] => !denied,
                _ => false,
            };
            if !ok {
                rep.fail("require of a known capability", format!("{name} denied {denied}: {}", tr.show()));
            }
            // what ihave says
            let s = run::compile(&strict(), &format!("require [\"ihave\", \"vnd.stalwart.expressions\"]; if ihave \"{name}\" {{ eval \"t(1)\"; }}"));
            let needs = matches!(c, Capability::Ihave | Capability::Expressions);
            if let (Ok(s), false) = (s, needs) {
                let mut ctx = rt.filter(run::MSG);
                let tr = run::drive(&mut ctx, s, 10, &mut run::default_answer);
                let yes = tr.calls(run::T).len() == 1;
                let exp = !denied && !matches!(c, Capability::Variables | Capability::EncodedCharacter);
                if yes != exp {
                    rep.fail("ihave", format!("{name} denied {denied}: {yes}"));
                }
            }
            rep.ok(&(name.clone(), denied));
            rep.cover("capabilities required alone");
        }
    }
    // what the host has not enabled
    for c in ["vnd.stalwart.while", "vnd.stalwart.expressions"] {
        let s = strict().compile(format!("require \"{c}\"; discard;").as_bytes()).unwrap();
        let rt = sieve::Runtime::new();
        let mut ctx = rt.filter(run::MSG);
        let tr = run::drive(&mut ctx, s, 10, &mut run::default_answer);
        if tr.errs() != [format!("CapabilityNotAllowed({c})")] {
            rep.fail("extensions of the library are off unless enabled", format!("{c}: {}", tr.show()));
        }
    }
}
