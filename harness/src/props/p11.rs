//! Variables: values, modifiers, scopes and sizes against a reference interpreter; and a string given
//! through a variable acts like the same string written as a constant, in every argument of the language.
use crate::gen::{self, quote, Tok};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::{Envelope, Event};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop { id: "P11", quick: 480_000, thorough: 10_000_000, directed, case };

#[derive(Clone, Debug)]
enum Ref {
    Text(String),
    Local(usize),
    Global(String),
    Env(String),
    Envelope(Envelope),
    Nothing,
}
type Val = Vec<Ref>;

#[derive(Clone, Debug)]
enum Md {
    Lower,
    Upper,
    LowerFirst,
    UpperFirst,
    QuoteWildcard,
    QuoteRegex,
    EncodeUrl,
    Length,
    Replace(Val, Val),
}

#[derive(Clone, Debug)]
enum Op {
    Set(Vec<Md>, Ref, Val),
    Copy(Ref, Ref),
    Show(Val),
    Mark(Ref),
    If(Cond, Vec<Op>, Vec<Op>),
    /// number of the loop, how often it runs
    Loop(usize, usize, Vec<Op>),
    /// foreverypart on a message of one part
    Parts(Vec<Op>),
    Clear(Vec<usize>),
    /// on with the innermost while: the variables of the blocks that it leaves are gone
    Continue(Vec<usize>),
}

#[derive(Clone, Debug)]
enum Cond {
    Const(bool),
    /// in which run of a loop
    Run(usize, usize),
}

/// Generates the program and resolves its names as it goes.
struct G<'a> {
    r: &'a mut Rng,
    out: String,
    scopes: Vec<BTreeMap<String, usize>>,
    globals: BTreeSet<String>,
    ids: usize,
    loops: usize,
    left: usize,
    /// the while loops around: their number and the scope of their body
    whiles: Vec<(usize, usize)>,
    parts: usize,
}

const NAMES: &[&str] = &["a", "b", "c", "Name", "_x", "n_1"];
const TEXTS: &[&str] = &[
    "a", "B", "hello World", "é", "É", "ß", "İ", "ŉa", "日本", "😀", " ", "*", "?", "\\", ".", "[x]", "(y)|{z}", "^=:$", "a.b+c", "%", "&",
    "~-_", "\"", "xX", "aba", "ΑΣ", "\t", "$",
];
const ODD: &[&str] = &["${", "${}", "${a b}", "${unknown.x}", "$${", "${é}", "${a:b}", "${a;}", "${envelope.nope}", "$ {a}", "{a}", "${body.nope}"];

impl G<'_> {
    fn spell(&mut self, n: &str) -> String {
        match self.r.below(3) {
            0 => n.to_ascii_uppercase(),
            1 => n.to_ascii_lowercase(),
            _ => n.into(),
        }
    }
    fn local(&self, n: &str) -> Option<usize> {
        self.scopes.iter().rev().find_map(|s| s.get(n).copied())
    }
    fn lookup(&self, n: &str) -> Ref {
        let n = n.to_lowercase();
        if self.globals.contains(&n) {
            Ref::Global(n)
        } else {
            self.local(&n).map_or(Ref::Nothing, Ref::Local)
        }
    }
    fn name(&mut self) -> (String, Ref) {
        match self.r.below(12) {
            0 | 1 => {
                let n = *self.r.pick(NAMES);
                let p = *self.r.pick(&["global.", "t.", "Global.", "T."]);
                (format!("{p}{}", self.spell(n)), Ref::Global(n.to_lowercase()))
            }
            2 => {
                let n = *self.r.pick(&["e1", "e2", "e3"]);
                (format!("{}{}", self.r.pick(&["env.", "ENV."]), self.spell(n)), Ref::Env(n.into()))
            }
            3 => {
                let (n, e) = self.r.pick(&[("from", Envelope::From), ("to", Envelope::To), ("envid", Envelope::Envid), ("orcpt", Envelope::Orcpt)]).clone();
                (format!("envelope.{}", self.spell(n)), Ref::Envelope(e))
            }
            4 => ("never_set".into(), Ref::Nothing),
            _ => {
                let n = *self.r.pick(NAMES);
                (self.spell(n), self.lookup(n))
            }
        }
    }
    fn val(&mut self, max: usize) -> (String, Val) {
        let (mut s, mut v) = (String::new(), vec![]);
        for _ in 0..self.r.below(max) {
            match self.r.below(8) {
                0..=2 => {
                    let (n, r) = self.name();
                    s += &format!("${{{n}}}");
                    v.push(r);
                }
                3 if self.r.chance(1, 3) => {
                    let t = *self.r.pick(ODD);
                    s += t;
                    v.push(Ref::Text(t.into()));
                }
                4 if self.r.chance(1, 4) => {
                    let t = self.r.pick(TEXTS).repeat(1 + self.r.below(9));
                    s += &t;
                    v.push(Ref::Text(t));
                }
                _ => {
                    let t = *self.r.pick(TEXTS);
                    s += t;
                    v.push(Ref::Text(t.into()));
                }
            }
            // a text that ends with a dollar sign must not join a brace
            if s.ends_with('$') {
                s.push('.');
                v.push(Ref::Text(".".into()));
            }
            // unfinished references end the value
            if s.ends_with("${") {
                break;
            }
        }
        (s, v)
    }
    fn target(&mut self, local: bool) -> (String, Ref) {
        loop {
            let (n, r) = self.name();
            match r {
                Ref::Env(_) => continue,
                Ref::Nothing => {
                    let l = n.to_lowercase();
                    if l == "never_set" {
                        continue;
                    }
                    self.ids += 1;
                    let k = if local { 0 } else { self.scopes.len() - 1 };
                    self.scopes[k].insert(l, self.ids);
                    return (n, Ref::Local(self.ids));
                }
                r => return (n, r),
            }
        }
    }
    fn body(&mut self, d: usize, ops: &mut Vec<Op>) {
        for _ in 0..1 + self.r.below(6) {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            self.stmt(d, ops);
        }
    }
    fn inner(&mut self, d: usize) -> Vec<Op> {
        self.scopes.push(BTreeMap::new());
        let mut b = vec![];
        self.body(d + 1, &mut b);
        if let Some(&(_, w)) = self.whiles.last() {
            if self.r.chance(1, 3) {
                self.out += "continue;\n";
                b.push(Op::Continue(self.scopes[w..].iter().flat_map(|s| s.values().copied()).collect()));
                if self.r.chance(1, 3) {
                    self.body(d + 1, &mut b);
                }
            }
        }
        b.push(Op::Clear(self.scopes.pop().unwrap().into_values().collect()));
        b
    }
    fn stmt(&mut self, d: usize, ops: &mut Vec<Op>) {
        match self.r.below(if d > 3 { 9 } else { 13 }) {
            0..=4 => {
                let mut tags = vec![];
                let mut mods: Vec<(u8, Md)> = vec![];
                let local = self.r.chance(1, 4);
                if local {
                    tags.push(":local".to_string());
                }
                let mut used = 0;
                for _ in 0..self.r.below(4) {
                    let (bit, tag, md) = match self.r.below(9) {
                        0 => (41, ":lower", Md::Lower),
                        1 => (40, ":upper", Md::Upper),
                        2 => (31, ":lowerfirst", Md::LowerFirst),
                        3 => (30, ":upperfirst", Md::UpperFirst),
                        4 => (20, ":quotewildcard", Md::QuoteWildcard),
                        5 => (21, ":quoteregex", Md::QuoteRegex),
                        6 => (15, ":encodeurl", Md::EncodeUrl),
                        7 => (10, ":length", Md::Length),
                        _ => {
                            let (f, fv) = self.val(3);
                            let (t, tv) = self.val(3);
                            if used & (1u64 << 40) == 0 {
                                used |= 1 << 50;
                                mods.push((40, Md::Replace(fv, tv)));
                                tags.push(format!(":replace {} {}", quote(&f), quote(&t)));
                            }
                            continue;
                        }
                    };
                    // :upper and :replace have the same precedence
                    if bit == 40 && used & (1 << 50) != 0 {
                        continue;
                    }
                    if used & (1 << bit) == 0 {
                        mods.push((bit, md));
                        used |= 1 << bit;
                    }
                    let t = if self.r.chance(1, 6) { tag.to_uppercase() } else { tag.into() };
                    tags.push(t);
                }
                mods.sort_by_key(|m| std::cmp::Reverse(m.0));
                // the name is resolved before the value is read
                let (n, t) = self.target(local);
                let (s, v) = self.val(6);
                // tags may stand between the name and the value, too, but `:local` comes first
                self.out += &format!("set {} {} {};\n", tags.join(" "), quote(&n), quote(&s));
                ops.push(Op::Set(mods.into_iter().map(|m| m.1).collect(), t, v));
            }
            5 => {
                // let x = y
                let (sn, src) = self.name();
                if matches!(src, Ref::Nothing) {
                    return;
                }
                let (n, t) = self.target(false);
                self.out += &format!("let {} {};\n", quote(&n), quote(&sn));
                ops.push(Op::Copy(t, src));
            }
            6 | 7 => {
                let (s, v) = self.val(7);
                self.out += &format!("fileinto :copy {};\n", quote(&s));
                ops.push(Op::Show(v));
            }
            8 => {
                let (n, r) = self.name();
                if matches!(r, Ref::Nothing) {
                    let n = *self.r.pick(NAMES);
                    if matches!(self.lookup(n), Ref::Nothing) && self.local(&n.to_lowercase()).is_none() {
                        // becomes global from here on
                        self.globals.insert(n.to_lowercase());
                        self.out += &format!("global {};\n", quote(n));
                    }
                    return;
                }
                self.out += &format!("eval \"t({n})\";\n");
                ops.push(Op::Mark(r));
            }
            9 | 10 => {
                let c = match self.whiles.last() {
                    Some(&(n, _)) if self.r.chance(1, 2) => Cond::Run(n, 1 + self.r.below(3)),
                    _ => Cond::Const(self.r.chance(2, 3)),
                };
                self.out += &match &c {
                    Cond::Const(c) => format!("if {c} {{\n"),
                    Cond::Run(n, k) => format!("if eval \"i{n} == {k}\" {{\n"),
                };
                let a = self.inner(d);
                self.out += "}\n";
                let mut b = vec![];
                if self.r.chance(1, 3) {
                    self.out += "else {\n";
                    b = self.inner(d);
                    self.out += "}\n";
                }
                ops.push(Op::If(c, a, b));
            }
            11 => {
                self.loops += 1;
                let (n, k) = (self.loops, self.r.below(4));
                self.out += &format!("let \"i{n}\" \"0\";\nwhile \"i{n} < {k}\" {{\nlet \"i{n}\" \"i{n} + 1\";\n");
                self.whiles.push((n, self.scopes.len()));
                let b = self.inner(d);
                self.whiles.pop();
                self.out += "}\n";
                ops.push(Op::Loop(n, k, b));
            }
            _ => {
                if self.parts > 0 {
                    return;
                }
                self.parts += 1;
                self.out += "foreverypart {\n";
                let b = self.inner(d);
                self.parts -= 1;
                self.out += "}\n";
                ops.push(Op::Parts(b));
            }
        }
    }
}

struct X {
    local: BTreeMap<usize, String>,
    global: BTreeMap<String, String>,
    env: BTreeMap<String, String>,
    envelope: Vec<(Envelope, String)>,
    max: usize,
    seen: Vec<String>,
    runs: BTreeMap<usize, usize>,
    continued: u64,
}

fn cut(s: &str, max: usize) -> String {
    let mut n = max.min(s.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s[..n].to_string()
}

impl X {
    fn get(&self, r: &Ref) -> String {
        match r {
            Ref::Text(t) => t.clone(),
            Ref::Local(i) => self.local.get(i).cloned().unwrap_or_default(),
            Ref::Global(n) => self.global.get(n).cloned().unwrap_or_default(),
            Ref::Env(n) => self.env.get(n).cloned().unwrap_or_default(),
            Ref::Envelope(e) => self.envelope.iter().find(|x| x.0 == *e).map(|x| x.1.clone()).unwrap_or_default(),
            Ref::Nothing => String::new(),
        }
    }
    fn val(&self, v: &Val) -> String {
        v.iter().map(|r| self.get(r)).collect()
    }
    fn set(&mut self, t: &Ref, v: String) {
        let v = cut(&v, self.max);
        match t {
            Ref::Local(i) => {
                self.local.insert(*i, v);
            }
            Ref::Global(n) => {
                self.global.insert(n.clone(), v);
            }
            Ref::Envelope(e) => {
                self.seen.push(format!("envelope {e:?} {v}"));
                match self.envelope.iter_mut().find(|x| x.0 == *e) {
                    Some(x) => x.1 = v,
                    None => self.envelope.push((*e, v)),
                }
            }
            _ => unreachable!(),
        }
    }
    /// Modifiers that work on one character at a time stop when the next one does not fit any more.
    fn chars(&self, s: &str, mut f: impl FnMut(usize, char) -> (usize, String)) -> String {
        let mut o = String::new();
        for (i, c) in s.chars().enumerate() {
            let (need, t) = f(i, c);
            if o.len() + need > self.max {
                break;
            }
            o += &t;
        }
        o
    }
    fn modify(&self, m: &Md, s: &str) -> String {
        match m {
            Md::Lower => s.to_lowercase(),
            Md::Upper => s.to_uppercase(),
            Md::LowerFirst => self.chars(s, |i, c| (c.len_utf8(), if i == 0 { c.to_lowercase().collect() } else { c.into() })),
            Md::UpperFirst => self.chars(s, |i, c| (c.len_utf8(), if i == 0 { c.to_uppercase().collect() } else { c.into() })),
            Md::QuoteWildcard => self.chars(s, |_, c| if "*?\\".contains(c) { (2, format!("\\{c}")) } else { (c.len_utf8(), c.into()) }),
            Md::QuoteRegex => {
                self.chars(s, |_, c| if "*?\\.[]()+{}|^=:$".contains(c) { (2, format!("\\{c}")) } else { (c.len_utf8(), c.into()) })
            }
            Md::EncodeUrl => self.chars(s, |_, c| {
                if c.is_ascii_alphanumeric() || "-._~".contains(c) {
                    (1, c.into())
                } else {
                    let mut b = [0; 4];
                    let t: String = c.encode_utf8(&mut b).bytes().map(|b| format!("%{b:02x}")).collect();
                    (t.len(), t)
                }
            }),
            Md::Length => s.chars().count().to_string(),
            Md::Replace(f, t) => {
                let (f, t) = (self.val(f), self.val(t));
                let full = s.replace(&f, &t);
                if full.len() <= self.max {
                    return full;
                }
                // what is beyond the limit is cut when the variable is set, unless the text shrinks again
                let (mut o, mut last) = (String::new(), 0);
                for (p, x) in s.match_indices(&f) {
                    o += &s[last..p];
                    o += &t;
                    last = p + x.len();
                    if o.len() > self.max {
                        return o;
                    }
                }
                o + &s[last..]
            }
        }
    }
    /// Tells whether to go on with the innermost loop.
    fn run(&mut self, ops: &[Op]) -> bool {
        for op in ops {
            match op {
                Op::Set(m, t, v) => {
                    let mut s = self.val(v);
                    for m in m {
                        s = self.modify(m, &s);
                    }
                    self.set(t, s);
                }
                Op::Copy(t, s) => {
                    let v = self.get(s);
                    self.set(t, v);
                }
                Op::Show(v) => self.seen.push(format!("show {}", self.val(v))),
                Op::Mark(r) => self.seen.push(format!("mark {}", self.get(r))),
                Op::If(c, a, b) => {
                    let c = match c {
                        Cond::Const(c) => *c,
                        Cond::Run(n, k) => self.runs.get(n) == Some(k),
                    };
                    if self.run(if c { a } else { b }) {
                        return true;
                    }
                }
                Op::Loop(n, k, b) => {
                    for i in 1..=*k {
                        self.runs.insert(*n, i);
                        self.run(b);
                    }
                }
                Op::Parts(b) => {
                    if self.run(b) {
                        return true;
                    }
                }
                Op::Clear(ids) | Op::Continue(ids) => {
                    ids.iter().for_each(|i| {
                        self.local.remove(i);
                    });
                    if matches!(op, Op::Continue(_)) {
                        self.continued += 1;
                        return true;
                    }
                }
            }
        }
        false
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    if r.chance(1, 3) {
        substitution(rep, r)
    } else {
        program(rep, r)
    }
}

fn program(rep: &mut Rep, r: &mut Rng) {
    let max = *r.pick(&[8, 9, 10, 11, 16, 30, 100, 4096]);
    let e3: String = r.string(TEXTS, 4);
    let left = 4 + r.below(30);
    let mut g = G { r, out: String::new(), scopes: vec![BTreeMap::new()], globals: BTreeSet::new(), ids: 0, loops: 0, left, whiles: vec![], parts: 0 };
    let mut ops = vec![];
    while g.left > 0 {
        g.body(0, &mut ops);
    }
    let text = g.out;
    rep.current = format!("max {max} e3 {e3:?}\n{text}");
    let mut x = X {
        local: BTreeMap::new(),
        global: [("a".to_string(), "host-a".to_string()), ("name".into(), "Host Name".into())].into(),
        env: [("e1".to_string(), "Env one".to_string()), ("e2".into(), "ctx".into()), ("e3".into(), e3.clone())].into(),
        envelope: vec![(Envelope::From, "sender@remote.org".into()), (Envelope::To, "me@example.org".into()), (Envelope::Orcpt, "rfc822;x@y".into())],
        max,
        seen: vec![],
        runs: BTreeMap::new(),
        continued: 0,
    };
    x.run(&ops);
    let rt = run::runtime()
        .with_max_variable_size(max)
        .with_cpu_limit(1_000_000)
        .with_env_variable("e1", "Env one")
        .with_env_variable("e2", "rt");
    let tr = match run::simple_with(
        &text,
        run::MSG,
        &rt,
        |c| {
            c.set_env_variable("e2", "ctx");
            c.set_env_variable("e3", e3.clone());
            c.set_global_variable("a", "host-a");
            c.set_global_variable("name", "Host Name");
            c.set_envelope(Envelope::Orcpt, "rfc822;x@y");
        },
        &mut run::default_answer,
    ) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{text}")),
    };
    let mut seen = vec![];
    for i in &tr.items {
        match i {
            Tr::Ev(Event::SetEnvelope { envelope, value }) => seen.push(format!("envelope {envelope:?} {value}")),
            Tr::Ev(Event::FileInto { folder, .. }) => seen.push(format!("show {folder}")),
            Tr::Ev(Event::Function { arguments, .. }) => seen.push(format!("mark {}", arguments[0].to_string())),
            Tr::Ev(Event::Keep { .. }) => (),
            x => return rep.fail("unexpected event", format!("{}\n{text}", run::show_tr(x))),
        }
    }
    if seen != x.seen {
        let k = seen.iter().zip(&x.seen).position(|(a, b)| a != b).unwrap_or(seen.len().min(x.seen.len()));
        return rep.fail(
            "value of a variable",
            format!("max_variable_size {max}\n{text}\nexpected [{k}] {:?}\nobserved [{k}] {:?}", x.seen.get(k), seen.get(k)),
        );
    }
    if seen.is_empty() {
        rep.trivial();
    } else {
        rep.cover_n("values observed", seen.len() as u64);
        rep.cover("programs");
        rep.cover_n("continue", x.continued);
        rep.ok(&text);
    }
}

/// A generated script with some of its constant strings given through variables runs the same.
fn substitution(rep: &mut Rep, r: &mut Rng) {
    let mut g = gen::Gen::new(r, gen::Opts { max_stmts: 5, hostile: false, dates: false, ..Default::default() });
    g.script();
    let (toks, caps) = (g.out.clone(), g.caps.clone());
    let idx: Vec<usize> = toks
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(t, Tok::S(s) if !s.contains("${")))
        .map(|(i, _)| i)
        .collect();
    if idx.is_empty() {
        return rep.trivial();
    }
    let flavour = r.below(5);
    let mut pre = String::new();
    let mut nest = String::new();
    let mut new = toks.clone();
    let mut done = 0;
    let c = run::compiler();
    let req = gen::require(&caps);
    let base = format!("{req}{}", gen::render(&toks));
    rep.current = base.clone();
    if let Err(e) = run::compile(&c, &base) {
        return rep.fail("a generated script is refused", format!("{e}\n{base}"));
    }
    for i in idx {
        if !r.chance(2, 3) || done > 15 {
            continue;
        }
        let Tok::S(s) = &toks[i] else { continue };
        done += 1;
        let n = format!("cst{done}");
        // a variable inside of a longer text is another path than one on its own
        let k = (0..=s.len()).filter(|k| s.is_char_boundary(*k)).collect::<Vec<_>>();
        let (a, b) = if r.chance(1, 4) && s.parse::<f64>().is_err() { s.split_at(*r.pick(&k)) } else { (s.as_str(), "") };
        if b.starts_with('{') || a.ends_with('$') {
            continue;
        }
        let (set, name) = match flavour {
            0 => (format!("set \"{n}\" {};\n", quote(a)), n.clone()),
            1 => (format!("global \"{n}\";\nset \"{n}\" {};\n", quote(a)), n.clone()),
            2 => (format!("set \"global.{n}\" {};\n", quote(a)), format!("global.{n}")),
            _ => {
                nest += &format!("set :local \"{n}\" {};\n", quote(a));
                (String::new(), n.clone())
            }
        };
        let mut try_new = new.clone();
        try_new[i] = Tok::S(format!("${{{name}}}{b}"));
        let try_pre = format!("{pre}{set}");
        let whole = format!("{req}{try_pre}if true {{\n{nest}}}\n{}", gen::render(&try_new));
        // some arguments have to be constants
        if c.compile(whole.as_bytes()).is_ok() {
            new = try_new;
            pre = try_pre;
        }
    }
    if new == toks {
        return rep.trivial();
    }
    let whole = format!("{req}{pre}if true {{\n{nest}}}\n{}", gen::render(&new));
    rep.current = whole.clone();
    let rt = run::runtime().with_cpu_limit(2_000).with_max_out_messages(50).with_max_redirects(50);
    let msg = if r.chance(1, 3) { gen::message(r) } else { run::MSG.to_vec() };
    let msg = if run::parses(&msg) { msg } else { run::MSG.to_vec() };
    let hash = |e: &Event| -> bool { crate::report::hash(&run::canon(&run::show_tr(&Tr::Ev(e.clone())))) % 3 != 0 };
    let go = |t: &str| {
        run::simple_with(t, &msg, &rt, |c| c.set_env_variable("domain", "d.org"), &mut |ev| match ev {
            Event::Function { arguments, .. } => sieve::Input::FncResult(((arguments[0].to_string().len() % 3) as i64).into()),
            Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => {
                if hash(ev) {
                    sieve::Input::True
                } else {
                    sieve::Input::False
                }
            }
            Event::IncludeScript { .. } => sieve::Input::False,
            _ => sieve::Input::True,
        })
    };
    let (a, b) = (go(&base), go(&whole));
    let show = |t: &Result<run::Trace, String>| match t {
        Ok(t) => {
            let mut v = run::canon_items(&t.items);
            v.extend(t.msgs.values().map(|m| run::canon_msg(m)));
            v
        }
        Err(e) => vec![e.split('\n').next().unwrap_or("").to_string()],
    };
    let (x, y) = (show(&a), show(&b));
    if x.iter().chain(&y).any(|l| l.contains("CPULimitReached")) {
        return rep.cover("beyond the CPU limit");
    }
    if x != y {
        let k = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
        return rep.fail(
            "a string given through a variable acts differently",
            format!("constants:\n{base}\nvariables:\n{whole}\nmessage {:?}\nconstants [{k}]: {:?}\nvariables [{k}]: {:?}", String::from_utf8_lossy(&msg), x.get(k), y.get(k)),
        );
    }
    rep.cover(["substituted: local", "substituted: declared global", "substituted: global namespace", "substituted: :local in a block", "substituted: :local in a block"][flavour]);
    rep.ok(&whole);
}

fn directed(_rep: &mut Rep) {}
