//! Included scripts: found by location and name, asked for once, run in their own frame with shared
//! global variables, bounded in depth, and returning to the point after the include.
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::{Event, Input, Script, Sieve};

pub const PROP: Prop = Prop { id: "P08", quick: 1_300_000, thorough: 8_000_000, directed, case };

#[derive(Clone, Debug)]
enum St {
    Mark(u32),
    SetA(String),
    SetG(String),
    SetGG(String),
    /// location tag (None, personal, global), once, optional, name, through a variable
    Include(u8, bool, bool, String, bool),
    If(bool, Vec<St>),
    Loop(u32, u32, Vec<St>),
    /// sets ${1} to ${n} inside
    Match(String, usize, Vec<St>),
    Return,
    Stop,
    Error,
}

struct G<'a> {
    r: &'a mut Rng,
    n: u32,
    decl: bool,
}

const NAMES: &[&str] = &["s0", "s1", "s2", "S1", "missing", "", "main"];

impl G<'_> {
    fn block(&mut self, d: usize) -> Vec<St> {
        (0..1 + self.r.below(5)).map(|_| self.st(d)).collect()
    }
    fn st(&mut self, d: usize) -> St {
        self.n += 1;
        let n = self.n;
        match self.r.below(if d > 2 { 12 } else { 16 }) {
            0..=2 => St::Mark(n),
            3 | 4 => St::SetA(format!("a{n}")),
            5 if self.decl => St::SetG(format!("g{n}")),
            5 | 6 => St::SetGG(format!("g{n}")),
            7..=10 => St::Include(self.r.below(3) as u8, self.r.chance(1, 3), self.r.chance(1, 3), self.r.pick(NAMES).to_string(), self.r.chance(1, 4)),
            11 => match self.r.below(8) {
                0 => St::Return,
                1 if self.r.chance(1, 3) => St::Stop,
                2 if self.r.chance(1, 3) => St::Error,
                _ => St::Mark(n),
            },
            12 | 13 => {
                let c = self.r.chance(3, 4);
                St::If(c, self.block(d + 1))
            }
            14 => {
                let k = 1 + self.r.below(3) as u32;
                St::Loop(n, k, self.block(d + 1))
            }
            _ => {
                // the match variable is used at once, so that the test captures it
                let k = if self.r.chance(1, 3) { 2 + self.r.below(9) } else { 1 };
                St::Match(format!("x{n}"), k, self.block(9))
            }
        }
    }
}

fn text(b: &[St], decl: bool, o: &mut String, m: usize) {
    for s in b {
        match s {
            St::Mark(n) => {
                *o += &format!("set \"o\" \"m{n}|${{a}}|${{global.g}}{}{}\";\neval \"t(o)\";\n", if decl { "|${g}" } else { "" }, match m {
                    0 => String::new(),
                    1 => "|${1}".into(),
                    k => format!("|${{1}}|${{{k}}}"),
                });
            }
            St::SetA(v) => *o += &format!("set \"a\" \"{v}\";\n"),
            St::SetG(v) => *o += &format!("set \"G\" \"{v}\";\n"),
            St::SetGG(v) => *o += &format!("set \"global.g\" \"{v}\";\n"),
            St::Include(l, once, opt, n, var) => {
                let mut tags = vec![];
                match l {
                    1 => tags.push(":personal"),
                    2 => tags.push(":global"),
                    _ => (),
                }
                if *once {
                    tags.push(":once");
                }
                if *opt {
                    tags.insert(0, ":optional");
                }
                if *var {
                    *o += &format!("set \"n\" \"{n}\";\n");
                }
                *o += &format!("include {} \"{}\";\n", tags.join(" "), if *var { "${n}" } else { n });
            }
            St::If(c, b) => {
                *o += &format!("if {c} {{\n");
                text(b, decl, o, m);
                *o += "}\n";
            }
            St::Loop(n, k, b) => {
                *o += &format!("let \"i{n}\" \"0\";\nwhile \"i{n} < {k}\" {{\nlet \"i{n}\" \"i{n} + 1\";\n");
                text(b, decl, o, m);
                *o += "}\n";
            }
            St::Match(v, k, b) => {
                let (mut s, mut p) = (String::new(), String::new());
                for i in 2..=*k {
                    s += &format!("/y{i}");
                    p += "/*";
                }
                *o += &format!("if string :matches \"pre-{v}{s}\" \"pre-*{p}\" {{\n");
                text(b, decl, o, *k);
                *o += "}\n";
            }
            St::Return => *o += "return;\n",
            St::Stop => *o += "stop;\n",
            St::Error => *o += "error \"e\";\n",
        }
    }
}

struct Frame {
    decl: bool,
    a: String,
    m: String,
}

enum Flow {
    Next,
    Return,
    End,
}

struct Ref<'a> {
    /// (personal name, global name) -> script
    store: &'a [(Script, usize)],
    scripts: &'a [(Vec<St>, bool)],
    cache: Vec<(Script, usize)>,
    g: String,
    depth: usize,
    max: usize,
    exp: Vec<String>,
    fr: Frame,
    stats: [u64; 6],
}

impl Ref<'_> {
    fn run(&mut self, b: &[St]) -> Flow {
        for s in b {
            if self.exp.len() > 300 {
                return Flow::End;
            }
            let f = self.st(s);
            if !matches!(f, Flow::Next) {
                return f;
            }
        }
        Flow::Next
    }
    fn st(&mut self, s: &St) -> Flow {
        match s {
            St::Mark(n) => {
                let mut o = format!("m{n}|{}|{}", self.fr.a, self.g);
                if self.fr.decl {
                    o += &format!("|{}", self.g);
                }
                if !self.fr.m.is_empty() {
                    o += &format!("|{}", self.fr.m);
                }
                self.exp.push(o);
            }
            St::SetA(v) => self.fr.a = v.clone(),
            St::SetG(v) | St::SetGG(v) => self.g = v.clone(),
            St::If(c, b) => {
                if *c {
                    return self.run(b);
                }
            }
            St::Loop(_, k, b) => {
                for _ in 0..*k {
                    let f = self.run(b);
                    if !matches!(f, Flow::Next) {
                        return f;
                    }
                }
            }
            St::Match(v, k, b) => {
                let v = if *k > 1 { format!("{v}|y{k}") } else { v.clone() };
                let was = std::mem::replace(&mut self.fr.m, v);
                let f = self.run(b);
                self.fr.m = was;
                return f;
            }
            St::Return => return Flow::Return,
            St::Stop => return Flow::End,
            St::Error => {
                self.exp.push("error ScriptErrorMessage(e)".into());
                return Flow::End;
            }
            St::Include(l, once, opt, n, _) => {
                if n.is_empty() {
                    return Flow::Next;
                }
                let name = if *l == 2 { Script::Global(n.clone()) } else { Script::Personal(n.clone()) };
                let cached = self.cache.iter().find(|c| c.0 == name).map(|c| c.1);
                if *once && cached.is_some() {
                    self.stats[0] += 1;
                    return Flow::Next;
                }
                if self.depth >= self.max {
                    self.stats[1] += 1;
                    self.exp.push("error TooManyIncludes".into());
                    return Flow::End;
                }
                let k = match cached {
                    Some(k) => {
                        self.stats[2] += 1;
                        k
                    }
                    None => {
                        self.exp.push(format!("include {name:?} optional {opt}"));
                        match self.store.iter().find(|s| s.0 == name) {
                            Some((_, k)) => {
                                self.cache.push((name, *k));
                                *k
                            }
                            None => {
                                self.stats[3] += 1;
                                return Flow::Next;
                            }
                        }
                    }
                };
                self.stats[4] += 1;
                let scripts = self.scripts;
                let was = std::mem::replace(&mut self.fr, Frame { decl: scripts[k].1, a: String::new(), m: String::new() });
                self.depth += 1;
                let f = self.run(&scripts[k].0);
                self.depth -= 1;
                self.fr = was;
                if matches!(f, Flow::Return) {
                    self.stats[5] += 1;
                }
                if matches!(f, Flow::End) {
                    return Flow::End;
                }
            }
        }
        Flow::Next
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let n = 4;
    let scripts: Vec<(Vec<St>, bool)> = (0..n)
        .map(|_| {
            let decl = r.chance(1, 2);
            let mut g = G { r, n: 0, decl };
            let b = g.block(0);
            (b, decl)
        })
        .collect();
    let texts: Vec<String> = scripts
        .iter()
        .map(|(b, decl)| {
            let mut o = String::new();
            if *decl {
                o += "global [\"x\", \"g\"];\n";
            }
            o = format!("require \"ihave\";\n{o}");
            // a fresh frame reads as empty
            o += "set \"a\" \"${a}\";\n";
            text(b, *decl, &mut o, 0);
            o
        })
        .collect();
    // what the host has: name and location of each script but the first, which is the main one
    let mut store = vec![];
    for name in ["s0", "s1", "s2", "S1", "main"] {
        for g in [false, true] {
            if r.chance(2, 3) {
                store.push((if g { Script::Global(name.into()) } else { Script::Personal(name.into()) }, r.below(n)));
            }
        }
    }
    let max = r.below(6);
    let initial = r.pick(&["", "host"]).to_string();
    let mut m = Ref {
        store: &store,
        scripts: &scripts,
        cache: vec![(Script::Personal("main".into()), 0)],
        g: initial.clone(),
        depth: 1,
        max,
        exp: vec![],
        fr: Frame { decl: scripts[0].1, a: String::new(), m: String::new() },
        stats: [0; 6],
    };
    m.run(&scripts[0].0);
    if m.exp.len() > 300 {
        return rep.cover("too long");
    }
    m.exp.push("keep".into());
    let show = || {
        let mut o = format!("max_nested_includes {max} global g {initial:?} store {store:?}\n");
        for (i, t) in texts.iter().enumerate() {
            o += &format!("-- {i}:\n{t}");
        }
        o
    };
    rep.current = show();
    let c = run::compiler().with_max_includes(1000);
    let mut compiled: Vec<Sieve> = vec![];
    for t in &texts {
        match run::compile(&c, t) {
            Ok(s) => compiled.push(s),
            Err(e) => return rep.fail("a valid script is rejected", format!("{e}\n{t}")),
        }
    }
    let rt = run::runtime().with_max_nested_includes(max).with_cpu_limit(50_000);
    let mut ctx = rt.filter(run::MSG);
    if !initial.is_empty() {
        ctx.set_global_variable("g", initial.clone());
    }
    let tr = run::drive(&mut ctx, compiled[0].clone(), 5_000, &mut |ev| match ev {
        Event::IncludeScript { name, .. } => match store.iter().find(|s| s.0 == *name) {
            Some((_, k)) => Input::Script { name: name.clone(), script: compiled[*k].clone().into() },
            None => Input::False,
        },
        ev => run::default_answer(ev),
    });
    if let Some(b) = tr.broken() {
        return rep.fail("the run is broken", format!("{b}\n{}", show()));
    }
    let got: Vec<String> = tr
        .items
        .iter()
        .map(|i| match i {
            Tr::Ev(Event::Function { arguments, .. }) => arguments[0].to_string().into_owned(),
            Tr::Ev(Event::IncludeScript { name, optional }) => format!("include {name:?} optional {optional}"),
            Tr::Ev(Event::Keep { .. }) => "keep".into(),
            Tr::Err(e) => format!("error {e}"),
            t => run::show_tr(t),
        })
        .collect();
    if got != m.exp {
        return rep.fail("includes do not run as written", format!("{}\n-- expected\n{}\n-- observed\n{}", show(), m.exp.join("\n"), got.join("\n")));
    }
    for (k, v) in [":once skipped", "too deep", "from the cache", "missing scripts", "included", "returns"].iter().zip(m.stats) {
        rep.cover_n(k, v);
    }
    rep.sample(|| format!("{} => {}", texts[0], got.join(", ")));
    if got.len() > 1 {
        rep.ok(&(&texts, max, format!("{store:?}")));
    } else {
        rep.trivial();
    }
}

fn directed(_: &mut Rep) {}
