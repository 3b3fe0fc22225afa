//! Control flow: which commands run, how often and in which order, is what the script's structure,
//! its tests and the host's answers say. Random programs run against a reference interpreter.
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::{Event, Input, Mailbox, Sieve};

pub const PROP: Prop = Prop { id: "P06", quick: 530_000, thorough: 8_000_000, directed, case };

#[derive(Clone, Debug)]
enum Tst {
    True,
    False,
    Not(Box<Tst>),
    Any(Vec<Tst>),
    All(Vec<Tst>),
    /// mailboxexists "b<n>"
    Ask(u32),
    /// eval "q(n)"
    Fun(u32),
    /// string :is "${i<n>}" "<k>"
    Var(u32, i64),
    /// eval "i<n> > k"
    Gt(u32, i64),
    /// eval "header.x-p == 'k'": the current part
    Part(u32),
}

#[derive(Clone, Debug)]
enum St {
    Mark(u32),
    MarkPart(u32),
    If(Vec<(Tst, Vec<St>)>, Option<Vec<St>>),
    /// variable, bound, use a test of the host in the condition, body
    While(u32, i64, Option<u32>, Vec<St>),
    Every(Option<String>, Vec<St>),
    Break(Option<String>),
    Continue,
    Stop,
    Return,
    Include(usize),
}

struct G<'a> {
    r: &'a mut Rng,
    mark: u32,
    ctr: u32,
    budget: usize,
    /// loops around the current statement: (is foreverypart, label)
    loops: Vec<(bool, Option<String>)>,
    /// counters in scope
    vars: Vec<u32>,
    parts: usize,
    level: usize,
    label: u32,
}

impl G<'_> {
    fn tst(&mut self, d: usize) -> Tst {
        let n = if d > 2 { 10 } else { 14 };
        match self.r.below(n) {
            0 => Tst::True,
            1 => Tst::False,
            2..=4 => Tst::Ask(self.r.below(4) as u32),
            5 | 6 => Tst::Fun(self.r.below(4) as u32),
            7 if !self.vars.is_empty() => Tst::Var(*self.r.pick(&self.vars), self.r.range(0, 3)),
            8 if !self.vars.is_empty() => Tst::Gt(*self.r.pick(&self.vars), self.r.range(0, 3)),
            9 => Tst::Part(self.r.below(5) as u32),
            7 | 8 => Tst::Ask(9),
            10 | 11 => Tst::Not(Box::new(self.tst(d + 1))),
            12 => {
                let n = 1 + self.r.below(3);
                Tst::Any((0..n).map(|_| self.tst(d + 1)).collect())
            }
            _ => {
                let n = 1 + self.r.below(3);
                Tst::All((0..n).map(|_| self.tst(d + 1)).collect())
            }
        }
    }
    fn block(&mut self, d: usize, n: usize) -> Vec<St> {
        let nv = self.vars.len();
        let k = 1 + self.r.below(n);
        let v = (0..k).map(|_| self.st(d)).collect();
        self.vars.truncate(nv);
        v
    }
    fn st(&mut self, d: usize) -> St {
        if self.budget == 0 {
            return St::Mark(0);
        }
        self.budget -= 1;
        let n = if d > 4 { 5 } else { 20 };
        match self.r.below(n) {
            0..=2 => {
                self.mark += 1;
                St::Mark(self.mark)
            }
            3 => {
                self.mark += 1;
                St::MarkPart(self.mark)
            }
            4 => {
                // leave a loop or the script
                match self.r.below(8) {
                    0 if self.r.chance(1, 3) => St::Stop,
                    1 if self.r.chance(1, 2) => St::Return,
                    // `continue` belongs to the innermost `while`
                    2..=4 if self.loops.iter().any(|l| !l.0) => St::Continue,
                    _ if !self.loops.is_empty() => {
                        let labels: Vec<_> = self.loops.iter().filter(|l| l.0).filter_map(|l| l.1.clone()).collect();
                        if !labels.is_empty() && self.r.chance(1, 2) {
                            St::Break(Some(self.r.pick(&labels).clone()))
                        } else {
                            St::Break(None)
                        }
                    }
                    _ => {
                        self.mark += 1;
                        St::Mark(self.mark)
                    }
                }
            }
            5..=11 => {
                let mut v = vec![];
                for _ in 0..1 + self.r.below(3) {
                    let t = self.tst(0);
                    v.push((t, self.block(d + 1, 3)));
                }
                let e = if self.r.chance(1, 2) { Some(self.block(d + 1, 3)) } else { None };
                St::If(v, e)
            }
            12..=14 => {
                self.ctr += 1;
                let c = self.ctr;
                self.vars.push(c);
                self.loops.push((false, None));
                let q = if self.r.chance(1, 4) { Some(self.r.below(4) as u32) } else { None };
                let b = self.block(d + 1, 4);
                self.loops.pop();
                let n = self.r.range(0, 3);
                St::While(c, n, q, b)
            }
            15..=17 if self.parts < 3 => {
                let label = if self.r.chance(1, 2) {
                    self.label += 1;
                    Some(format!("l{}", self.label))
                } else {
                    None
                };
                self.loops.push((true, label.clone()));
                self.parts += 1;
                let b = self.block(d + 1, 4);
                self.parts -= 1;
                self.loops.pop();
                St::Every(label, b)
            }
            18 if self.level < 2 => St::Include(self.level + 1),
            _ => {
                self.mark += 1;
                St::Mark(self.mark)
            }
        }
    }
}

fn rt(t: &Tst) -> String {
    match t {
        Tst::True => "true".into(),
        Tst::False => "false".into(),
        Tst::Not(t) => format!("not {}", rt(t)),
        Tst::Any(v) => format!("anyof ({})", v.iter().map(rt).collect::<Vec<_>>().join(", ")),
        Tst::All(v) => format!("allof ({})", v.iter().map(rt).collect::<Vec<_>>().join(", ")),
        Tst::Ask(n) => format!("mailboxexists \"b{n}\""),
        Tst::Fun(n) => format!("eval \"q({n})\""),
        Tst::Var(n, k) => format!("string :is \"${{i{n}}}\" \"{k}\""),
        Tst::Gt(n, k) => format!("eval \"i{n} > {k}\""),
        Tst::Part(k) => format!("eval \"header.x-p == 'p{k}'\""),
    }
}

fn rb(b: &[St], o: &mut String) {
    for s in b {
        match s {
            St::Mark(n) => *o += &format!("eval \"t('m{n}')\";\n"),
            St::MarkPart(n) => *o += &format!("eval \"t2('m{n}', header.x-p)\";\n"),
            St::If(v, e) => {
                for (i, (t, b)) in v.iter().enumerate() {
                    *o += &format!("{} {} {{\n", if i == 0 { "if" } else { "elsif" }, rt(t));
                    rb(b, o);
                    *o += "}\n";
                }
                if let Some(b) = e {
                    *o += "else {\n";
                    rb(b, o);
                    *o += "}\n";
                }
            }
            St::While(c, n, q, b) => {
                let cond = match q {
                    Some(q) => format!("i{c} < {n} && q({q})"),
                    None => format!("i{c} < {n}"),
                };
                *o += &format!("let \"i{c}\" \"0\";\nwhile \"{cond}\" {{\nlet \"i{c}\" \"i{c} + 1\";\n");
                rb(b, o);
                *o += "}\n";
            }
            St::Every(l, b) => {
                *o += "foreverypart ";
                if let Some(l) = l {
                    *o += &format!(":name \"{l}\" ");
                }
                *o += "{\n";
                rb(b, o);
                *o += "}\n";
            }
            St::Break(None) => *o += "break;\n",
            St::Break(Some(l)) => *o += &format!("break :name \"{l}\";\n"),
            St::Continue => *o += "continue;\n",
            St::Stop => *o += "stop;\n",
            St::Return => *o += "return;\n",
            St::Include(n) => *o += &format!("include \"s{n}\";\n"),
        }
    }
}

/// The parts of the message: the children of each part.
struct Tree(Vec<Vec<usize>>);

impl Tree {
    fn below(&self, p: usize, o: &mut Vec<usize>) {
        for c in &self.0[p] {
            o.push(*c);
            self.below(*c, o);
        }
    }
}

enum Flow {
    Next,
    Break(Option<String>),
    Continue,
    Stop,
    Return,
    /// the reference gives up: too many events
    Limit,
}

struct Ref<'a> {
    scripts: &'a [Vec<St>],
    tree: &'a Tree,
    answers: &'a [bool],
    asked: usize,
    exp: Vec<Tr>,
    part: usize,
    depth: usize,
    vars: Vec<(u32, i64)>,
    cached: [bool; 3],
    stats: [u64; 6],
}

impl Ref<'_> {
    fn answer(&mut self) -> bool {
        self.asked += 1;
        self.answers[(self.asked - 1) % self.answers.len()]
    }
    fn val(&self, n: u32) -> i64 {
        self.vars.iter().rev().find(|v| v.0 == n).unwrap().1
    }
    fn call(&mut self, id: u32, a: Vec<sieve::runtime::Variable>) {
        self.exp.push(Tr::Ev(Event::Function { id, arguments: a }));
    }
    fn q(&mut self, n: u32) -> bool {
        self.call(run::Q, vec![(n as i64).into()]);
        self.answer()
    }
    fn test(&mut self, t: &Tst) -> bool {
        match t {
            Tst::True => true,
            Tst::False => false,
            Tst::Not(t) => !self.test(t),
            Tst::Any(v) => {
                for t in v {
                    if self.test(t) {
                        return true;
                    }
                }
                false
            }
            Tst::All(v) => {
                for t in v {
                    if !self.test(t) {
                        return false;
                    }
                }
                true
            }
            Tst::Ask(n) => {
                self.exp.push(Tr::Ev(Event::MailboxExists { mailboxes: vec![Mailbox::Name(format!("b{n}"))], special_use: vec![] }));
                self.answer()
            }
            Tst::Fun(n) => self.q(*n),
            Tst::Var(n, k) => self.val(*n) == *k,
            Tst::Gt(n, k) => self.val(*n) > *k,
            Tst::Part(k) => self.part == *k as usize,
        }
    }
    fn run(&mut self, b: &[St]) -> Flow {
        for s in b {
            let f = self.st(s);
            if !matches!(f, Flow::Next) {
                return f;
            }
            if self.exp.len() > 600 {
                return Flow::Limit;
            }
        }
        Flow::Next
    }
    fn st(&mut self, s: &St) -> Flow {
        match s {
            St::Mark(n) => self.call(run::T, vec![format!("m{n}").into()]),
            St::MarkPart(n) => {
                let p = format!("p{}", self.part);
                self.call(run::T2, vec![format!("m{n}").into(), p.into()]);
            }
            St::If(v, e) => {
                for (t, b) in v {
                    if self.test(t) {
                        return self.run(b);
                    }
                }
                if let Some(b) = e {
                    return self.run(b);
                }
            }
            St::While(c, n, q, b) => {
                self.vars.push((*c, 0));
                let at = self.vars.len() - 1;
                let mut out = Flow::Next;
                loop {
                    let i = self.vars[at].1;
                    if i >= *n {
                        break;
                    }
                    if let Some(q) = q {
                        if !self.q(*q) {
                            break;
                        }
                    }
                    self.vars[at].1 += 1;
                    self.stats[0] += 1;
                    match self.run(b) {
                        Flow::Next | Flow::Continue => (),
                        Flow::Break(None) => {
                            self.stats[1] += 1;
                            break;
                        }
                        f => {
                            out = f;
                            break;
                        }
                    }
                }
                return out;
            }
            St::Every(l, b) => {
                let ids = if self.depth == 0 {
                    (0..self.tree.0.len()).collect()
                } else {
                    let mut o = vec![];
                    self.tree.below(self.part, &mut o);
                    o
                };
                let was = self.part;
                self.depth += 1;
                let mut out = Flow::Next;
                for p in ids {
                    self.part = p;
                    self.stats[2] += 1;
                    match self.run(b) {
                        Flow::Next => (),
                        Flow::Break(None) => {
                            self.stats[3] += 1;
                            break;
                        }
                        Flow::Break(Some(n)) if Some(&n) == l.as_ref() => {
                            self.stats[4] += 1;
                            break;
                        }
                        f => {
                            out = f;
                            break;
                        }
                    }
                }
                self.part = was;
                self.depth -= 1;
                return out;
            }
            St::Break(l) => return Flow::Break(l.clone()),
            St::Continue => return Flow::Continue,
            St::Stop => return Flow::Stop,
            St::Return => return Flow::Return,
            St::Include(n) => {
                if !self.cached[*n] {
                    self.cached[*n] = true;
                    self.exp.push(Tr::Ev(Event::IncludeScript { name: format!("s{n}").into(), optional: false }));
                }
                self.stats[5] += 1;
                let scripts = self.scripts;
                let vars = std::mem::take(&mut self.vars);
                let flow = self.run(&scripts[*n]);
                self.vars = vars;
                return match flow {
                    Flow::Stop => Flow::Stop,
                    Flow::Limit => Flow::Limit,
                    _ => Flow::Next,
                };
            }
        }
        Flow::Next
    }
}

fn message(r: &mut Rng) -> (Vec<u8>, Tree) {
    // part numbers in the order of the message
    fn part(r: &mut Rng, d: usize, t: &mut Tree, o: &mut String) -> usize {
        let me = t.0.len();
        t.0.push(vec![]);
        *o += &format!("X-P: p{me}\r\n");
        if d < 3 && (r.chance(2, 3) || d == 0) && t.0.len() < 6 {
            *o += &format!("Content-Type: multipart/mixed; boundary=\"b{me}\"\r\n\r\n");
            for _ in 0..1 + r.below(3) {
                *o += &format!("--b{me}\r\n");
                let c = part(r, d + 1, t, o);
                t.0[me].push(c);
                *o += "\r\n";
            }
            *o += &format!("--b{me}--\r\n");
        } else {
            *o += "Content-Type: text/plain\r\n\r\nbody";
        }
        me
    }
    let mut t = Tree(vec![]);
    let mut o = String::from("From: a@b.org\r\n");
    if r.chance(1, 6) {
        t.0.push(vec![]);
        o += "X-P: p0\r\n\r\nplain\r\n";
    } else {
        part(r, 0, &mut t, &mut o);
    }
    (o.into_bytes(), t)
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut scripts = vec![];
    for level in 0..3 {
        let budget = if level == 0 { 40 } else { 12 };
        let mut g = G { r, mark: 100 * level as u32, ctr: 0, budget, loops: vec![], vars: vec![], parts: 0, level, label: 0 };
        scripts.push(g.block(0, if level == 0 { 6 } else { 3 }));
    }
    let (msg, tree) = message(r);
    let answers: Vec<bool> = (0..1 + r.below(9)).map(|_| r.chance(1, 2)).collect();
    check(rep, &scripts, &msg, &tree, &answers)
}

fn check(rep: &mut Rep, scripts: &[Vec<St>], msg: &[u8], tree: &Tree, answers: &[bool]) {
    let texts: Vec<String> = scripts
        .iter()
        .map(|s| {
            let mut o = String::new();
            rb(s, &mut o);
            o
        })
        .collect();
    let show = || format!("main:\n{}\ns1:\n{}\ns2:\n{}\nanswers {answers:?}\nparts {:?}", texts[0], texts[1], texts[2], tree.0);
    rep.current = show();
    let mut m = Ref { scripts, tree, answers, asked: 0, exp: vec![], part: 0, depth: 0, vars: vec![], cached: [false; 3], stats: [0; 6] };
    if matches!(m.run(&scripts[0]), Flow::Limit) {
        return rep.cover("too long");
    }
    m.exp.push(Tr::Ev(Event::Keep { flags: vec![], message_id: 0 }));
    let exp = m.exp;
    for (n, k) in m.stats.iter().zip(["while iterations", "while breaks", "part iterations", "part breaks", "labelled breaks", "includes"]) {
        rep.cover_n(k, *n);
    }
    let c = run::compiler().with_max_nested_foreverypart(10).with_max_includes(100);
    let mut compiled: Vec<Sieve> = vec![];
    for t in &texts {
        match run::compile(&c, t) {
            Ok(s) => compiled.push(s),
            Err(e) => return rep.fail("a valid program is rejected", format!("{e}\n{t}")),
        }
    }
    let rt = run::runtime();
    let mut ctx = rt.filter(msg);
    run::std_context(&mut ctx);
    let mut asked = 0;
    let mut next = || {
        asked += 1;
        answers[(asked - 1) % answers.len()]
    };
    let tr = run::drive(&mut ctx, compiled[0].clone(), 5_000, &mut |ev| match ev {
        Event::MailboxExists { .. } => {
            if next() {
                Input::True
            } else {
                Input::False
            }
        }
        Event::Function { id, .. } if *id == run::Q => Input::FncResult((next() as i64).into()),
        Event::IncludeScript { name, .. } => {
            let i: usize = name.as_str()[1..].parse().unwrap();
            Input::Script { name: name.clone(), script: compiled[i].clone().into() }
        }
        ev => run::default_answer(ev),
    });
    if let Some(b) = tr.broken() {
        return rep.fail("the run is broken", format!("{b}\n{}\n{}", show(), tr.show()));
    }
    if tr.items != exp {
        let at = tr.items.iter().zip(&exp).take_while(|(a, b)| a == b).count();
        let e: Vec<String> = exp.iter().map(run::show_tr).collect();
        return rep.fail(
            "the commands that ran are not the ones the script says",
            format!("{}\n-- first difference at event {at}\n-- expected:\n{}\n-- observed:\n{}", show(), e.join("\n"), tr.show()),
        );
    }
    rep.cover_n("events compared", exp.len() as u64);
    rep.sample(|| format!("{} => {} events", texts[0], exp.len()));
    if exp.len() > 1 {
        rep.ok(&(texts, answers.to_vec()));
    } else {
        rep.trivial();
    }
}

/// Every tree of tests up to a small size, with all answers.
fn directed(rep: &mut Rep) {
    let leaf = [Tst::True, Tst::False, Tst::Ask(1)];
    let mut one: Vec<Tst> = leaf.to_vec();
    for a in &leaf {
        one.push(Tst::Not(Box::new(a.clone())));
        for b in &leaf {
            one.push(Tst::Any(vec![a.clone(), b.clone()]));
            one.push(Tst::All(vec![a.clone(), b.clone()]));
        }
    }
    let mut all = one.clone();
    for a in &one {
        all.push(Tst::Not(Box::new(a.clone())));
        all.push(Tst::Not(Box::new(Tst::Not(Box::new(a.clone())))));
        for b in &one {
            for n in [false, true] {
                let b = if n { Tst::Not(Box::new(b.clone())) } else { b.clone() };
                all.push(Tst::Any(vec![a.clone(), b.clone()]));
                all.push(Tst::All(vec![a.clone(), b]));
            }
        }
    }
    let tree = Tree(vec![vec![]]);
    for t in all {
        let s = vec![
            vec![St::If(vec![(t.clone(), vec![St::Mark(1)]), (Tst::Ask(2), vec![St::Mark(2)])], Some(vec![St::Mark(3)])), St::Mark(4)],
            vec![],
            vec![],
        ];
        for a in [[false, false], [false, true], [true, false], [true, true]] {
            check(rep, &s, b"X-P: p0\r\n\r\nx", &tree, &a);
        }
    }
}
