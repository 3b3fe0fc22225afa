//! Match variables: what `:matches` and `:regex` capture, when it becomes visible and when it goes.
use super::p12::{key_for, regex_for};
use crate::gen::quote;
use crate::matching::{self, Cmp, Mt, Quirk};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::Event;

pub const PROP: Prop = Prop { id: "P13", quick: 200_000, thorough: 8_000_000, directed, case };

const WORDS: &[&str] = &["a", "A", "b", "ab", "É", "é", "ß", "x", "-", "-", ".", "Σ", "İ", "日", "😀", " ", "ab-cd"];
const PLAIN: &[&str] = &["a", "A", "b", "ab", "x", "-", "-", ".", "aa", "B", "Cd"];
const LETTERS: &[char] = &['a', 'b', 'x', '-', 'A'];

/// A piece of text: a constant, a match variable with the tests it can refer to, or the loop counter.
#[derive(Clone, Debug)]
enum Pc {
    Text(String),
    Var(usize, Vec<usize>),
    Count,
}
#[derive(Clone, Debug)]
enum Cond {
    Match { id: usize, mt: Mt, cmp: Cmp, values: Vec<Vec<Pc>>, keys: Vec<Vec<Pc>>, by_key: bool, not: bool },
    Const(bool),
    Any(Vec<Cond>, bool),
    All(Vec<Cond>, bool),
}
/// Statements and the match tests directly in them, which is where match variables live.
#[derive(Clone, Debug, Default)]
struct Block {
    stmts: Vec<St>,
    tests: Vec<usize>,
}
#[derive(Clone, Debug)]
enum St {
    /// branches; the last one may be an `else`
    If(Vec<(Option<Cond>, Block)>),
    Show(usize, Vec<Pc>),
    Loop(usize, Block),
    /// on with the loop, which ends the blocks between
    Continue,
}

struct G<'a> {
    r: &'a mut Rng,
    out: String,
    msg: String,
    env: Vec<(String, String)>,
    /// match variables in use, by test
    mask: Vec<u64>,
    /// tests of the open blocks
    open: Vec<Vec<usize>>,
    shows: usize,
    /// use wide patterns, and look at what they capture
    wide: bool,
    in_loop: bool,
    left: usize,
}
const MAX: usize = 63;

impl G<'_> {
    /// The tests a reference at this point belongs to: those of the nearest block that has any.
    fn used(&mut self, n: usize) -> Option<Pc> {
        let b = self.open.iter().rev().find(|b| !b.is_empty())?;
        for t in b {
            self.mask[*t] |= 1 << n;
        }
        Some(Pc::Var(n, b.clone()))
    }
    fn refs_allowed(&self) -> bool {
        self.open.iter().any(|b| !b.is_empty())
    }
    fn index(&mut self) -> usize {
        match self.r.below(10) {
            0 => 0,
            // variables far from the first are set by the tests with as many wildcards
            9 => MAX - 1 - self.r.below(54),
            1..=5 if self.wide => 25 + self.r.below(38),
            _ => 1 + self.r.below(5),
        }
    }
    fn pieces(&mut self, s: &str) -> (String, Vec<Pc>) {
        let mut p = vec![Pc::Text(s.into())];
        let mut t = quote(s);
        t.pop();
        if self.refs_allowed() && self.r.chance(1, 5) {
            let n = self.index();
            t += &format!("${{{n}}}");
            p.extend(self.used(n));
        } else if self.in_loop && self.r.chance(1, 3) {
            t += "${global.i}";
            p.push(Pc::Count);
        }
        t.push('"');
        (t, p)
    }
    fn list(&mut self, v: Vec<String>) -> String {
        if v.len() == 1 {
            v[0].clone()
        } else {
            format!("[{}]", v.join(", "))
        }
    }
    fn cond(&mut self, depth: usize) -> Cond {
        match self.r.below(if depth == 0 { 4 } else { 8 }) {
            0 => {
                let b = self.r.chance(1, 2);
                self.out += if b { "true" } else { "false" };
                Cond::Const(b)
            }
            4..=7 => {
                let all = self.r.chance(1, 2);
                let not = self.r.chance(1, 6);
                if not {
                    self.out += "not ";
                }
                self.out += if all { "allof (" } else { "anyof (" };
                let mut v = vec![];
                for i in 0..1 + self.r.below(3) {
                    if i > 0 {
                        self.out += ", ";
                    }
                    v.push(self.cond(depth - 1));
                }
                self.out += ")";
                if all {
                    Cond::All(v, not)
                } else {
                    Cond::Any(v, not)
                }
            }
            _ => self.test(),
        }
    }
    /// A test that matches in one run of the loop only.
    fn run_test(&mut self) -> Cond {
        let k = 1 + self.r.below(3);
        let w = self.r.pick(PLAIN).to_string();
        let (id, cmp) = (self.mask.len(), Cmp::Case);
        self.out += &format!("string :matches :comparator \"{}\" \"${{global.i}}{w}\" \"{k}*\"", cmp.tag());
        self.mask.push(0);
        self.open.last_mut().unwrap().push(id);
        Cond::Match { id, mt: Mt::Matches, cmp, values: vec![vec![Pc::Count, Pc::Text(w)]], keys: vec![vec![Pc::Text(format!("{k}*"))]], by_key: true, not: false }
    }
    fn test(&mut self) -> Cond {
        if self.in_loop && self.r.chance(1, 4) {
            return self.run_test();
        }
        let cmp = *self.r.pick(&[Cmp::Case, Cmp::Case, Cmp::Octet, Cmp::Other]);
        let kind = self.r.below(5);
        let words = if kind >= 3 { PLAIN } else { WORDS };
        let v: Vec<String> = (0..if kind == 4 { 1 } else { 1 + self.r.below(2) }).map(|_| self.r.string(words, 6)).collect();
        let nk = 1 + self.r.below(2);
        let (mut keys, mut mt): (Vec<String>, Mt);
        if self.r.chance(1, 3) {
            let res: Vec<_> = (0..nk).map(|_| regex_for(self.r, LETTERS)).collect();
            keys = res.iter().map(|x| x.0.text()).collect();
            mt = Mt::Regex(res);
        } else {
            mt = Mt::Matches;
            keys = (0..nk)
                .map(|_| {
                    let w = self.r.pick(&v).clone();
                    key_for(self.r, &w, &Mt::Matches, words)
                })
                .collect();
            if self.r.chance(1, 2) {
                let k = self.r.below(nk);
                keys[k] = self.r.pick(&["*", "*-*", "?*", "*?*", "*-*-*", "**", "*a*", "??*"]).to_string();
            }
        }
        let mut v = v;
        if self.wide && self.r.chance(2, 3) {
            let k = 27 + self.r.below(40);
            v = vec![self.r.string(words, 3 * k)];
            mt = Mt::Matches;
            // no run of asterisks may reach the 64th wildcard (finding glob-shift of P02)
            keys = (0..nk)
                .map(|_| {
                    let n = v[0].chars().count().min(k);
                    let mut t = String::new();
                    for i in 0..n {
                        t += if i + 4 < k && i < 56 && self.r.chance(1, 12) { "*" } else { "?" };
                    }
                    t + *self.r.pick(&["*", "*?", "", "*-*"])
                })
                .collect();
        }
        if self.r.chance(1, 12) {
            mt = Mt::Contains;
            keys = v.clone();
        }
        let not = self.r.chance(1, 8);
        if not {
            self.out += "not ";
        }
        let id = self.mask.len();
        let tag = format!("{} :comparator \"{}\"", mt.tag(), cmp.tag());
        let (mut vt, mut vp, mut kt, mut kp) = (vec![], vec![], vec![], vec![]);
        let name = match kind {
            0..=2 => {
                for s in &v {
                    let (t, p) = self.pieces(s);
                    vt.push(t);
                    vp.push(p);
                }
                let l = self.list(vt);
                format!("string {tag} {l}")
            }
            3 => {
                for s in &v {
                    self.msg += &format!("X-{id}: {}\r\n", s);
                    vp.push(vec![Pc::Text(s.clone())]);
                }
                format!("header {tag} \"X-{id}\"")
            }
            _ => {
                self.env.push((format!("e{id}"), v[0].clone()));
                if !v[0].is_empty() {
                    vp.push(vec![Pc::Text(v[0].clone())]);
                }
                format!("environment {tag} \"e{id}\"")
            }
        };
        for k in &keys {
            if let Mt::Regex(_) = mt {
                kt.push(quote(k));
                kp.push(vec![Pc::Text(k.clone())]);
            } else {
                let (t, p) = self.pieces(k);
                kt.push(t);
                kp.push(p);
            }
        }
        let l = self.list(kt);
        self.out += &format!("{name} {l}");
        self.mask.push(0);
        if !matches!(mt, Mt::Contains) {
            self.open.last_mut().unwrap().push(id);
        }
        Cond::Match { id, mt, cmp, values: vp, keys: kp, by_key: kind != 3, not }
    }
    fn show(&mut self) -> St {
        let id = self.shows;
        self.shows += 1;
        let mut t = format!("{id}:");
        let mut v = vec![];
        for _ in 0..1 + self.r.below(4) {
            let n = self.index();
            v.extend(self.used(n));
            t += &format!("[${{{n}}}]");
        }
        match self.r.below(3) {
            0 => self.out += &format!("fileinto \"{t}\";\n"),
            1 => self.out += &format!("set \"v\" \"{t}\";\neval \"t(v)\";\n"),
            _ => self.out += &format!("set \"global.v\" \"{t}\";\nfileinto \"${{global.v}}\";\n"),
        }
        St::Show(id, v)
    }
    fn block(&mut self, depth: usize) -> Block {
        self.out += " {\n";
        self.open.push(vec![]);
        let stmts = self.stmts(depth, 3);
        let tests = self.open.pop().unwrap();
        self.out += "}\n";
        Block { stmts, tests }
    }
    fn stmts(&mut self, depth: usize, max: usize) -> Vec<St> {
        let mut v = vec![];
        for _ in 0..self.r.below(max + 1) {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            if self.in_loop && self.r.chance(1, 8) {
                self.out += "continue;\n";
                v.push(St::Continue);
                continue;
            }
            match self.r.below(8) {
                0..=3 if self.refs_allowed() => v.push(self.show()),
                4 | 5 if !self.in_loop && depth > 0 => {
                    let n = 2 + self.r.below(2);
                    self.out += &format!("let \"global.i\" \"0\";\nwhile \"global.i < {n}\"");
                    self.in_loop = true;
                    let at = self.out.len();
                    let b = self.block(depth - 1);
                    self.out.insert_str(at + 3, "let \"global.i\" \"global.i + 1\";\n");
                    self.in_loop = false;
                    v.push(St::Loop(n, b));
                }
                _ => {
                    let mut br = vec![];
                    for i in 0..1 + self.r.below(3) {
                        self.out += if i == 0 { "if " } else { "elsif " };
                        let c = self.cond(2);
                        let b = if depth > 0 {
                            self.block(depth - 1)
                        } else {
                            self.out += " { }\n";
                            Block::default()
                        };
                        br.push((Some(c), b));
                    }
                    if depth > 0 && self.r.chance(1, 4) {
                        self.out += "else";
                        br.push((None, self.block(depth - 1)));
                    }
                    v.push(St::If(br));
                }
            }
        }
        v
    }
}

struct X<'a> {
    mask: &'a [u64],
    vars: Vec<String>,
    quirk: Option<Quirk>,
    seen: Vec<String>,
    count: usize,
    matched: u64,
    shown: u64,
    /// the test that matched last
    last: Option<usize>,
    /// since then, a block with match variables of its own has ended
    cleared: bool,
    ambiguous: bool,
    continued: u64,
    after: u64,
    far: u64,
}
impl X<'_> {
    fn text(&mut self, p: &[Pc]) -> String {
        let mut o = String::new();
        for x in p {
            match x {
                Pc::Text(t) => o += t,
                Pc::Count => o += &self.count.to_string(),
                Pc::Var(n, tests) => {
                    self.after += self.last.is_none() as u64;
                    if let Some(l) = self.last {
                        self.ambiguous |= self.cleared || !tests.contains(&l);
                        self.shown += 1;
                    }
                    self.far += (*n >= 32 && !self.vars[*n].is_empty()) as u64;
                    o += &self.vars[*n];
                }
            }
        }
        o
    }
    fn cond(&mut self, c: &Cond) -> bool {
        match c {
            Cond::Const(b) => *b,
            Cond::Any(v, not) => v.iter().any(|x| self.cond(x)) != *not,
            Cond::All(v, not) => v.iter().all(|x| self.cond(x)) != *not,
            Cond::Match { id, mt, cmp, values, keys, by_key, not } => {
                let v: Vec<String> = values.iter().map(|x| self.text(x)).collect();
                let k: Vec<String> = keys.iter().map(|x| self.text(x)).collect();
                let mask = self.mask[*id];
                let mut q = self.quirk.unwrap_or(Quirk::NONE);
                q.last_key &= *by_key;
                q.glob_fold &= mask == 0;
                let (r, m) = matching::test(mt, *cmp, &v, &k, *by_key, q);
                if !matches!(mt, Mt::Contains) {
                    if let Some(m) = m {
                        self.matched += 1;
                        self.last = Some(*id);
                        self.cleared = false;
                        let got: Vec<(usize, String)> = m
                            .into_iter()
                            .enumerate()
                            .filter(|(i, s)| *i < MAX && s.is_some() && mask & (1 << i) != 0)
                            .map(|(i, s)| (i, s.unwrap()))
                            .collect();
                        if !got.is_empty() || self.quirk.is_none() {
                            self.vars.iter_mut().for_each(|v| v.clear());
                            for (i, s) in got {
                                self.vars[i] = s;
                            }
                        }
                    }
                }
                r != *not
            }
        }
    }
    /// Tells whether the loop around goes on.
    fn block(&mut self, b: &Block) -> bool {
        let next = self.run(&b.stmts);
        let m = b.tests.iter().fold(0, |m, t| m | self.mask[*t]);
        if self.last.is_some_and(|l| b.tests.contains(&l)) {
            // nothing is captured any more
            self.last = None;
        }
        if m != 0 {
            self.cleared = true;
            for (i, v) in self.vars.iter_mut().enumerate() {
                if m & (1 << i) != 0 {
                    v.clear();
                }
            }
        }
        next
    }
    fn run(&mut self, v: &[St]) -> bool {
        for s in v {
            match s {
                St::Show(id, v) => {
                    let t: String = v.iter().map(|p| format!("[{}]", self.text(std::slice::from_ref(p)))).collect();
                    self.seen.push(format!("{id}:{t}"));
                }
                St::Loop(n, b) => {
                    for i in 1..=*n {
                        self.count = i;
                        self.block(b);
                    }
                }
                St::If(br) => {
                    for (c, b) in br {
                        if c.as_ref().is_none_or(|c| self.cond(c)) {
                            if self.block(b) {
                                return true;
                            }
                            break;
                        }
                    }
                }
                St::Continue => {
                    self.continued += 1;
                    return true;
                }
            }
        }
        false
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let left = 2 + r.below(12);
    let wide = r.chance(1, 10);
    let mut g = G { r, out: String::new(), msg: "From: a@b.c\r\n".into(), env: vec![], mask: vec![], open: vec![vec![]], shows: 0, wide, in_loop: false, left };
    let st = g.stmts(2, 6);
    let (script, msg, env, mask) = (g.out, g.msg + "\r\nx\r\n", g.env, g.mask);
    rep.current = format!("{script}\n{msg}\n{env:?}");
    let mut rt = run::runtime();
    for (n, v) in &env {
        rt = rt.with_env_variable(n.clone(), v.clone());
    }
    let c = run::compiler().with_max_match_variables(MAX);
    let run = run::compile(&c, &script).and_then(|s| {
        let mut ctx = rt.filter(msg.as_bytes());
        run::std_context(&mut ctx);
        let t = run::drive(&mut ctx, s, 10_000, &mut run::default_answer);
        match t.broken() {
            Some(b) => Err(b),
            None => Ok(t),
        }
    });
    let tr = match run {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    let seen: Vec<String> = tr
        .events()
        .filter_map(|e| match e {
            Event::FileInto { folder, .. } => Some(folder.clone()),
            Event::Function { arguments, .. } => Some(arguments[0].to_string().into_owned()),
            _ => None,
        })
        .collect();
    let exec = |quirk| {
        let mut x = X { mask: &mask, vars: vec![String::new(); MAX], quirk, seen: vec![], count: 0, matched: 0, shown: 0, last: None, cleared: false, ambiguous: false, continued: 0, after: 0, far: 0 };
        x.run(&st);
        (x.seen, x.matched, x.shown, x.ambiguous, x.continued, x.after, x.far)
    };
    let (ideal, matched, shown, ambiguous, continued, after, far) = exec(None);
    if ambiguous {
        // a value from another block: known limitation, DESIGN.md
        return rep.trivial();
    }
    if shown + after == 0 {
        rep.trivial();
    } else {
        rep.ok(&script);
        rep.cover_n("matches", matched);
        rep.cover_n("variables shown after a match", shown);
        rep.cover_n("continue", continued);
        rep.cover_n("variables shown when nothing is captured", after);
        rep.cover_n("far variables with a value", far);
        if script.contains("while") {
            rep.cover("in loops");
        }
        if script.contains(":regex") {
            rep.cover("with :regex");
        }
    }
    if seen != ideal {
        let quirks = exec(Some(Quirk { last_key: true, glob_fold: true, ..Quirk::NONE })).0;
        if seen == quirks {
            rep.known.push("match-no-capture".into());
            return;
        }
        return rep.fail("match variables", format!("{}\nexpected {ideal:#?}\nobserved {seen:#?}", rep.current));
    }
    rep.sample(|| script.clone());
}

fn directed(rep: &mut Rep) {
    for (script, want) in [
        (r#"if string :matches "a-b" "*-*" { set "v" "${2}${1}"; eval "t(v)"; }"#, vec!["ba"]),
        (r#"if header :regex "Subject" "(H)(x)?e(l+)" { set "v" "${0},${1},${2},${3}"; eval "t(v)"; }"#, vec!["Hell,H,,ll"]),
        (r#"if string :matches ["ab", "cd"] "c?" { set "v" "${1}"; eval "t(v)"; }"#, vec!["d"]),
        (
            r#"if allof(string :matches "a-b-c" "*-*-*", string :matches "q" "*") { set "v" "[${1}${2}${3}]"; eval "t(v)"; }"#,
            vec!["[q]"],
        ),
        (
            r#"if allof(string :matches "a-b" "*-*", not string :matches "q" "x*") { set "v" "[${1}${2}]"; eval "t(v)"; }"#,
            vec!["[ab]"],
        ),
        (r#"if string :matches "A\u{FFFD}B" "*" { set "v" "${1}"; eval "t(v)"; }"#, vec!["A\u{FFFD}B"]),
    ] {
        let script = script.replace("\\u{FFFD}", "\u{FFFD}");
        match run::simple(&script, run::MSG) {
            Ok(t) => {
                rep.ok(&script);
                if t.marks() != want {
                    if script.contains('\u{FFFD}') && t.marks() == ["AB"] {
                        rep.known.push("glob-fffd".into());
                    } else {
                        rep.fail("directed", format!("{script}\n{want:?}\n{}", t.show()));
                    }
                }
            }
            Err(e) => rep.fail("run", format!("{e}\n{script}")),
        }
    }
}
