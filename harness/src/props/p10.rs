//! Compiler limits: a script is refused with the matching error at the line that goes beyond a limit, and
//! only then; within the limits they change nothing and every variable holds its own value.
use crate::report::Rep;
use crate::rng::Rng;
use crate::{run, Prop};
use sieve::compiler::ErrorType;
use sieve::{Compiler, Sieve};

pub const PROP: Prop = Prop { id: "P10", quick: 1_700_000, thorough: 20_000_000, directed, case };

#[derive(Clone, Debug)]
struct Lim {
    script: usize,
    string: usize,
    name: usize,
    blocks: usize,
    tests: usize,
    parts: usize,
    matches: usize,
    locals: usize,
    header: usize,
    includes: usize,
}

const WIDE: Lim =
    Lim { script: 1 << 20, string: 4096, name: 1000, blocks: 40, tests: 40, parts: 40, matches: 63, locals: 256, header: 4000, includes: 100 };

fn compiler(l: &Lim, set: bool) -> Compiler {
    if set {
        let mut c = Compiler::new();
        c.set_max_script_size(l.script);
        c.set_max_string_size(l.string);
        c.set_max_variable_name_size(l.name);
        c.set_max_nested_blocks(l.blocks);
        c.set_max_nested_tests(l.tests);
        c.set_max_nested_foreverypart(l.parts);
        c.set_max_match_variables(l.matches);
        c.set_max_local_variables(l.locals);
        c.set_max_header_size(l.header);
        c.set_max_includes(l.includes);
        c.set_no_capability_check(true);
        c
    } else {
        Compiler::new()
            .with_max_script_size(l.script)
            .with_max_string_size(l.string)
            .with_max_variable_name_size(l.name)
            .with_max_nested_blocks(l.blocks)
            .with_max_nested_tests(l.tests)
            .with_max_nested_foreverypart(l.parts)
            .with_max_match_variables(l.matches)
            .with_max_local_variables(l.locals)
            .with_max_header_size(l.header)
            .with_max_includes(l.includes)
            .with_no_capability_check(true)
    }
}

fn verdict(c: &Compiler, s: &str) -> Result<Sieve, String> {
    match run::no_panic(|| c.compile(s.as_bytes())) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!(
            "{} at {}",
            match e.error_type() {
                ErrorType::InvalidMatchVariable(n) => format!("InvalidMatchVariable({n})"),
                t => format!("{t:?}").split(['(', ' ', '{']).next().unwrap().to_string(),
            },
            e.line_num()
        )),
        Err(p) => Err(format!("panic {p}")),
    }
}

#[derive(PartialEq, Clone, Copy)]
enum K {
    Top,
    If,
    While,
    Part,
}

struct M<'a> {
    r: &'a mut Rng,
    lim: Lim,
    out: Vec<String>,
    exp: Option<String>,
    scopes: Vec<(K, Vec<String>)>,
    vars_num: usize,
    vars_max: usize,
    vars_local: usize,
    includes: usize,
    left: usize,
    next: usize,
    /// what the script comes near to: only this resource is used heavily
    focus: usize,
}

impl M<'_> {
    fn bad(&mut self, e: &str) {
        if self.exp.is_none() {
            self.exp = Some(format!("{e} at {}", self.out.len() + 1));
        }
    }
    /// A string literal; `pre` lines of the statement come before it.
    fn s(&mut self, v: &str) -> String {
        if v.len() >= self.lim.string {
            self.bad("StringTooLong");
        }
        let esc: String = v.chars().flat_map(|c| if matches!(c, '"' | '\\') { vec!['\\', c] } else { vec![c] }).collect();
        format!("\"{esc}\"")
    }
    fn text(&mut self) -> String {
        let n = match (self.focus, self.r.below(3)) {
            (0, _) => self.lim.string.saturating_sub(2) + self.r.below(4),
            (_, 0) => self.r.below(12),
            _ => self.r.below(3),
        };
        let mut v = self.r.string(&["a", "é", "\"", "\\", " ", "x"], 3);
        while v.len() < n {
            v.push('a');
        }
        while v.len() > n {
            v.pop();
        }
        v
    }
    fn set(&mut self) {
        let local = self.r.chance(1, 4);
        let n = if self.focus == 1 && self.r.chance(3, 4) {
            self.next += 1;
            self.next
        } else {
            1 + self.r.below(6)
        };
        let name = format!("v{n}");
        let lit = self.s(&name);
        if !self.scopes.iter().any(|s| s.1.contains(&name)) {
            if local && self.scopes.len() > 1 {
                self.vars_local += 1;
                self.scopes[0].1.push(name);
            } else {
                self.vars_num += 1;
                self.scopes.last_mut().unwrap().1.push(name);
            }
        }
        if self.vars_max.max(self.vars_num) + self.vars_local > self.lim.locals.min(256) {
            self.bad("TooManyVariables");
        }
        let v = if self.focus == 2 || self.r.chance(1, 8) {
            let k = match self.r.below(4) {
                0 => self.r.below(70),
                1 => 61 + self.r.below(4),
                _ => (self.lim.matches + self.r.below(3)).saturating_sub(2),
            };
            let k = if self.focus == 2 { k } else { self.r.below(2) };
            let pre = if self.r.chance(1, 2) { "a" } else { "" };
            let v = format!("{pre}${{{k}}}");
            let l = self.s(&v);
            if k >= self.lim.matches.min(63) {
                self.bad(&format!("InvalidMatchVariable({k})"));
            }
            l
        } else {
            let t = self.text();
            self.s(&t)
        };
        let l = format!("set {}{lit} {v};", if local { ":local " } else { "" });
        self.out.push(l);
    }
    fn test(&mut self, d: usize) -> String {
        let not = if self.r.chance(1, 4) { "not " } else { "" };
        let p = if self.focus == 3 { 3 } else { 1 };
        if self.r.chance(p, 5) && d < 12 {
            if d >= self.lim.tests {
                self.bad("TooManyNestedTests");
            }
            let n = 1 + self.r.below(if self.focus == 3 { 2 } else { 3 });
            let t: Vec<String> = (0..n).map(|_| self.test(d + 1)).collect();
            return format!("{not}{}({})", self.r.pick(&["anyof", "allof"]), t.join(", "));
        }
        match self.r.below(4) {
            0 => format!("{not}true"),
            1 => format!("{not}false"),
            2 => {
                let (a, b) = ("subject".to_string(), self.text());
                let a = self.s(&a);
                let b = self.s(&b);
                format!("{not}header :contains {a} {b}")
            }
            _ => {
                let a = self.s("subject");
                let b = self.s("*a*");
                format!("{not}header :matches {a} {b}")
            }
        }
    }
    fn block(&mut self, k: K) {
        if self.scopes.len() > self.lim.blocks {
            self.bad("TooManyNestedBlocks");
        }
        self.scopes.push((k, vec![]));
    }
    fn end(&mut self) {
        let n = self.scopes.pop().unwrap().1.len();
        if n > 0 {
            self.vars_max = self.vars_max.max(self.vars_num);
            self.vars_num -= n;
        }
    }
    fn body(&mut self) {
        let n = 1 + self.r.below(if self.focus == 4 { 2 } else { 4 });
        for _ in 0..n {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            self.stmt();
        }
    }
    fn stmt(&mut self) {
        let d = self.scopes.len();
        let deep = matches!(self.focus, 4 | 5);
        match self.r.below(12) {
            0..=3 if deep || d < 6 => {
                let k = if self.focus == 5 || self.r.chance(1, 4) {
                    *self.r.pick(&[K::Part, K::Part, K::If])
                } else {
                    *self.r.pick(&[K::If, K::If, K::While])
                };
                match k {
                    K::While => {
                        let e = self.s("0 && 1");
                        self.block(k);
                        self.out.push(format!("while {e} {{"));
                        self.body();
                        self.end();
                        self.out.push("}".into());
                    }
                    K::Part => {
                        let s = &self.scopes[..d - 1];
                        if s.iter().filter(|s| s.0 == K::Part).count() >= self.lim.parts {
                            self.bad("TooManyNestedForEveryParts");
                        }
                        self.block(k);
                        self.out.push("foreverypart {".into());
                        self.body();
                        self.end();
                        self.out.push("}".into());
                    }
                    _ => {
                        let t = self.test(0);
                        self.block(k);
                        self.out.push(format!("if {t} {{"));
                        self.body();
                        self.end();
                        self.out.push("}".into());
                        while self.r.chance(1, 4) {
                            let t = self.test(0);
                            self.block(k);
                            self.out.push(format!("elsif {t} {{"));
                            self.body();
                            self.end();
                            self.out.push("}".into());
                        }
                        if self.r.chance(1, 4) {
                            self.block(k);
                            self.out.push("else {".into());
                            self.body();
                            self.end();
                            self.out.push("}".into());
                        }
                    }
                }
            }
            0..=6 => self.set(),
            7 => {
                if self.includes >= self.lim.includes {
                    self.bad("TooManyIncludes");
                }
                self.includes += 1;
                let n = self.text();
                let n = self.s(&n);
                self.out.push(format!("include {n};"));
            }
            8 => {
                let k = 1 + self.r.below(2);
                let names: Vec<String> = (0..k)
                    .map(|_| {
                        let n = if self.focus == 6 { self.lim.name.saturating_sub(2) + self.r.below(4) } else { 1 + self.r.below(5) };
                        format!("g{}", "z".repeat(n.saturating_sub(1)))
                    })
                    .collect();
                let l: Vec<String> = names.iter().map(|n| self.s(n)).collect();
                if names.iter().any(|n| n.len() >= self.lim.name) {
                    self.bad("VariableTooLong");
                }
                self.out.push(if k == 1 { format!("global {};", l[0]) } else { format!("global [{}];", l.join(", ")) });
            }
            9 => {
                let n = self.s("X-A");
                let v = if self.focus == 7 { "h".repeat((self.lim.header + self.r.below(4)).saturating_sub(2)) } else { self.text() };
                let v2 = self.s(&v);
                if v.len() > self.lim.header {
                    self.bad("HeaderTooLong");
                }
                let last = if self.r.chance(1, 3) { ":last " } else { "" };
                self.out.push(format!("addheader {last}{n} {v2};"));
            }
            10 => {
                let v = self.text();
                // A text block: the string is the block without the mark of the end
                let v = v.replace(['"', '\\'], "b") + "\r\n";
                if v.len() >= self.lim.string {
                    self.bad("StringTooLong");
                }
                self.out.push(format!("redirect text:\r\n{v}."));
                // lines of the text
                let e = self.out.pop().unwrap();
                self.out.extend(e.split("\r\n").map(|s| s.to_string()));
                self.out.push(";".into());
            }
            _ => self.out.push("keep;".into()),
        }
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    if r.chance(1, 12) {
        return values(rep, r);
    }
    let mut lim = WIDE.clone();
    let focus = r.below(9);
    let some = |r: &mut Rng, f: usize, small: std::ops::Range<usize>| -> Option<usize> {
        if focus == f || r.chance(1, 12) {
            Some(r.range(small.start as i64, small.end as i64) as usize)
        } else {
            None
        }
    };
    if let Some(n) = some(r, 0, 8..60) {
        lim.string = n
    }
    if let Some(n) = some(r, 1, 0..12) {
        lim.locals = n
    }
    if let Some(n) = some(r, 2, 0..70) {
        lim.matches = n
    }
    if let Some(n) = some(r, 3, 0..6) {
        lim.tests = n
    }
    if let Some(n) = some(r, 4, 0..8) {
        lim.blocks = n
    }
    if let Some(n) = some(r, 5, 0..4) {
        lim.parts = n
    }
    if let Some(n) = some(r, 6, 0..40) {
        lim.name = n
    }
    if let Some(n) = some(r, 7, 0..60) {
        lim.header = n
    }
    if let Some(n) = some(r, 8, 0..5) {
        lim.includes = n
    }
    let left = 3 + r.below(25);
    let mut m = M {
        r,
        lim,
        out: vec![],
        exp: None,
        scopes: vec![(K::Top, vec![])],
        vars_num: 0,
        vars_max: 0,
        vars_local: 0,
        includes: 0,
        left,
        next: 10,
        focus,
    };
    while m.left > 0 {
        m.body();
    }
    let (mut lim, mut exp, script) = (m.lim.clone(), m.exp.clone(), m.out.join("\r\n"));
    if r.chance(1, 6) {
        lim.script = (script.len() + r.below(3)).saturating_sub(1);
        if script.len() > lim.script {
            exp = Some("ScriptTooLong at 0".into());
        }
    }
    rep.current = format!("{lim:?}\n{script}");
    let wide = match verdict(&compiler(&WIDE, false), &script) {
        Ok(s) => Some(s),
        Err(e) if e.starts_with("InvalidMatchVariable") || e.starts_with("VariableTooLong") => None,
        Err(e) => return rep.fail("a script within wide limits is refused", format!("{e}\n{script}")),
    };
    let got = verdict(&compiler(&lim, r.chance(1, 2)), &script);
    if got.as_ref().err() != exp.as_ref() {
        return rep.fail(
            "verdict on a limit",
            format!("{lim:?}\nexpected {exp:?}\nobserved {:?}\n{script}", got.err()),
        );
    }
    match (&got, &wide) {
        (Ok(a), Some(b)) if a != b => {
            return rep.fail("a limit that is not reached changes the program", format!("{lim:?}\n{script}\n{a:?}\n{b:?}"))
        }
        (Ok(_), _) => rep.cover("accepted"),
        (Err(e), _) => rep.cover(&format!("refused {}", e.split([' ', '(']).next().unwrap())),
    }
    rep.ok(&(script, format!("{lim:?}")));
}

/// Every variable within the limits has a value of its own.
fn values(rep: &mut Rep, r: &mut Rng) {
    let n = match r.below(3) {
        0 => 255,
        1 => 1 + r.below(255),
        _ => 1 + r.below(20),
    };
    let lim = Lim { locals: n + r.below(2), ..WIDE };
    let (mut script, mut vals) = (String::new(), vec![]);
    let nested = r.chance(1, 2);
    let split = r.below(n + 1);
    for i in 0..n {
        if i == split && nested {
            script += "if true {\n";
        }
        let v = format!("{}-{i}", r.below(1000));
        let local = if i >= split && r.chance(1, 3) { ":local " } else { "" };
        script += &format!("set {local}\"v{i}\" \"{v}\";\n");
        vals.push(v);
    }
    for _ in 0..r.below(20) {
        let i = r.below(n);
        vals[i] = format!("again{}", r.below(1000));
        script += &format!("set \"v{i}\" \"{}\";\n", vals[i]);
    }
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for i in &order {
        script += &format!("eval \"t(v{i})\";\n");
    }
    if nested && split < n {
        script += "}\n";
    }
    let mut exp: Vec<String> = order.iter().map(|i| vals[*i].clone()).collect();
    // match variables: as many as the pattern has
    let k = 1 + r.below(62);
    let parts: Vec<String> = (0..k).map(|i| format!("p{i}")).collect();
    script += &format!("if string :matches \"{}\" \"{}\" {{\n", parts.join("|"), vec!["*"; k].join("|"));
    for _ in 0..5 {
        let i = r.below(k);
        script += &format!("set \"x\" \"${{{}}}\";\neval \"t(x)\";\n", i + 1);
        exp.push(parts[i].clone());
    }
    script += "}\n";
    let lim = Lim { matches: k + 1 + r.below(2), locals: lim.locals + 1, ..lim };
    rep.current = script.clone();
    let c = compiler(&lim, r.chance(1, 2)).register_functions(&mut run::functions());
    let s = match run::compile(&c, &script) {
        Ok(s) => s,
        Err(e) => return rep.fail("a script within the limits is refused", format!("{e}\n{script}")),
    };
    let rt = run::runtime();
    let mut ctx = rt.filter(run::MSG);
    run::std_context(&mut ctx);
    let tr = run::drive(&mut ctx, s, 5_000, &mut run::default_answer);
    if tr.marks() != exp {
        return rep.fail("values of variables", format!("{script}\nexpected {exp:?}\nobserved {:?}", tr.marks()));
    }
    rep.cover("values of all variables read back");
    rep.ok(&script);
}

fn directed(_rep: &mut Rep) {}
