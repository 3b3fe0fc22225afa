//! Runs depend on nothing but their inputs: repeated, interleaved and parallel runs of the same
//! compiled scripts on the same runtime give the traces they give alone.
use crate::report::{hash, Rep};
use crate::rng::Rng;
use crate::run::{self, canon_items, canon_msg, Tr};
use crate::{gen, Prop};
use sieve::runtime::Variable;
use sieve::{Context, Event, Input, Runtime, Sieve};
use std::sync::{Arc, Barrier, Mutex};

pub const PROP: Prop = Prop { id: "P27", quick: 8_000, thorough: 1_500_000, directed, case };

const CAP: usize = 600;

/// What the host answers, a function of the event alone.
fn answer(ev: &Event, lib: &[Arc<Sieve>], salt: u64) -> Input {
    // generated ids differ from run to run
    let h = hash(&(run::canon(&format!("{ev:?}")), salt));
    match ev {
        Event::Function { .. } => Input::FncResult(match h % 4 {
            0 => Variable::from((h % 7) as i64),
            1 => Variable::from(format!("r{}", h % 5)),
            _ => Variable::from(1i64),
        }),
        Event::IncludeScript { name, .. } if !lib.is_empty() && h % 8 != 0 => Input::Script { name: name.clone(), script: lib[h as usize % lib.len()].clone() },
        Event::IncludeScript { .. } => Input::False,
        Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => {
            if h % 2 == 0 {
                Input::True
            } else {
                Input::False
            }
        }
        _ => Input::True,
    }
}

pub struct Job {
    pub script: Arc<Sieve>,
    pub msg: Vec<u8>,
    pub salt: u64,
}
struct Run<'x> {
    ctx: Context<'x>,
    input: Option<Input>,
    items: Vec<Tr>,
    msgs: Vec<String>,
    salt: u64,
}
impl<'x> Run<'x> {
    fn new(rt: &'x Runtime, j: &'x Job) -> Option<Run<'x>> {
        let mut ctx = run::no_panic(|| rt.filter(&j.msg)).ok()?;
        if !gen::well_formed(ctx.message()) {
            return None;
        }
        run::std_context(&mut ctx);
        ctx.set_env_variable("location", format!("L{}", j.salt % 3));
        ctx.set_global_variable("g", format!("v{}", j.salt % 3));
        Some(Run { ctx, input: Some(Input::Script { name: "main".into(), script: j.script.clone() }), items: vec![], msgs: vec![], salt: j.salt })
    }
    /// One exchange with the host; false at the end.
    fn step(&mut self, lib: &[Arc<Sieve>]) -> bool {
        let Some(input) = self.input.take() else { return false };
        let r = match run::no_panic(|| self.ctx.run(input)) {
            Ok(r) => r,
            Err(p) => {
                self.items.push(Tr::Err(format!("panic {p}")));
                return false;
            }
        };
        match r {
            None => {
                let mut g: Vec<String> = self.ctx.global_variable_names().map(|n| format!("{n}={:?}", self.ctx.global_variable(n))).collect();
                g.sort();
                self.msgs.push(run::canon(&format!("globals {g:?}")));
                return false;
            }
            Some(Ok(ev)) => {
                self.input = Some(answer(&ev, lib, self.salt));
                self.items.push(Tr::Ev(match ev {
                    Event::CreatedMessage { message_id, message } => {
                        self.msgs.push(canon_msg(&message));
                        Event::CreatedMessage { message_id, message: vec![] }
                    }
                    ev => ev,
                }));
            }
            Some(Err(e)) => {
                self.items.push(Tr::Err(run::err_str(&e)));
                self.input = Some(Input::True);
            }
        }
        self.items.len() < CAP
    }
    fn result(self) -> (Vec<String>, Vec<String>) {
        (canon_items(&self.items), self.msgs)
    }
}
pub type Res = (Vec<String>, Vec<String>);

pub fn alone(rt: &Runtime, j: &Job, lib: &[Arc<Sieve>]) -> Option<Res> {
    let mut x = Run::new(rt, j)?;
    while x.step(lib) {}
    Some(x.result())
}
pub fn runtime(v: usize) -> Runtime {
    let mut rt = run::runtime().with_cpu_limit(1500).with_env_variable("x", "y");
    rt.set_max_nested_includes(3 + v % 3);
    rt
}

fn differ(rep: &mut Rep, how: &str, a: &Res, b: &Res) {
    let k = a.0.iter().zip(&b.0).take_while(|(x, y)| x == y).count();
    let m = a.1.iter().zip(&b.1).find(|(x, y)| x != y);
    let c = rep.current.clone();
    rep.fail(how, format!("outcome {k}: alone {:?}\n{how} {:?}\n{m:#?}\n{c}", a.0.get(k), b.0.get(k)));
}

/// Runs every job on `threads` threads at once, with contexts handed from thread to thread.
fn parallel<'x>(rt: &'x Runtime, jobs: &'x [Job], lib: &[Arc<Sieve>], threads: usize, seed: u64) -> Vec<Vec<Option<Res>>> {
    let pool: Mutex<Vec<(usize, usize, Run)>> = Mutex::new(vec![]);
    let out: Mutex<Vec<Vec<Option<Res>>>> = Mutex::new(jobs.iter().map(|_| vec![]).collect());
    let start = Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (pool, out, start) = (&pool, &out, &start);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64).wrapping_mul(0x9e37_79b9));
                // all threads look at the fresh scripts at the same time
                let mut mine: Vec<(usize, usize, Run)> = jobs.iter().enumerate().filter_map(|(i, j)| Some((i, 0, Run::new(rt, j)?))).collect();
                start.wait();
                loop {
                    let Some((i, n, mut x)) = mine.pop().or_else(|| {
                        let mut p = pool.lock().unwrap();
                        if p.is_empty() {
                            None
                        } else {
                            let k = r.below(p.len());
                            Some(p.swap_remove(k))
                        }
                    }) else {
                        break;
                    };
                    let k = 1 + r.below(12);
                    let mut more = true;
                    for _ in 0..k {
                        more = x.step(lib);
                        if !more {
                            break;
                        }
                    }
                    if more {
                        pool.lock().unwrap().push((i, n + 1, x));
                    } else {
                        out.lock().unwrap()[i].push(Some(x.result()));
                    }
                }
            });
        }
    });
    // contexts that were put back after the last thread had looked
    for (i, _, mut x) in pool.into_inner().unwrap() {
        while x.step(lib) {}
        out.lock().unwrap()[i].push(Some(x.result()));
    }
    out.into_inner().unwrap()
}

const RES: &[&str] = &["^h(el)+o.*$", "[a-z]+@([a-z]+)\\.org", "(.)(.)(.)", "x|y|Hello", "^.*wor(ld)?"];

fn case(rep: &mut Rep, r: &mut Rng) {
    let o = || gen::Opts { dates: false, ..Default::default() };
    let compiler = run::compiler().with_max_local_variables(400).with_max_match_variables(63).with_no_capability_check(r.chance(1, 2));
    let n = 1 + r.below(3);
    let mut texts = vec![];
    let mut lib_texts = vec![];
    for i in 0..n + 2 {
        let (mut t, _): (String, _) = gen::script(r, o());
        if r.chance(1, 2) {
            // patterns are compiled when first used and kept in the script
            let k = *r.pick(RES);
            t = format!("require [\"regex\", \"variables\", \"editheader\"];\nif anyof(header :regex \"Subject\" \"{}\", header :regex [\"From\", \"X-Test\"] [\"{}\", \"nothing\"]) {{ addheader \"X-Match\" \"${{1}}\"; }}\n{t}", k.replace('\\', "\\\\"), r.pick(RES).replace('\\', "\\\\"));
        }
        if i < n { &mut texts } else { &mut lib_texts }.push(t);
    }
    // ids generated by a run may not decide what it does
    if texts.iter().chain(&lib_texts).any(|t| t.contains("enclose ") || t.contains("replace ")) {
        for t in texts.iter_mut().chain(&mut lib_texts) {
            if ["essage-id", "size ", "header.*", "body"].iter().any(|c| t.to_lowercase().contains(c)) {
                *t = "keep;".into();
            }
        }
    }
    let msgs: Vec<Vec<u8>> = (0..2).map(|_| gen::message(r)).collect();
    rep.current = format!("{texts:#?}\nincluded {lib_texts:#?}\n{:#?}", msgs.iter().map(|m| String::from_utf8_lossy(m)).collect::<Vec<_>>());
    let fresh = |t: &[String]| -> Vec<Arc<Sieve>> { t.iter().filter_map(|t| run::compile(&compiler, t).ok().map(Arc::new)).collect() };
    if !msgs.iter().all(|m| run::parses(m)) {
        return rep.cover("message that mail-parser does not read");
    }
    let make = |scripts: Vec<Arc<Sieve>>| -> Vec<Job> {
        let mut v = vec![];
        for (i, s) in scripts.into_iter().enumerate() {
            for (k, m) in msgs.iter().enumerate() {
                v.push(Job { script: s.clone(), msg: m.clone(), salt: (i * 7 + k) as u64 });
            }
        }
        v
    };
    let v = r.below(3);
    // every job alone: its own scripts and runtime
    let mut want = vec![];
    for i in 0..make(fresh(&texts)).len() {
        let (jobs, lib, rt) = (make(fresh(&texts)), fresh(&lib_texts), runtime(v));
        want.push(alone(&rt, &jobs[i], &lib));
    }
    let (jobs, lib, rt) = (make(fresh(&texts)), fresh(&lib_texts), runtime(v));
    if jobs.is_empty() {
        rep.cover("scripts rejected");
        return rep.trivial();
    }
    rep.cover_n("events", want.iter().flatten().map(|w| w.0.len() as u64).sum());
    // the shared ones may come from their serialized form: their regular expressions are compiled when first used
    #[cfg(feature = "ser")]
    let (jobs, lib) = if r.chance(1, 2) {
        let load = |v: Vec<Arc<Sieve>>| -> Vec<Arc<Sieve>> { v.iter().map(|s| Arc::new(crate::ser::rkyv_load(&crate::ser::rkyv_bytes(s).unwrap()).unwrap())).collect() };
        rep.cover("shared scripts loaded from their serialized form");
        (make(load(fresh(&texts))), load(lib))
    } else {
        (jobs, lib)
    };
    let pristine: Vec<Sieve> = fresh(&texts).iter().map(|s| (**s).clone()).collect();
    rep.ok(&rep.current.clone());
    let cur = rep.current.clone();
    rep.sample(|| cur);
    // one after the other, on what is shared from here on
    if r.chance(1, 3) {
        for (j, w) in jobs.iter().zip(&want) {
            let g = alone(&rt, j, &lib);
            if let (Some(w), Some(g)) = (w, &g) {
                if w != g {
                    return differ(rep, "again", w, g);
                }
            }
            rep.cover("repeated run");
        }
    }
    // interleaved
    if r.chance(1, 2) {
        let mut runs: Vec<(usize, Option<Run>)> = (0..jobs.len() * 2).map(|i| (i % jobs.len(), Run::new(&rt, &jobs[i % jobs.len()]))).collect();
        let mut left: Vec<usize> = (0..runs.len()).filter(|i| runs[*i].1.is_some()).collect();
        while !left.is_empty() {
            let k = r.below(left.len());
            if !runs[left[k]].1.as_mut().unwrap().step(&lib) {
                left.swap_remove(k);
            }
        }
        for (i, x) in runs {
            if let (Some(w), Some(x)) = (&want[i], x) {
                let g = x.result();
                if *w != g {
                    return differ(rep, "interleaved", w, &g);
                }
                rep.cover("interleaved run");
            }
        }
    }
    // in parallel
    let threads = 2 + r.below(3);
    let got = parallel(&rt, &jobs, &lib, threads, r.next());
    for (w, g) in want.iter().zip(&got) {
        for g in g.iter().flatten() {
            if let Some(w) = w {
                if w != g {
                    return differ(rep, "parallel", w, g);
                }
                rep.cover("parallel run");
            }
        }
    }
    for (p, j) in pristine.iter().zip(jobs.chunks(msgs.len())) {
        if *p != *j[0].script {
            let c = rep.current.clone();
            return rep.fail("script changed", c);
        }
        if p.clone() != *j[0].script {
            let c = rep.current.clone();
            return rep.fail("clone", c);
        }
    }
    rep.cover("scripts unchanged");
}

fn directed(rep: &mut Rep) {
    // the time is that of the beginning of the run: see P19
    // compiling on many threads with one compiler
    let c = run::compiler();
    let mut r = Rng::new(rep.seed);
    let texts: Vec<String> = (0..40).map(|_| gen::script(&mut r, Default::default()).0).collect();
    let want: Vec<String> = texts.iter().map(|t| format!("{:?}", run::compile(&c, t))).collect();
    let bad = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| {
                for (t, w) in texts.iter().zip(&want) {
                    let g = format!("{:?}", run::compile(&c, t));
                    if g != *w {
                        bad.lock().unwrap().push(format!("{t}\nalone {w}\nin parallel {g}"));
                    }
                }
            });
        }
    });
    rep.ok("compile");
    rep.cover_n("parallel compilation", 160);
    if let Some(b) = bad.into_inner().unwrap().first() {
        rep.fail("compile", b.clone());
    }
}
