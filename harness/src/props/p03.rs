//! The CPU limit: a run under a limit is the unlimited run cut at one point, which moves with the
//! limit; every executed command counts, wherever it is.
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr, Trace};
use crate::{gen, Prop};
use sieve::runtime::Variable;
use sieve::{Event, Input, Sieve};

pub const PROP: Prop = Prop { id: "P03", quick: 170_000, thorough: 2_000_000, directed, case };

const CUT: &str = "CPULimitReached";

struct W<'a> {
    scripts: &'a [Option<Sieve>],
    msg: &'a [u8],
    host: Rng,
}

impl W<'_> {
    fn run(&self, limit: usize) -> Trace {
        let rt = run::runtime().with_cpu_limit(limit).with_max_redirects(50).with_max_out_messages(50);
        let mut ctx = rt.filter(self.msg);
        run::std_context(&mut ctx);
        let mut a = self.host.clone();
        run::drive(&mut ctx, self.scripts[0].clone().unwrap(), 200_000, &mut |ev| match ev {
            Event::Function { .. } => Input::FncResult(Variable::from(a.range(-1, 2))),
            Event::IncludeScript { name, .. } => {
                let k = match name.as_str().as_str() {
                    "inc1" => 1,
                    "inc2" => 2,
                    _ => 9,
                };
                match self.scripts.get(k) {
                    Some(Some(s)) => Input::Script { name: name.clone(), script: s.clone().into() },
                    _ => Input::False,
                }
            }
            Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => {
                if a.chance(1, 2) {
                    Input::True
                } else {
                    Input::False
                }
            }
            _ => Input::True,
        })
    }
    /// The smallest limit that does not cut the run (which `top` does not).
    fn minimal(&self, top: usize) -> usize {
        let (mut lo, mut hi) = (0, top);
        while lo < hi {
            let m = (lo + hi) / 2;
            if self.run(m).errs().contains(&CUT) {
                lo = m + 1;
            } else {
                hi = m;
            }
        }
        lo
    }
}

/// Blanks what depends on the clock or on random numbers: created messages are compared by P21/P24.
fn cut_of(t: &Trace) -> Option<usize> {
    t.items.iter().position(|i| matches!(i, Tr::Err(e) if e == CUT))
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut texts: [String; 3] = Default::default();
    for (i, t) in texts.iter_mut().enumerate() {
        *t = gen::script(r, gen::Opts { max_stmts: if i == 0 { 9 } else { 3 }, dates: false, hostile: false, ..Default::default() }).0;
        // generated message ids are random, and multiplying a string with itself takes long
        *t = t.replace("Message-ID", "X-Test");
    }
    let msg = gen::message(r);
    if msg.is_empty() || !run::parses(&msg) {
        return;
    }
    let c = run::compiler().with_max_local_variables(400).with_max_match_variables(63);
    let scripts: Vec<Option<Sieve>> = texts.iter().map(|t| run::compile(&c, t).ok()).collect();
    if scripts[0].is_none() {
        return rep.cover("main script rejected");
    }
    let show = || format!("script:\n{}\n-- inc1:\n{}\n-- inc2:\n{}\nmessage:\n{}", texts[0], texts[1], texts[2], String::from_utf8_lossy(&msg));
    rep.current = show();
    if rep.verbose {
        println!("{}", rep.current);
    }
    let w = W { scripts: &scripts, msg: &msg, host: r.clone() };
    if let Err((what, detail)) = compare(rep, r, &w, &texts, &msg, &show) {
        // a script can ask for the time or a generated id: judge only what is the same again
        let first = w.run(1500);
        for _ in 0..30 {
            std::thread::sleep(std::time::Duration::from_millis(40));
            if run::canon_items(&w.run(1500).items) != run::canon_items(&first.items) || w.minimal(1500) != w.minimal(1500) {
                return rep.cover("depends on the time or on generated ids, not judged");
            }
        }
        return rep.fail(what, detail);
    }
    if r.chance(1, 4) {
        scaling(rep, r);
    }
    if r.chance(1, 6) {
        additive(rep, r, &texts, &msg);
    }
}

/// Commands before and after a script, included scripts and suspensions of the run in between, cost
/// what they cost without it.
fn additive(rep: &mut Rep, r: &mut Rng, texts: &[String; 3], msg: &[u8]) {
    let c = run::compiler().with_max_local_variables(400).with_max_match_variables(63).with_max_script_size(1 << 20);
    let (n, m) = (r.below(60), r.below(60));
    let inc: Vec<Option<Sieve>> = texts[1..].iter().map(|t| run::compile(&c, t).ok()).collect();
    // the same lines, so that the costs only differ by the commands around them
    let one = "set \"zz\" \"1\";\n";
    let reps: Vec<String> = (0..1 + r.below(2)).map(|_| r.pick(&texts[..]).clone()).collect();
    let need = |n: usize, m: usize| -> Option<(usize, bool)> {
        let mut t = one.repeat(n + 1);
        for x in &reps {
            t += x;
            t += &one.repeat(m);
        }
        let s = run::compile(&c, &(t + "eval \"t('end')\";\n")).ok()?;
        let mut scripts = vec![Some(s)];
        scripts.extend(inc.iter().cloned());
        let w = W { scripts: &scripts, msg, host: r.clone() };
        let full = w.run(1_500);
        if full.errs().contains(&CUT) || full.broken().is_some() {
            return None;
        }
        let end = full.calls(run::T).last().is_some_and(|a| a[0].to_string() == "end");
        Some((w.minimal(1_500), end))
    };
    let (Some((a, end)), Some((b, _))) = (need(0, 0), need(n, m)) else { return };
    if !end {
        // where it ended is not known
        return rep.cover("runs that do not reach the end of the script");
    }
    let want = a + n + reps.len() * m;
    if b != want {
        return rep.fail("commands around a script change its cost", format!("{n} before and {m} after each: {b} instead of {want}\n{}\n-- inc1:\n{}\n-- inc2:\n{}", reps.join("-- again\n"), texts[1], texts[2]));
    }
    rep.cover("additive families");
    rep.ok(&(texts, n, m));
}

fn compare(rep: &mut Rep, r: &mut Rng, w: &W, texts: &[String; 3], msg: &[u8], show: &dyn Fn() -> String) -> Result<(), (&'static str, String)> {
    let top = 1500;
    let full = w.run(top);
    if full.broken().is_some() {
        rep.cover("broken run, judged by P02");
        return Ok(());
    }
    let endless = cut_of(&full).is_some();
    let min = if endless { top - 2 } else { w.minimal(top) };
    rep.cover(if endless { "runs that never end by themselves" } else { "runs that end by themselves" });
    let mut limits = vec![0, 1, min.saturating_sub(1), min, min + 1];
    for _ in 0..4 {
        limits.push(r.below(min + 2));
    }
    limits.sort();
    let mut last = 0;
    for n in limits {
        let t = w.run(n);
        if let Some(b) = t.broken() {
            return Err(("the run under a limit is broken", format!("limit {n}: {b}\n{}\n{}", show(), t.show())));
        }
        let at = match cut_of(&t) {
            None => {
                if n < min || endless {
                    return Err(("a smaller limit is not reached", format!("limit {n}, smallest that suffices {min}\n{}\n{}", show(), t.show())));
                }
                if run::canon_items(&t.items) != run::canon_items(&full.items) {
                    return Err(("a limit that is not reached changes the run", format!("limit {n}\n{}\n-- unlimited:\n{}\n-- limited:\n{}", show(), full.show(), t.show())));
                }
                rep.cover("limit not reached");
                t.items.len()
            }
            Some(at) => {
                if n >= min && !endless {
                    return Err(("a larger limit is reached", format!("limit {n}, but {min} suffices\n{}\n{}", show(), t.show())));
                }
                if at > full.items.len() || run::canon_items(&t.items[..at]) != run::canon_items(&full.items[..at]) {
                    return Err(("events before the limit differ from the run without a limit", format!("limit {n}\n{}\n-- unlimited:\n{}\n-- limited:\n{}", show(), full.show(), t.show())));
                }
                rep.cover("limit reached");
                at
            }
        };
        if at < last {
            return Err(("a larger limit stops earlier", format!("limit {n}: {at} events, a smaller one allowed {last}\n{}", show())));
        }
        last = at;
        // an action takes up to three events (message, sent, filed)
        if at > 3 * n + 2 {
            return Err(("more events than the limit allows", format!("limit {n}: {at} events\n{}\n{}", show(), t.show())));
        }
        rep.ok(&(&texts, &msg, n));
    }
    rep.sample(|| format!("{}=> needs {min}", texts[0]));
    Ok(())
}

/// One command that has no tests inside.
fn command(r: &mut Rng) -> &'static str {
    r.pick(&[
        "set \"a\" \"b\";",
        "keep;",
        "discard;",
        "addflag \"x\";",
        "fileinto \"x\";",
        "addheader \"X\" \"y\";",
        "deleteheader \"Nope\";",
        "eval \"1 + 1\";",
        "let \"k\" \"2 * 3\";",
        "eval \"t('x')\";",
        "eval \"up('x')\";",
        "notify \"mailto:a@b.org\";",
        "vacation \"x\";",
        "redirect \"a@b.org\";",
        "extracttext \"e\";",
        "reject \"x\";",
        "include \"inc1\";",
        "include :optional \"inc1\";",
        "if header :is \"Subject\" \"nothing\" { stop; }",
        "if string :matches \"ab\" \"*b\" { set \"m\" \"${1}\"; }",
        "if mailboxexists \"b\" { set \"m\" \"${1}\"; } else { set \"n\" \"x\"; }",
        "if anyof (false, not true, exists \"From\") { removeflag \"q\"; }",
        "while \"0\" { stop; }",
        "foreverypart { set \"q\" \"1\"; }",
        "replace \"x\";",
        "enclose \"x\";",
        "convert \"text/plain\" \"text/html\" [\"\"];",
        "global \"gg\"; set \"gg\" \"1\";",
        "error_free",
    ])
}

/// k copies of a command, and k iterations of a loop around it, cost what k single ones cost.
fn scaling(rep: &mut Rep, r: &mut Rng) {
    let mut cmd = command(r);
    if cmd == "error_free" {
        cmd = "set :length \"l\" \"abc\";";
    }
    let inc = "set \"z\" \"1\"; eval \"t('i')\";";
    let c = run::compiler().with_max_includes(1000).with_max_local_variables(400);
    let shape = r.below(4);
    let need = |k: usize, rep: &mut Rep| -> Option<usize> {
        let body = match shape {
            0 => cmd.repeat(k),
            1 => format!("set \"i\" \"0\"; while \"i < {k}\" {{ let \"i\" \"i + 1\"; {cmd} }}"),
            2 => format!("if true {{ if not false {{ {} }} }}", cmd.repeat(k)),
            _ => format!("set \"i\" \"0\"; while \"i < {k}\" {{ let \"i\" \"i + 1\"; if header :is \"Subject\" \"Hello\" {{ {cmd} continue; }} }}"),
        };
        let s = match run::compile(&c, &body) {
            Ok(s) => s,
            Err(e) => {
                rep.fail("does not compile", format!("{e}\n{body}"));
                return None;
            }
        };
        let scripts = [Some(s), Some(run::compile(&c, inc).unwrap())];
        let w = W { scripts: &scripts, msg: b"From: a@b.org\r\nSubject: Hello\r\n\r\nx", host: Rng::new(1) };
        if w.run(5_000).errs().contains(&CUT) {
            rep.fail("the run does not end within a generous limit", format!("{body}"));
            return None;
        }
        Some(w.minimal(5_000))
    };
    let k = 3 + r.below(6);
    let (Some(a), Some(b), Some(d)) = (need(2, rep), need(3, rep), need(2 + 2 * k, rep)) else {
        return;
    };
    let step = b.saturating_sub(a);
    let what = format!("{cmd} shape {shape}: 2 copies need {a}, 3 need {b}, {} need {d}", 2 + 2 * k);
    if step == 0 {
        return rep.fail("a repeated command is not counted", what);
    }
    // host answers and one-time events may shift single steps
    let want = a + 2 * k * step;
    let slack = if cmd.contains("mailbox") || cmd.contains("include") || cmd.contains("replace") || cmd.contains("enclose") || cmd.contains("eval") { 2 * k } else { 0 };
    if d + slack < want || d > want + slack {
        return rep.fail("the cost of a repeated command is not constant", what);
    }
    rep.cover("scaling families");
    rep.ok(&(cmd, shape, k));
}

fn directed(rep: &mut Rep) {
    // k assignments need a limit of exactly k; so do k assignments over included scripts
    let c = run::compiler();
    for k in 1..60 {
        let s = run::compile(&c, &"set \"a\" \"b\";".repeat(k)).unwrap();
        let scripts = [Some(s)];
        let w = W { scripts: &scripts, msg: run::MSG, host: Rng::new(1) };
        let n = w.minimal(5_000);
        if n != k {
            rep.fail("k assignments do not need a limit of k", format!("{k} need {n}"));
        }
        rep.ok(&k);
    }
    // endless scripts of every kind end, with an error
    for s in [
        "while \"1\" {}",
        "while \"1\" { continue; }",
        "while \"1\" { eval \"q(1)\"; }",
        "while \"1\" { if mailboxexists \"x\" {} }",
        "while \"1\" { while \"1\" { break; } }",
        "while \"1\" { foreverypart { break; } }",
        "while \"1\" { include \"inc1\"; }",
        "while \"1\" { include \"nope\"; }",
        "while \"1\" { foreverypart { continue; } }",
        "while \"q(1) || 1\" { }",
        "while \"1\" { keep; discard; addflag \"x\"; }",
        "while \"1\" { notify \"xmpp:x\"; }",
        "while \"1\" { vacation \"x\"; }",
        "while \"1\" { addheader \"x\" \"y\"; keep; deleteheader \"x\"; }",
        "while \"1\" { let \"a\" \"t('x')\"; }",
    ] {
        let scripts = [Some(run::compile(&c, s).unwrap()), Some(run::compile(&c, "set \"x\" \"y\"; return;").unwrap())];
        let w = W { scripts: &scripts, msg: run::MSG, host: Rng::new(1) };
        for n in [0, 1, 2, 3, 10, 101, 1000] {
            let t = w.run(n);
            if t.errs() != [CUT] || t.broken().is_some() {
                rep.fail("an endless script is not ended by the limit", format!("{s}\nlimit {n}\n{}", t.show()));
            }
            if t.items.len() > 3 * n + 4 {
                rep.fail("an endless script emits more than its limit allows", format!("{s}\nlimit {n}: {} events", t.items.len()));
            }
            rep.ok(&(s, n));
        }
    }
}
