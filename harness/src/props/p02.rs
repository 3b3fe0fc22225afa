//! A run is total and follows the host protocol: whatever the script, the message, the limits and
//! the host's answers, it ends without a panic after a bounded number of events, errors are reported
//! once, and nothing follows the end.
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::Tr;
use crate::{gen, run, Prop};
use sieve::compiler::grammar::Capability;
use sieve::runtime::Variable;
use sieve::{Envelope, Event, Input, Runtime, Sieve};

pub const PROP: Prop = Prop { id: "P02", quick: 570_000, thorough: 4_000_000, directed, case };

pub fn any_variable(r: &mut Rng) -> Variable {
    match r.below(7) {
        0 => Variable::from(r.range(-3, 30)),
        1 => Variable::from(*r.pick(&[i64::MIN, i64::MAX, -1, 0])),
        2 => Variable::from(*r.pick(&[0.0f64, -1.5, 1e300, f64::NAN, f64::INFINITY])),
        3 => Variable::from("text".to_string()),
        4 => Variable::from(r.string(&["a", "${1}", "\r\n", "\u{0}", "\u{1F600}", "9", " "], 6)),
        5 => Variable::Array(vec![Variable::from(1i64), Variable::from("x".to_string())].into()),
        _ => Variable::default(),
    }
}

fn random_runtime(r: &mut Rng, cpu: usize) -> Runtime {
    let mut rt = run::runtime().with_cpu_limit(cpu);
    let small = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 5, 100]);
    if r.chance(1, 2) {
        rt = rt
            .with_max_nested_includes(small(r))
            .with_max_redirects(small(r))
            .with_max_out_messages(small(r))
            .with_max_received_headers(small(r))
            .with_max_variable_size(small(r))
            .with_max_header_size(small(r));
    }
    if r.chance(1, 4) {
        let all: Vec<_> = Capability::all().iter().collect();
        for _ in 0..1 + r.below(4) {
            rt = rt.without_capability((*r.pick(&all)).clone());
        }
    }
    if r.chance(1, 4) {
        rt = rt.with_env_variable("x", "y").with_local_hostname("mx.example.org").with_vacation_use_orig_rcpt(r.chance(1, 2));
    }
    rt
}

fn one(rep: &mut Rep, r: &mut Rng, texts: &[String; 3], msg: &[u8], wild: bool) {
    let c = run::compiler().with_max_local_variables(400).with_max_match_variables(63).with_no_capability_check(r.chance(2, 3));
    let cpu = *r.pick(&[50usize, 500, 2_000, 2_000]);
    let rt = random_runtime(r, cpu);
    let show = || format!("script:\n{}\n-- inc1:\n{}\n-- inc2:\n{}\nmessage:\n{}", texts[0], texts[1], texts[2], String::from_utf8_lossy(msg));
    rep.current = show();
    if rep.verbose {
        println!("{}", rep.current);
    }
    let mut scripts: Vec<Option<Sieve>> = vec![];
    for t in texts {
        scripts.push(match run::compile(&c, t) {
            Ok(s) => Some(s),
            Err(e) if e.starts_with("compile panic") => return rep.fail("compiling panics", e + "\n" + &show()),
            Err(_) => None,
        });
    }
    let Some(main) = scripts[0].clone() else {
        rep.cover("main script rejected");
        rep.trivial();
        return;
    };
    rep.phase("parse");
    let mut ctx = match run::no_panic(|| rt.filter(msg)) {
        Ok(c) => c,
        Err(_) => {
            // a defect of the message parser, not of this crate
            rep.cover("message parser panics");
            return;
        }
    };
    rep.phase("run");
    if !gen::well_formed(ctx.message()) {
        rep.cover("message parser returns no tree");
        return;
    }
    if r.chance(2, 3) {
        run::std_context(&mut ctx);
    }
    if r.chance(1, 3) {
        ctx.set_envelope(Envelope::Orcpt, "rfc822;x@y.org");
        ctx.set_envelope(Envelope::ByTimeAbsolute, "1");
        ctx.set_user_full_name("Q \"R\"");
        ctx.set_env_variable("location", "MTA");
        ctx.set_global_variable("g", "v");
        ctx.set_spam_status(sieve::SpamStatus::MaybeSpam(0.3));
    }
    let mut answers = r.clone();
    let mut questions = 0u64;
    let tr = run::drive(&mut ctx, main.clone(), cpu * 4 + 200, &mut |ev| {
        if wild {
            // answers of any kind, whatever was asked
            return match answers.below(6) {
                0 => Input::False,
                1 => Input::FncResult(any_variable(&mut answers)),
                2 => Input::script("inc1", main.clone()),
                _ => Input::True,
            };
        }
        match ev {
            Event::Function { .. } => {
                questions += 1;
                Input::FncResult(any_variable(&mut answers))
            }
            Event::IncludeScript { name, .. } => {
                questions += 1;
                let k = match name.as_str().as_str() {
                    "inc1" => 1,
                    "inc2" => 2,
                    _ => 9,
                };
                match scripts.get(k) {
                    Some(Some(s)) => Input::Script { name: name.clone(), script: s.clone().into() },
                    _ => Input::False,
                }
            }
            Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => {
                questions += 1;
                if answers.chance(1, 2) {
                    Input::True
                } else {
                    Input::False
                }
            }
            _ => Input::True,
        }
    });
    if let Some(p) = &tr.panic {
        if p.starts_with("Failed to compile regex") {
            return rep.known.push(format!("regex-debug-assert {p}"));
        }
        let stars = "*".repeat(40);
        if p.starts_with("attempt to shift left with overflow at") && p.contains("tests/glob.rs") && texts.iter().any(|s| s.contains(&stars)) {
            return rep.known.push(format!("glob-shift {p}"));
        }
        return rep.fail("the run panics", format!("{p}\n{}\n{}", show(), tr.show()));
    }
    if tr.runaway {
        return rep.fail("the run does not end in time", format!("cpu limit {cpu}\n{}", show()));
    }
    if let (Some(p), false) = (tr.protocol.first(), wild) {
        return rep.fail("host protocol broken", format!("{p}\n{}\n{}", show(), tr.show()));
    }
    if !wild {
        for e in tr.errs() {
            rep.cover(&format!("error:{}", e.split('(').next().unwrap()));
            if e.starts_with("InvalidInstruction") {
                rep.fail("a compiled script has an invalid instruction", format!("{e}\n{}", show()));
            }
        }
        let rejected = tr.events().any(|e| matches!(e, Event::Reject { .. } | Event::FileInto { .. } | Event::SendMessage { .. }));
        let last_ok = matches!(tr.items.last(), Some(Tr::Ev(Event::Keep { .. } | Event::Discard)));
        if !last_ok && !rejected {
            rep.fail("the run ends without a final disposition", format!("{}\n{}", show(), tr.show()));
        }
        for e in tr.events() {
            let d = format!("{e:?}");
            rep.cover(&format!("event:{}", d.chars().take_while(|c| c.is_alphanumeric()).collect::<String>()));
        }
        rep.cover_n("questions answered", questions);
    } else {
        rep.cover("runs with answers of the wrong kind");
    }
    if tr.items.len() > 1 {
        rep.ok(&(texts, msg, cpu));
    } else {
        rep.trivial();
    }
    rep.sample(|| format!("{}=> {}", texts[0], tr.show()));
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut texts: [String; 3] = Default::default();
    for (i, t) in texts.iter_mut().enumerate() {
        *t = gen::script(r, gen::Opts { max_stmts: if i == 0 { 10 } else { 4 }, ..Default::default() }).0;
    }
    let msg = if r.chance(1, 2) { gen::message(r) } else { gen::hostile_message(r) };
    if msg.is_empty() {
        return;
    }
    let wild = r.chance(1, 6);
    one(rep, r, &texts, &msg, wild);
}

fn directed(rep: &mut Rep) {
    let mut r = Rng::new(rep.seed);
    let bad = "require [\"variables\", \"regex\"]; set \"v\" \"(\"; if string :regex \"x\" \"${v}\" { discard; }".to_string();
    let stars = format!("require [\"variables\", \"fileinto\"]; if string :matches \"abc\" \"{}\" {{ fileinto \"[${{0}}${{5}}]\"; }}", "*".repeat(70));
    // under several random limits and sets of capabilities
    for _ in 0..20 {
        one(rep, &mut r, &[bad.clone(), "keep;".into(), "stop;".into()], run::MSG, false);
        one(rep, &mut r, &[stars.clone(), "keep;".into(), "stop;".into()], run::MSG, false);
    }
    for n in [1, 29, 30, 59, 60, 61, 62, 63, 64, 65, 70, 200] {
        let (v, k) = ("ab".repeat(n), "?".repeat(n));
        let t = format!("require \"variables\"; if string :matches \"{v}\" [\"{k}\", \"{k}*\", \"*{k}\", \"{k}?*\"] {{ fileinto \"[${{0}}${{29}}]\"; }}");
        one(rep, &mut r, &[t, "keep;".into(), "stop;".into()], run::MSG, false);
        let t = format!("require [\"variables\", \"regex\"]; if string :regex \"{v}\" \"{}\" {{ fileinto \"[${{0}}${{29}}]\"; }}", "(a)(b)".repeat(n));
        one(rep, &mut r, &[t, "keep;".into(), "stop;".into()], run::MSG, false);
    }
    // messages cut at every byte
    for _ in 0..4 {
        let (s, _) = gen::script(&mut r, gen::Opts { max_stmts: 12, ..Default::default() });
        let m = gen::message(&mut r);
        for i in 1..m.len() {
            one(rep, &mut r, &[s.clone(), "keep;".into(), "stop;".into()], &m[..i], false);
        }
    }
}
