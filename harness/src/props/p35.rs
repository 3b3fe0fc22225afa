//! A text does the same written down and held by a variable.
use crate::props::p29::{value_len, ARG};
use crate::gen::{self, Gen, Opts, Tok};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Trace};
use crate::Prop;
use sieve::compiler::Number;
use sieve::runtime::Variable;
use sieve::{Context, Envelope, Event, Input, Runtime, Sieve};

pub const PROP: Prop = Prop { id: "P35", quick: 160_000, thorough: 3_000_000, directed, case };

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Script,
    Local,
    DeepLocal,
    Global,
    HostGlobal,
    Env,
    Match,
    Include,
}
const KINDS: &[Kind] = &[Kind::Script, Kind::Local, Kind::Local, Kind::DeepLocal, Kind::Global, Kind::HostGlobal, Kind::Env, Kind::Match, Kind::Include];

fn name(k: Kind, i: usize) -> String {
    match k {
        Kind::HostGlobal => format!("global.zz{i}"),
        Kind::Env => format!("env.zz{i}"),
        Kind::Match => format!("{}", i + 1),
        _ => format!("zz{i}"),
    }
}
fn numeric(s: &str) -> bool {
    s.trim().parse::<f64>().is_ok()
}

/// Where a string stands: the command or test, the tag or the number of the argument, and how
/// many arguments there are.
fn place(toks: &[Tok], at: usize) -> (String, String, usize) {
    let Some(start) = (0..at).rev().find(|i| matches!(toks[*i], Tok::W(_))) else { return Default::default() };
    let Tok::W(w) = &toks[start] else { unreachable!() };
    let mut i = start + 1;
    let mut n = 0;
    let mut found = String::new();
    loop {
        match toks.get(i) {
            Some(Tok::Tag(t)) => {
                let l = if ARG.contains(&t.as_str()) && t != "originalzone" { value_len(&toks[i + 1..]) } else if t == "replace" && w == "set" { 2 } else { 0 };
                if i < at && at <= i + l {
                    found = format!(":{t}");
                }
                i += 1 + l;
            }
            Some(Tok::S(_) | Tok::N(_) | Tok::P('[')) => {
                let l = value_len(&toks[i..]);
                if i <= at && at < i + l {
                    found = n.to_string();
                }
                n += 1;
                i += l;
            }
            _ => break,
        }
    }
    (w.clone(), found, n)
}
fn constant(p: &(String, String, usize)) -> bool {
    matches!(
        (p.0.as_str(), p.1.as_str(), p.2),
        ("addflag" | "setflag" | "removeflag" | "hasflag", "0", 2) | ("set", "0", _) | ("date" | "currentdate", ":zone", _) | ("date", "1", _) | ("currentdate" | "envelope" | "environment", "0", _) | ("redirect", ":bymode" | ":notify" | ":ret", _)
    )
}

/// A run against a host whose answers depend on the questions only.
pub fn exec(rt: &Runtime, msg: &[u8], s: &Sieve, lib: &[(&str, Option<&Sieve>)], set: impl Fn(&mut Context)) -> Trace {
    let mut ctx = rt.filter(msg);
    run::std_context(&mut ctx);
    ctx.set_envelope(Envelope::From, "sender@remote.org");
    ctx.set_envelope(Envelope::To, "me@example.org");
    set(&mut ctx);
    let mut k = 0u32;
    run::drive(&mut ctx, s.clone(), 400, &mut |ev| {
        k += 1;
        match ev {
            Event::IncludeScript { name, .. } => match lib.iter().find(|l| l.0 == name.as_str()) {
                Some((n, Some(s))) => Input::script(n.to_string(), (*s).clone()),
                _ => Input::False,
            },
            Event::Function { .. } => Input::FncResult(Variable::from(Number::Integer((k % 3) as i64))),
            Event::CreatedMessage { .. } => Input::True,
            // ids may be random ones
            Event::DuplicateId { .. } => if k % 3 == 0 { Input::True } else { Input::False },
            _ => {
                // the answer depends on the question
                let h = run::canon(&format!("{ev:?}")).bytes().fold(7u32, |h, c| h.wrapping_mul(31).wrapping_add(c as u32));
                if h >> 7 & 1 == 0 { Input::True } else { Input::False }
            }
        }
    })
}
pub fn show(t: &Trace) -> Vec<String> {
    let mut o = run::canon_items(&t.items);
    for (k, m) in &t.msgs {
        o.push(format!("message {k}: {}", run::canon_msg(m)));
    }
    o
}

/// Whether a script makes a message with ids of its own and may look into it: encoded or cut ids
/// are not recognised as such.
pub fn random_ids(t: &str) -> bool {
    let l = t.to_lowercase();
    ["enclose ", "replace "].iter().any(|k| l.contains(k)) && ["essage-id", "content-type", "size ", "header.*", "body", "part."].iter().any(|k| l.contains(k))
}

fn head(kind: Kind, values: &[String]) -> String {
    match kind {
        Kind::Global | Kind::Include if !values.is_empty() => format!("global [{}];\n", (0..values.len()).map(|i| format!("\"zz{i}\"")).collect::<Vec<_>>().join(",")),
        _ => String::new(),
    }
}
fn sets(kind: Kind, values: &[String]) -> String {
    values.iter().enumerate().map(|(i, v)| format!("set {}\"{}\" {};\n", if matches!(kind, Kind::Local | Kind::DeepLocal) { ":local " } else { "" }, name(Kind::Script, i), gen::quote(v))).collect()
}

fn go(rep: &mut Rep, r: &mut Rng, toks: &[Tok], caps: &std::collections::BTreeSet<&'static str>, msg: &[u8], kind: Kind, wanted: &[usize]) {
    let c = run::compiler().with_max_local_variables(300).with_max_match_variables(63);
    let matching = toks.iter().any(|t| matches!(t, Tok::Tag(t) if t == "matches" || t == "regex"));
    if kind == Kind::Match && matching {
        return rep.cover("script with matches of its own");
    }
    // names and key words have to be written down
    let eligible = |i: usize| -> Option<&str> {
        let Tok::S(s) = &toks[i] else { return None };
        if s.contains("${") || s.contains("%{") {
            return None;
        }
        let (w, p, _) = place(toks, i);
        match (w.as_str(), p.as_str()) {
            ("require" | "let" | "eval" | "while" | "include" | "global" | "foreverypart" | "break" | "ihave" | "error" | "extracttext", _) => None,
            (_, ":value" | ":count" | ":comparator") => None,
            _ => Some(s),
        }
    };
    let plain = gen::render(toks);
    let Ok(_) = run::compile(&c, &plain) else { return rep.trivial() };
    let build = |values: &[String], n: &str| -> (String, String) {
        let p = &plain;
        let mut req = caps.clone();
        req.insert("variables");
        if matches!(kind, Kind::Global | Kind::Include) {
            req.insert("include");
        }
        let head = head(kind, values);
        let sets = sets(kind, values);
        let (a, b) = match kind {
            Kind::Script => (format!("{sets}{p}"), format!("{sets}{n}")),
            Kind::Local => (format!("if true {{\n{sets}}}\n{p}"), format!("if true {{\n{sets}}}\n{n}")),
            Kind::DeepLocal => {
                let d = format!("if true {{ set \"q\" \"none\"; if not false {{\nif anyof(false, true) {{\n{sets}}} set \"q2\" \"none\"; }} }}\n");
                (format!("{d}{p}"), format!("{d}{n}"))
            }
            Kind::Global => (format!("{head}{sets}{p}"), format!("{head}{sets}{n}")),
            Kind::Include => (format!("{head}include \"zz\";\n{p}"), format!("{head}include \"zz\";\n{n}")),
            Kind::HostGlobal | Kind::Env => (p.clone(), n.to_string()),
            Kind::Match => {
                let val: String = values.iter().map(|v| format!("{v}\u{1}")).collect();
                (format!("if true {{\n{p}}}\n"), format!("if string :matches {} \"{}\" {{\n{n}}}\n", gen::quote(&val), "*\u{1}".repeat(values.len())))
            }
        };
        let q = gen::require(&req);
        (format!("{q}{a}"), format!("{q}{b}"))
    };
    let mut new: Vec<Tok> = toks.to_vec();
    let mut values: Vec<String> = vec![];
    let mut places = vec![];
    for &i in wanted {
        let Some(s) = eligible(i) else { continue };
        if values.len() >= 5 {
            break;
        }
        let mut text = String::new();
        let mut vals = vec![];
        if numeric(s) {
            // numbers stay numbers
            if !matches!(kind, Kind::Script | Kind::Local | Kind::DeepLocal | Kind::Global | Kind::Include) {
                continue;
            }
            text = format!("${{{}}}", name(kind, values.len()));
            vals.push(s.to_string());
        } else {
            // all of it, its beginning, its end, what is in between, or two variables
            let cs: Vec<usize> = s.char_indices().map(|c| c.0).chain([s.len()]).collect();
            let mut cut = vec![0, cs[r.below(cs.len())], cs[r.below(cs.len())], s.len()];
            match r.below(4) {
                0 => cut[1] = s.len(),
                1 => cut[1] = 0,
                _ => (),
            }
            cut.sort();
            let which = if r.chance(1, 2) { 0 } else { 1 + r.below(7) };
            if which == 0 || s.is_empty() {
                text = format!("${{{}}}", name(kind, values.len()));
                vals.push(s.to_string());
            } else {
                for k in 0..3 {
                    let p = &s[cut[k]..cut[k + 1]];
                    if which >> k & 1 == 1 && !numeric(p) && values.len() + vals.len() < 8 {
                        text += &format!("${{{}}}", name(kind, values.len() + vals.len()));
                        vals.push(p.to_string());
                    } else {
                        text += p;
                    }
                }
            }
            // a dollar sign before a reference, or what would be read as another one
            if text.replace("${", "").contains('$') {
                text = format!("${{{}}}", name(kind, values.len()));
                vals = vec![s.to_string()];
            }
        }
        if vals.is_empty() {
            continue;
        }
        let old = std::mem::replace(&mut new[i], Tok::S(text));
        let mut all = values.clone();
        all.extend(vals.iter().cloned());
        if run::compile(&c, &build(&all, &gen::render(&new)).1).is_err() {
            let p = place(toks, i);
            if !constant(&p) {
                let text = build(&all, &gen::render(&new)).1;
                rep.current = text.clone();
                return rep.fail("refused", format!("{p:?} {:?}\n{text}", run::compile(&c, &text).err()));
            }
            rep.cover(&format!("has to be a constant: {} {}", p.0, p.1));
            new[i] = old;
            continue;
        }
        places.push(place(toks, i));
        values.extend(vals);
    }
    if values.is_empty() {
        return rep.trivial();
    }
    let (a, b) = build(&values, &gen::render(&new));
    rep.current = format!("{kind:?} {values:?}\n{b}\n---- for\n{a}\n{}", String::from_utf8_lossy(msg));
    let cur = rep.current.clone();
    let (x, y) = match (run::compile(&c, &a), run::compile(&c, &b)) {
        (Ok(x), Ok(y)) => (x, y),
        // a block more
        (Err(x), Err(y)) => return if x == y { rep.trivial() } else { rep.fail("another error", format!("{x}\n{y}\n{cur}")) },
        (x, y) => return rep.fail("refused", format!("{:?} {:?}\n{cur}", x.err(), y.err())),
    };
    let rt = run::runtime().with_valid_notification_uri("xmpp").with_max_variable_size(1 << 16).with_cpu_limit(3000);
    let zz = run::compile(&c, &format!("require [\"include\", \"variables\"];\n{}{}", head(kind, &values), sets(kind, &values))).ok();
    let exec = |s: &Sieve| -> Trace {
        exec(&rt, msg, s, &[("zz", zz.as_ref())], |ctx| {
            for (i, v) in values.iter().enumerate() {
                match kind {
                    Kind::HostGlobal => ctx.set_global_variable(format!("zz{i}"), v.clone()),
                    Kind::Env => ctx.set_env_variable(format!("zz{i}"), v.clone()),
                    _ => (),
                }
            }
        })
    };
    rep.ok(&cur);
    let mut last = None;
    for _ in 0..4 {
        let (t, u) = (exec(&x), exec(&y));
        if let Some(e) = t.broken().or(u.broken()) {
            return if t.panic.is_some() == u.panic.is_some() { rep.cover("broken both ways") } else { rep.fail("broken", format!("{e}\n{cur}")) };
        }
        if t.errs().iter().chain(&u.errs()).any(|e| e.contains("CPU")) {
            return rep.cover("out of time");
        }
        let (v, w) = (show(&t), show(&u));
        if v == w {
            for (w, p, _) in &places {
                rep.cover(&format!("{w} {p}"));
            }
            rep.cover(&format!("{kind:?}"));
            rep.cover_n("events compared", v.len() as u64);
            if t.msgs.len() > 0 {
                rep.cover("messages compared");
            }
            rep.sample(|| cur.clone());
            return;
        }
        last = Some((v, w));
    }
    let (v, w) = last.unwrap();
    if random_ids(&b) {
        return rep.cover("ids made at random may have been looked at");
    }
    let k = v.iter().zip(&w).take_while(|(a, b)| a == b).count();
    rep.fail("different", format!("written down {:#?}\nheld by variables {:#?}\n{cur}", v.get(k), w.get(k)));
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut g = Gen::new(r, Opts { hostile: false, ..Default::default() });
    g.script();
    let (toks, caps) = (g.out, g.caps);
    let mut at: Vec<usize> = toks.iter().enumerate().filter(|(_, t)| matches!(t, Tok::S(_))).map(|t| t.0).collect();
    if at.is_empty() {
        return rep.trivial();
    }
    r.shuffle(&mut at);
    let msg = gen::message(r);
    if !run::parses(&msg) {
        return rep.cover("message that mail-parser does not read");
    }
    let kind = *r.pick(KINDS);
    go(rep, r, &toks, &caps, &msg, kind, &at);
}

fn directed(rep: &mut Rep) {
    let _ = rep;
}
