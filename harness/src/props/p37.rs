//! What is never run, and what adds nothing, has no effect.
use crate::gen::{self, Gen, Opts, Tok};
use crate::props::p35::{exec, random_ids, show};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop { id: "P37", quick: 350_000, thorough: 8_000_000, directed, case };

fn w(s: &str) -> Tok {
    Tok::W(s.into())
}
const STRANGE: &[&str] = &["nosuch", "frob", "x_y", "Vibrate", "fileintoo", "iff"];

/// What may stand behind a name nobody knows.
fn strange_args(r: &mut Rng, o: &mut Vec<Tok>, depth: usize, test: bool) {
    let list = |r: &mut Rng, o: &mut Vec<Tok>| {
        o.push(Tok::P('['));
        for i in 0..r.below(4) {
            if i > 0 {
                o.push(Tok::P(','));
            }
            o.push(Tok::S(r.pick(&["a", "}", "]", ")", ";", "{", "x;y", "\"", ",", ""]).to_string()));
        }
        o.push(Tok::P(']'));
    };
    for _ in 0..r.below(5) {
        match r.below(if depth > 0 { 6 } else { 4 }) {
            0 => o.push(Tok::Tag(r.pick(&["is", "copy", "mime", "count", "flags", "list"]).to_string())),
            1 => o.push(Tok::N(r.pick(&["1", "20K", "0"]).to_string())),
            2 => o.push(Tok::S(r.pick(&["a", "};", "{", "b, c", "[", "(", ")", "${x}"]).to_string())),
            3 => list(r, o),
            4 => {
                o.push(Tok::P('('));
                for i in 0..1 + r.below(3) {
                    if i > 0 {
                        o.push(Tok::P(','));
                    }
                    o.push(w(r.pick(&["header", "nosuch", "not", "anyof", "true", "frob"])));
                    strange_args(r, o, depth - 1, test);
                }
                o.push(Tok::P(')'));
            }
            // a name
            _ => o.push(w(r.pick(&["header", "nosuch", "true", "keep"]))),
        }
    }
}
pub fn strange(r: &mut Rng, depth: usize) -> Vec<Tok> {
    // (a test is no command)
    let mut o = vec![w(if r.chance(1, 4) { *r.pick(&["header", "true", "anyof", "exists", "elsewhere"]) } else { *r.pick(STRANGE) })];
    strange_args(r, &mut o, 2, false);
    if depth == 0 || r.chance(1, 2) {
        o.push(Tok::P(';'));
        return o;
    }
    o.push(Tok::P('{'));
    for _ in 0..r.below(3) {
        match r.below(3) {
            0 => o.extend(strange(r, depth - 1)),
            1 => o.extend([w(r.pick(&["keep", "stop", "discard", "break", "nosuch"])), Tok::P(';')]),
            _ => o.extend(block(vec![w("if"), w(r.pick(&["true", "false", "nosuch"]))], strange(r, depth - 1))),
        }
    }
    o.push(Tok::P('}'));
    o
}
pub fn strange_test(r: &mut Rng) -> Vec<Tok> {
    let mut o = vec![w(if r.chance(1, 4) { *r.pick(&["keep", "fileinto", "stop", "over"]) } else { *r.pick(STRANGE) })];
    strange_args(r, &mut o, 2, true);
    o
}

/// Commands that will never be run.
fn dead(r: &mut Rng, caps: &mut BTreeSet<&'static str>, max: usize) -> Vec<Tok> {
    let ihave = caps.contains("ihave");
    let mut o = vec![];
    if ihave && r.chance(1, 2) {
        o.extend(strange(r, 2));
    }
    o.extend(dead1(r, caps, max));
    if ihave && r.chance(1, 2) {
        o.extend(strange(r, 2));
    }
    o
}
fn dead1(r: &mut Rng, caps: &mut BTreeSet<&'static str>, max: usize) -> Vec<Tok> {
    for _ in 0..5 {
        let (toks, c) = {
            let mut g = Gen::new(r, Opts { max_stmts: max, loops: true, ..Default::default() });
            g.script();
            (std::mem::take(&mut g.out), std::mem::take(&mut g.caps))
        };
        // declarations for the rest of the script, and references that make tests capture
        let bad = toks.iter().any(|t| match t {
            Tok::W(w) => w == "global" || w == "ihave",
            Tok::Tag(t) => t == "local",
            Tok::S(s) => s.match_indices("${").any(|(i, _)| s[i + 2..].starts_with(|c: char| c.is_ascii_digit())),
            _ => false,
        });
        if !bad {
            caps.extend(c);
            return toks;
        }
    }
    vec![w("keep"), Tok::P(';')]
}
fn dead_test(r: &mut Rng, caps: &mut BTreeSet<&'static str>) -> Vec<Tok> {
    if caps.contains("ihave") && r.chance(1, 2) {
        return strange_test(r);
    }
    for _ in 0..5 {
        let (toks, c) = {
            let mut g = Gen::new(r, Opts::default());
            g.test(1);
            (std::mem::take(&mut g.out), std::mem::take(&mut g.caps))
        };
        // its captures would belong to the block around
        let bad = toks.iter().any(|t| match t {
            Tok::W(w) => w == "ihave",
            Tok::Tag(t) => t == "matches" || t == "regex",
            Tok::S(s) => s.match_indices("${").any(|(i, _)| s[i + 2..].starts_with(|c: char| c.is_ascii_digit())),
            _ => false,
        });
        // variables named by a test of flags live in the block around it
        let flags = toks.iter().any(|t| *t == w("hasflag"));
        if !bad && !flags {
            caps.extend(c);
            return toks;
        }
    }
    vec![w("true")]
}

pub fn block(mut head: Vec<Tok>, body: Vec<Tok>) -> Vec<Tok> {
    head.push(Tok::P('{'));
    head.extend(body);
    head.push(Tok::P('}'));
    head
}

fn change(r: &mut Rng, toks: &[Tok], caps: &mut BTreeSet<&'static str>, seen: &mut Vec<&'static str>) -> Vec<Tok> {
    let mut o = vec![];
    let mut i = 0;
    let mut brackets = 0;
    while i < toks.len() {
        match &toks[i] {
            Tok::P('[' | '(') => brackets += 1,
            Tok::P(']' | ')') => brackets -= 1,
            _ => (),
        }
        let start = brackets == 0
            && (i == 0 || matches!(toks[i - 1], Tok::P(';' | '{' | '}')))
            && !matches!(&toks[i], Tok::W(n) if n == "elsif" || n == "else" || n == "require");
        let after_if = i > 0 && matches!(toks[i - 1], Tok::P('}')) && matches!(&toks[i], Tok::W(n) if n == "elsif" || n == "else");
        if start && r.chance(1, 6) {
            match r.below(6) {
                0 => {
                    o.extend(block(vec![w("if"), w("false")], dead(r, caps, 3)));
                    seen.push("if false");
                }
                1 => {
                    o.extend(block(vec![w("if"), w("true")], vec![]));
                    o.extend(block(vec![w("else")], dead(r, caps, 3)));
                    seen.push("else of what is true");
                }
                2 => {
                    o.extend(block(vec![w("if"), w("not"), w("anyof"), Tok::P('('), w("false"), Tok::P(','), w("true"), Tok::P(')')], dead(r, caps, 2)));
                    o.extend(block(vec![w("elsif"), w("allof"), Tok::P('('), w("true"), Tok::P(','), w("false"), Tok::P(')')], dead(r, caps, 2)));
                    seen.push("elsif that does not hold");
                }
                3 => {
                    caps.insert("vnd.stalwart.while");
                    caps.insert("vnd.stalwart.expressions");
                    o.extend(block(vec![w("while"), Tok::S("1 == 2".into())], dead(r, caps, 2)));
                    seen.push("while that does not hold");
                }
                4 => {
                    let mut t = vec![w("if"), w("allof"), Tok::P('('), w("false"), Tok::P(',')];
                    t.extend(dead_test(r, caps));
                    t.push(Tok::P(')'));
                    o.extend(block(t, dead(r, caps, 2)));
                    seen.push("test that is not needed");
                }
                _ => {
                    // something that declares nothing
                    o.extend(block(vec![w("if"), w("not"), w("false")], vec![]));
                    seen.push("empty block");
                }
            }
        } else if after_if && r.chance(1, 3) {
            o.extend(block(vec![w("elsif"), w("false")], dead(r, caps, 2)));
            seen.push("elsif false");
        }
        o.push(toks[i].clone());
        let is_if = brackets == 0 && matches!(&toks[i], Tok::W(n) if n == "if" || n == "elsif");
        i += 1;
        if is_if && r.chance(1, 3) {
            // a test written in another way
            let end = (i..toks.len()).find(|k| toks[*k] == Tok::P('{')).unwrap();
            let t = &toks[i..end];
            let wrap = |o: &mut Vec<Tok>, pre: &[Tok], post: &[Tok]| {
                o.extend_from_slice(pre);
                o.extend_from_slice(t);
                o.extend_from_slice(post);
            };
            let p = |c| Tok::P(c);
            match r.below(6) {
                0 => wrap(&mut o, &[w("not"), w("not")], &[]),
                1 => wrap(&mut o, &[w("anyof"), p('(')], &[p(')')]),
                2 => wrap(&mut o, &[w("allof"), p('('), w("true"), p(',')], &[p(')')]),
                3 => wrap(&mut o, &[w("anyof"), p('('), w("false"), p(',')], &[p(',') , w("false"), p(')')]),
                4 => wrap(&mut o, &[w("not"), w("allof"), p('('), w("not")], &[p(','), w("true"), p(')')]),
                _ => {
                    let mut pre = vec![w("anyof"), p('('), w("allof"), p('('), w("false"), p(',')];
                    pre.extend(dead_test(r, caps));
                    pre.extend([p(')'), p(',')]);
                    wrap(&mut o, &pre, &[p(')')]);
                }
            }
            seen.push("test");
            i = end;
        }
        // what follows the end
        if brackets == 0 && i >= 2 && toks[i - 1] == Tok::P(';') && matches!(&toks[i - 2], Tok::W(n) if n == "stop" || n == "break" || n == "continue" || n == "return") && r.chance(1, 3) {
            o.extend(block(vec![w("if"), w("true")], dead(r, caps, 2)));
            seen.push("after the end");
        }
    }
    if r.chance(1, 3) {
        o.extend([w("stop"), Tok::P(';')]);
        o.extend(dead(r, caps, 3));
        seen.push("after stop");
    }
    o
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let (toks, mut caps) = {
        let mut g = Gen::new(r, Opts::default());
        g.script();
        (std::mem::take(&mut g.out), std::mem::take(&mut g.caps))
    };
    if toks.is_empty() || toks.iter().any(|t| *t == w("ihave")) {
        return rep.trivial();
    }
    let mut seen = vec![];
    let ihave = r.chance(1, 3);
    if ihave {
        caps.insert("ihave");
    }
    let (mut toks, mut new) = (toks, vec![]);
    let mut reached = String::new();
    if ihave && r.chance(1, 3) {
        // a command or test nobody knows ends the script where it is reached, as error does
        let mut places: Vec<usize> = vec![0, toks.len()];
        let mut brackets = 0;
        for i in 0..toks.len() {
            match &toks[i] {
                Tok::P('[' | '(') => brackets += 1,
                Tok::P(']' | ')') => brackets -= 1,
                Tok::P(';' | '{' | '}') if brackets == 0 && !matches!(toks.get(i + 1), Some(Tok::W(n)) if n == "elsif" || n == "else") => places.push(i + 1),
                _ => (),
            }
        }
        let at = *r.pick(&places);
        let end = toks.split_off(at);
        new = toks.clone();
        toks.extend([w("error"), Tok::S("zq".into()), Tok::P(';')]);
        let s = if r.chance(1, 2) {
            strange(r, 2)
        } else {
            let t = strange_test(r);
            let Tok::W(n) = &t[0] else { unreachable!() };
            reached = n.clone();
            let p = |c| Tok::P(c);
            let test = match r.below(5) {
                0 => [vec![w("not")], t].concat(),
                1 => [vec![w("allof"), p('('), w("true"), p(',')], t, vec![p(','), w("false"), p(')')]].concat(),
                2 => [vec![w("anyof"), p('(')], t, vec![p(','), w("true"), p(')')]].concat(),
                3 => [vec![w("not"), w("anyof"), p('('), w("false"), p(','), w("not")], t, vec![p(','), w("allof"), p('('), w("true"), p(')'), p(')')]].concat(),
                _ => t,
            };
            block([vec![w("if")], test].concat(), dead(r, &mut caps, 2))
        };
        if reached.is_empty() {
            let Tok::W(n) = &s[0] else { unreachable!() };
            reached = n.clone();
        }
        new.extend(s);
        toks.extend(end.clone());
        new.extend(end);
        seen.push("reached");
    } else {
        new.extend(change(r, &toks, &mut caps, &mut seen));
        if ihave {
            seen.push("commands and tests nobody knows");
        }
    }
    if seen.is_empty() {
        return rep.trivial();
    }
    let lib_toks = if toks.iter().any(|t| *t == w("include")) { dead(r, &mut BTreeSet::new(), 3) } else { vec![] };
    let c = run::compiler().with_max_local_variables(400).with_max_match_variables(63).with_max_nested_blocks(40).with_max_nested_tests(40).with_max_nested_foreverypart(10).with_max_includes(100);
    let q = gen::require(&caps);
    let (a, b) = (format!("{q}{}", gen::render(&toks)), format!("{q}{}", gen::render(&new)));
    let msg = gen::message(r);
    if !run::parses(&msg) {
        return rep.cover("message that mail-parser does not read");
    }
    rep.current = format!("{b}\n---- for\n{a}\n---- including\n{}\n{}", gen::render(&lib_toks), String::from_utf8_lossy(&msg));
    let cur = rep.current.clone();
    let (x, y) = match (run::compile(&c, &a), run::compile(&c, &b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), _) => return rep.trivial(),
        // the generator does not know about labels and scopes around what it adds
        (Ok(_), Err(e)) if ["LabelAlreadyDefined", "VariableIsLocal", "InvalidExpression", "InvalidMatchVariable"].iter().any(|k| e.contains(k)) => return rep.cover("added what is not allowed here"),
        (Ok(_), Err(e)) => return rep.fail("refused", format!("{e}\n{cur}")),
    };
    let lib = run::compile(&c, &gen::render(&lib_toks)).ok();
    let rt = run::runtime().with_valid_notification_uri("xmpp").with_cpu_limit(4000);
    rep.ok(&cur);
    let mut last = None;
    for _ in 0..4 {
        let lib = [("inc1", lib.as_ref())];
        let (t, u) = (exec(&rt, &msg, &x, &lib, |_| ()), exec(&rt, &msg, &y, &lib, |_| ()));
        if let Some(e) = t.broken().or(u.broken()) {
            return if t.panic.is_some() == u.panic.is_some() { rep.cover("broken both ways") } else { rep.fail("broken", format!("{e}\n{cur}")) };
        }
        if t.errs().iter().chain(&u.errs()).any(|e| e.contains("CPU")) {
            return rep.cover("out of time");
        }
        let (v, mut w) = (show(&t), show(&u));
        if !reached.is_empty() {
            for l in &mut w {
                *l = l.replace(&format!("InvalidInstruction({})", reached.to_lowercase()), "ScriptErrorMessage(zq)");
            }
        }
        if v == w {
            if v.iter().any(|l| l.contains("ScriptErrorMessage(zq)")) {
                rep.cover("unknown command or test reached");
            }
            for s in &seen {
                rep.cover(s);
            }
            rep.cover_n("events compared", v.len() as u64);
            if !t.msgs.is_empty() {
                rep.cover("messages compared");
            }
            rep.sample(|| cur.clone());
            return;
        }
        last = Some((v, w));
    }
    let (v, w) = last.unwrap();
    if random_ids(&b) {
        return rep.cover("ids made at random may have been looked at");
    }
    let k = v.iter().zip(&w).take_while(|(a, b)| a == b).count();
    rep.fail("different", format!("{seen:?}\nwithout {:#?}\nwith {:#?}\n{cur}", v.get(k), w.get(k)));
}

fn directed(_: &mut Rep) {}
