//! A compiled script survives being written and read, by serde and by rkyv.
use crate::report::Rep;
use crate::rng::Rng;
use crate::Prop;

pub const PROP: Prop = Prop { id: "P28", quick: 61_000, thorough: 2_000_000, directed, case };

#[cfg(not(feature = "ser"))]
fn case(_: &mut Rep, _: &mut Rng) {}
#[cfg(not(feature = "ser"))]
fn directed(_: &mut Rep) {}
#[cfg(feature = "ser")]
use imp::{case, directed};

#[cfg(feature = "ser")]
mod imp {
    use super::*;
    use crate::gen;
    use crate::props::p27::{alone, runtime, Job, Res};
    use crate::run;
    use crate::ser::*;
    use sieve::Sieve;
    use std::sync::Arc;

    const RES: &[&str] = &["^h(el)+o.*$", "[a-z]+@([a-z]+)\\.org", "(.)(.)(.)", "x|y|Hello", "^.*wor(ld)?", "(?i)HELLO", "\u{e9}+"];
    const NUMS: &[&str] = &["0.1", "1.5", "100000.25", "0.30000000000000004", "123456789.125", "9223372036854775807", "-1", "0", "1e3", "3.0", "-0.0", "5e-324", "179769313486231570000000000000000000000.0"];

    /// A statement with what is stored in some less usual way.
    fn extra(r: &mut Rng) -> String {
        match r.below(6) {
            0 => format!("if header :regex [\"subject\", \"From\"] [\"{}\", \"none\"] {{ addheader \"X-Re\" \"${{1}}/${{2}}\"; }}\n", r.pick(RES).replace('\\', "\\\\")),
            1 => format!("let \"n\" \"{} + n * {}\";\naddheader \"X-N\" \"${{n}}\";\n", r.pick(NUMS), r.pick(NUMS)),
            2 => format!("set \"n\" {};\naddheader \"X-N\" \"${{n}}${{global.g}}\";\n", gen::quote(r.pick(&["", "\u{0}", "\u{1F600}", "a\"b\\c", "\r\n x", "\u{7f}\u{80}", "${n}", "{}[],:null"]))),
            3 => format!("if string :count \"{}\" :comparator \"i;ascii-numeric\" [\"a\", \"${{n}}\", \"\"] \"{}\" {{ addheader \"X-C\" \"y\"; }}\n", r.pick(&["eq", "ne", "gt", "lt", "ge", "le"]), r.below(5)),
            4 => format!("addheader \"X-H\" \"${{header.{}.{}}}\";\n", r.pick(&["from", "to:Cc", "X-Test", "received", "content-type", "subject[-1]", "Date[2]"]), r.pick(&["raw", "text", "addr", "date", "id", "type", "attr.charset", "rcvd.from", "exists"])),
            _ => format!("if envelope :{} \"from\" \"{}\" {{ addheader \"X-E\" \"${{envelope.to}}\"; }}\n", r.pick(&["localpart", "domain", "user", "detail", "all"]), r.pick(&["a", "b.org", "*"])),
        }
    }

    type Load = (&'static str, fn(&Sieve) -> Result<Sieve, String>);
    const LOADS: &[Load] = &[
        ("serde", |s| json_load(&json(s)?)),
        ("rkyv", |s| rkyv_load(&rkyv_bytes(s)?)),
        ("serde, then rkyv", |s| rkyv_load(&rkyv_bytes(&json_load(&json(s)?)?)?)),
        ("clone", |s| Ok(s.clone())),
    ];

    fn go(rep: &mut Rep, texts: &[String], lib_texts: &[String], msgs: &[Vec<u8>], v: usize) {
        let compiler = run::compiler().with_max_local_variables(400).with_max_match_variables(63);
        rep.current = format!("{texts:#?}\nincluded {lib_texts:#?}\n{:#?}", msgs.iter().map(|m| String::from_utf8_lossy(m)).collect::<Vec<_>>());
        let cur = rep.current.clone();
        let fresh = |t: &[String]| -> Vec<Sieve> { t.iter().filter_map(|t| run::compile(&compiler, t).ok()).collect() };
        let (a, b) = (fresh(texts), fresh(lib_texts));
        if a.is_empty() {
            rep.cover("script rejected");
            return rep.trivial();
        }
        // what is written depends on the text only, and what is read is what was written
        for (x, y) in a.iter().chain(&b).zip(fresh(texts).iter().chain(&fresh(lib_texts))) {
            let (jx, bx) = match (json(x), rkyv_bytes(x)) {
                (Ok(j), Ok(b)) => (j, b),
                e => return rep.fail("cannot be written", format!("{e:?}\n{cur}")),
            };
            rep.cover_n("bytes written", (jx.len() + bx.len()) as u64);
            if json(y).as_ref() != Ok(&jx) {
                return rep.fail("two compilations are written differently", cur);
            }
            for (n, load) in LOADS {
                match load(x) {
                    Err(e) => return rep.fail("cannot be read", format!("{n}: {e}\n{cur}")),
                    Ok(z) if z != *x => return rep.fail("not equal", format!("{n}\n{jx}\n{:?}\n{cur}", json(&z))),
                    Ok(z) => {
                        if json(&z).as_ref() != Ok(&jx) {
                            return rep.fail("written differently again", format!("{n}\n{cur}"));
                        }
                    }
                }
                rep.cover("read back equal");
            }
        }
        rep.ok(&cur);
        rep.sample(|| cur.clone());
        if !msgs.iter().all(|m| run::parses(m)) {
            return rep.cover("message that mail-parser does not read");
        }
        // and it does the same
        let rt = runtime(v);
        let arcs = |v: &[Sieve]| -> Vec<Arc<Sieve>> { v.iter().map(|s| Arc::new(s.clone())).collect() };
        let runs = |a: &[Arc<Sieve>], b: &[Arc<Sieve>]| -> Vec<Option<Res>> {
            let mut out = vec![];
            for (i, s) in a.iter().enumerate() {
                for m in msgs {
                    out.push(alone(&rt, &Job { script: s.clone(), msg: m.clone(), salt: i as u64 }, b));
                }
            }
            out
        };
        let (fa, fb) = (fresh(texts), fresh(lib_texts));
        let want = runs(&arcs(&fa), &arcs(&fb));
        for (n, load) in LOADS {
            let la: Vec<Arc<Sieve>> = a.iter().map(|s| Arc::new(load(s).unwrap())).collect();
            let lb: Vec<Arc<Sieve>> = b.iter().map(|s| Arc::new(load(s).unwrap())).collect();
            for round in 0..2 {
                let got = runs(&la, &lb);
                if let Some((w, g)) = want.iter().zip(&got).find(|(w, g)| w != g) {
                    let (Some(w), Some(g)) = (w, g) else { return rep.fail("does not start", cur) };
                    let k = w.0.iter().zip(&g.0).take_while(|(x, y)| x == y).count();
                    let m = w.1.iter().zip(&g.1).find(|(x, y)| x != y);
                    return rep.fail("runs differently", format!("{n}, round {round}, outcome {k}: as compiled {:?}\nas read {:?}\n{m:#?}\n{cur}", w.0.get(k), g.0.get(k)));
                }
                rep.cover("run like the compiled script");
                rep.cover_n("events compared", got.iter().flatten().map(|g| g.0.len() as u64).sum());
            }
            // having run leaves no trace in what is written
            for (x, y) in a.iter().chain(&b).zip(la.iter().chain(&lb)) {
                if json(x) != json(y) || *x != **y {
                    return rep.fail("changed by running", format!("{n}\n{cur}"));
                }
            }
        }
        if texts.iter().any(|t| t.contains(":regex")) && want.iter().flatten().any(|w| w.0.iter().any(|l| l.contains("X-Re")) || w.1.iter().any(|m| m.contains("X-Re:"))) {
            rep.cover("regular expression matched");
        }
    }

    pub fn case(rep: &mut Rep, r: &mut Rng) {
        let text = |r: &mut Rng| {
            let (t, caps): (String, _) = gen::script(r, gen::Opts { dates: false, ..Default::default() });
            let mut t = t;
            if r.chance(2, 3) {
                let mut x = String::from("set \"n\" \"2\";\n");
                for _ in 0..1 + r.below(4) {
                    x += &extra(r);
                }
                // "require" comes first
                let mut c = caps.clone();
                c.extend(["regex", "variables", "editheader", "relational", "comparator-i;ascii-numeric", "envelope", "subaddress", "vnd.stalwart.expressions"]);
                t = format!("{}{x}{}", gen::require(&c), t);
            }
            t
        };
        let texts = vec![text(r)];
        let lib: Vec<String> = (0..2).map(|_| text(r)).collect();
        let mut texts = texts;
        let mut lib = lib;
        if texts.iter().chain(&lib).any(|t| t.contains("enclose ") || t.contains("replace ")) {
            for t in texts.iter_mut().chain(&mut lib) {
                if ["essage-id", "size ", "header.*", "body"].iter().any(|c| t.to_lowercase().contains(c)) {
                    *t = "keep;".into();
                }
            }
        }
        let msgs = vec![gen::message(r)];
        let v = r.below(3);
        go(rep, &texts, &lib, &msgs, v);
    }

    pub fn directed(rep: &mut Rep) {
        // every extra statement alone
        let mut r = Rng::new(rep.seed);
        let msg = b"From: hello <ab@b.org>\r\nTo: c@d.org\r\nSubject: hello world \xc3\xa9\r\nContent-Type: text/plain; charset=utf-8\r\n\r\nbody\r\n".to_vec();
        for _ in 0..120 {
            let t = format!("require [\"regex\", \"variables\", \"editheader\", \"relational\", \"comparator-i;ascii-numeric\", \"envelope\", \"subaddress\", \"vnd.stalwart.expressions\"];\nset \"n\" \"2\";\n{}", extra(&mut r));
            go(rep, &[t], &[], std::slice::from_ref(&msg), 0);
        }
    }
}
