//! No message is lost: the disposition of the message at the end of every run (kept, discarded, filed,
//! redirected, rejected) is the one Sieve prescribes, also when the run ends with an error.
use crate::actions::{Limits, Model};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::{Event, Input};

pub const PROP: Prop = Prop { id: "P04", quick: 2_200_000, thorough: 6_000_000, directed, case };

/// What happened to the message, without the arguments of the actions.
fn disposition(items: &[Tr]) -> Vec<&'static str> {
    items
        .iter()
        .filter_map(|i| match i {
            Tr::Err(_) => Some("error"),
            Tr::Ev(Event::Keep { .. }) => Some("keep"),
            Tr::Ev(Event::Discard) => Some("discard"),
            Tr::Ev(Event::FileInto { .. }) => Some("fileinto"),
            Tr::Ev(Event::SendMessage { .. }) => Some("redirect"),
            Tr::Ev(Event::Reject { .. }) => Some("reject"),
            _ => None,
        })
        .collect()
}

/// Flags are sets: their order is not part of the specification.
fn sorted(items: &[Tr]) -> Vec<Tr> {
    let mut v = items.to_vec();
    for i in &mut v {
        if let Tr::Ev(Event::Keep { flags, .. } | Event::FileInto { flags, .. }) = i {
            flags.sort();
        }
    }
    v
}

pub fn run_model(rep: &mut Rep, r: &mut Rng, errors: bool, full: bool) {
    let nrec = r.below(4);
    let lim = Limits {
        redirects: *r.pick(&[0, 1, 2, 5]),
        out: *r.pick(&[0, 1, 2, 5, 9]),
        received: if r.chance(1, 4) { nrec + r.below(2) } else { 50 },
        user: "me@example.org".into(),
        num_received: nrec,
    };
    let (lr, lo, lc) = (lim.redirects, lim.out, lim.received);
    let n = 1 + r.below(7);
    let mut m = Model::new(r, lim);
    m.text = "require \"ihave\";\n".into();
    m.errors = errors;
    m.prologue();
    for _ in 0..n {
        m.stmt(0);
    }
    m.end();
    let Model { text, exp, stats, answers, .. } = m;
    let mut msg = String::new();
    for i in 0..nrec {
        msg += &format!("Received: from a{i}.org by b.org; Fri, 21 Nov 1997 10:01:10 -0600\r\n");
    }
    msg += &String::from_utf8_lossy(run::MSG);
    let rt = run::runtime().with_max_redirects(lr).with_max_out_messages(lo).with_max_received_headers(lc).with_cpu_limit(3000);
    rep.current = text.clone();
    let mut a = answers.iter();
    let tr = run::simple_with(&text, msg.as_bytes(), &rt, |_| (), &mut |ev| match ev {
        Event::MailboxExists { .. } if a.next().copied().unwrap_or(false) => Input::True,
        Event::MailboxExists { .. } => Input::False,
        ev => run::default_answer(ev),
    });
    for s in &stats {
        rep.cover(s);
    }
    let tr = match tr {
        Ok(t) => t,
        Err(e) => return rep.fail("the script does not run", format!("{e}\n{text}")),
    };
    let show = |x: &[Tr]| x.iter().map(run::show_tr).collect::<Vec<_>>().join("\n");
    let limits = format!("max_redirects {lr} max_out_messages {lo} max_received_headers {lc} received headers {nrec} answers {answers:?}");
    if full {
        if sorted(&tr.items) != sorted(&exp) {
            return rep.fail("actions differ from what the script says", format!("{text}\n{limits}\n-- expected:\n{}\n-- observed:\n{}", show(&exp), tr.show()));
        }
    } else if disposition(&tr.items) != disposition(&exp) {
        return rep.fail("the disposition of the message is not the one the script asks for", format!("{text}\n{limits}\n-- expected: {:?}\n-- observed: {:?}\n{}", disposition(&exp), disposition(&tr.items), tr.show()));
    }
    for d in disposition(&exp) {
        rep.cover(&format!("observed {d}"));
    }
    rep.sample(|| format!("{text}=> {}", show(&exp)));
    rep.ok(&(text, answers, lr, lo, lc, nrec));
}

fn case(rep: &mut Rep, r: &mut Rng) {
    run_model(rep, r, true, false)
}

fn directed(rep: &mut Rep) {
    // every error ends in a keep unless the script already disposed of the message
    let cases: &[(&str, &[&str])] = &[
        ("", &["keep"]),
        ("require \"ihave\"; error \"x\";", &["error", "keep"]),
        ("require \"ihave\"; error \"x\"; discard;", &["error", "keep"]),
        ("require \"ihave\"; fileinto \"a\"; error \"x\";", &["fileinto", "error"]),
        ("require \"ihave\"; fileinto :copy \"a\"; error \"x\";", &["fileinto", "error", "keep"]),
        ("require \"ihave\"; discard; error \"x\";", &["error", "discard"]),
        ("redirect \"a@b.org\"; while \"1\" {}", &["redirect", "error"]),
        ("redirect :copy \"a@b.org\"; while \"1\" {}", &["redirect", "error", "keep"]),
        ("redirect \"not an address\";", &["keep"]),
        ("redirect \"me@example.org\";", &["keep"]),
        ("keep; fileinto \"a\";", &["fileinto", "keep"]),
        ("keep; redirect \"a@b.org\";", &["redirect", "keep"]),
        ("keep; discard;", &["keep"]),
        ("discard; keep;", &["keep"]),
        ("reject \"x\";", &["reject"]),
        ("discard; stop; keep;", &["discard"]),
        ("vacation \"gone\";", &["keep"]),
        ("notify \"mailto:a@b.org\";", &["keep"]),
        ("set \"a\" \"b\"; if false { discard; }", &["keep"]),
        ("include \"nope\";", &["keep"]),
        ("include :optional \"nope\"; fileinto \"b\";", &["fileinto"]),
        ("foreverypart { discard; }", &["discard"]),
        ("replace \"x\";", &["keep"]),
    ];
    for (s, want) in cases {
        let tr = run::simple(s, run::MSG);
        match tr {
            Ok(t) => {
                let got: Vec<_> = disposition(&t.items).into_iter().filter(|d| *d != "redirect" || s.contains("redirect")).collect();
                if got != *want {
                    rep.fail("wrong disposition", format!("{s}\nexpected {want:?} observed {got:?}"));
                }
                rep.ok(s);
            }
            Err(e) => rep.fail("does not run", format!("{s}\n{e}")),
        }
    }
    // a capability the host does not allow, and too many includes
    let rt = run::runtime().without_capability(sieve::compiler::grammar::Capability::FileInto);
    let c = sieve::Compiler::new();
    let s = run::compile(&c, "require \"fileinto\"; discard; fileinto \"x\";").unwrap();
    let mut ctx = rt.filter(run::MSG);
    let t = run::drive(&mut ctx, s, 100, &mut run::default_answer);
    if disposition(&t.items) != ["error", "keep"] {
        rep.fail("a capability that is not allowed loses the message", t.show());
    }
    rep.ok("capability");
    let rt = run::runtime().with_max_nested_includes(2);
    let s = run::compile(&run::compiler(), "include \"x\"; discard;").unwrap();
    let mut ctx = rt.filter(run::MSG);
    let t = run::drive(&mut ctx, s.clone(), 100, &mut |e| match e {
        Event::IncludeScript { name, .. } => Input::Script { name: name.clone(), script: s.clone().into() },
        _ => Input::True,
    });
    if disposition(&t.items) != ["error", "keep"] {
        rep.fail("too many includes lose the message", t.show());
    }
    rep.ok("includes");
}
