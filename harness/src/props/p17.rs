//! Tests of what the host knows about the delivery: envelope, spam and virus scores, metadata,
//! environment precedence, notification methods, external lists.
use crate::ask::{Asker, Kind};
use crate::dates;
use crate::gen::quote;
use crate::matching::Quirk;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::{Envelope, Event, Metadata, SpamStatus, VirusStatus};

pub const PROP: Prop = Prop { id: "P17", quick: 850_000, thorough: 6_000_000, directed, case };

const TEXT: (Quirk, &str) = (Quirk { text_number: true, ..Quirk::NONE }, "text-number");
const ENV: &[(&str, Envelope)] = &[
    ("from", Envelope::From),
    ("to", Envelope::To),
    ("bytimeabsolute", Envelope::ByTimeAbsolute),
    ("bytimerelative", Envelope::ByTimeRelative),
    ("bymode", Envelope::ByMode),
    ("bytrace", Envelope::ByTrace),
    ("notify", Envelope::Notify),
    ("orcpt", Envelope::Orcpt),
    ("ret", Envelope::Ret),
    ("envid", Envelope::Envid),
];
const ADDR: &[&str] = &["a@b.c", "x+det@Example.org", "joe.q@mail.example.org", "+y@b.c", "z+@b.c", "Bob@b.c"];
const WORDS: &[&str] = &["a", "b.c", "@", "1", "10", "maybe", "x", "*", "?", "Bob", "R", "2"];

fn addr_part(p: &str, a: &str) -> Option<String> {
    if a.is_empty() {
        return Some(String::new());
    }
    let (l, d) = match a.split_once('@') {
        Some(x) => x,
        None => return p.is_empty().then(|| a.to_string()).or((p == ":all").then(|| a.to_string())),
    };
    match p {
        "" | ":all" => Some(a.into()),
        ":localpart" => Some(l.into()),
        ":domain" => Some(d.into()),
        ":user" => match l.split_once('+') {
            Some(("", _)) => None,
            Some((u, _)) => Some(u.into()),
            None => Some(l.into()),
        },
        _ => l.split_once('+').map(|x| x.1.into()),
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    // the envelope
    let mut env: Vec<(usize, String, String, Option<dates::Dt>)> = vec![];
    for _ in 0..r.below(7) {
        let e = if r.chance(1, 2) { r.below(2) } else { r.below(ENV.len()) };
        let mut val;
        let (mut raw, mut dt) = (String::new(), None);
        match ENV[e].0 {
            "from" | "to" => {
                val = r.pick(ADDR).to_string();
                raw = match r.below(5) {
                    0 => format!("<{val}>"),
                    1 => format!("<@relay.org:{val}>"),
                    2 => format!("<@r.org,@s.org:{val}>"),
                    _ => val.clone(),
                };
                if r.chance(1, 8) {
                    (raw, val) = r.pick(&[("<>", ""), ("", ""), ("MAILER-DAEMON", "MAILER-DAEMON"), ("<mailer-daemon>", "mailer-daemon")]).clone().into_pair();
                } else if r.chance(1, 10) {
                    // not an address: ignored
                    raw = r.pick(&["nobody", "a b@c.d", "a@b.c x", "@b.c", "a@", "<a@b.c", "a@b..c"]).to_string();
                    val = "\u{0}".into();
                }
            }
            "bytimeabsolute" => {
                if r.chance(4, 5) {
                    // zones with minutes and times before 1970: see P19
                    let mut d = dates::gen(r);
                    d.y = d.y.max(1971);
                    d.d = d.d.min(dates::month(d.y, d.mo));
                    raw = d.part("iso8601");
                    val = raw.clone();
                    dt = Some(d);
                } else {
                    raw = "soon".into();
                    val = raw.clone();
                }
            }
            "bytimerelative" => val = r.pick(&["0", "120", "-5"]).to_string(),
            "bymode" => val = r.pick(&["N", "R"]).to_string(),
            "bytrace" => val = r.pick(&["", "T"]).to_string(),
            "notify" => val = r.pick(&["NEVER", "SUCCESS,DELAY"]).to_string(),
            "orcpt" => val = r.pick(&["rfc822;a@b.c", "x@y.z", "rfc822;joe+d@b.c", "local", ""]).to_string(),
            "ret" => val = r.pick(&["FULL", "HDRS"]).to_string(),
            _ => val = r.pick(&["QQ314159", "1", ""]).to_string(),
        }
        if raw.is_empty() && !(e < 2) {
            raw = val.clone();
        }
        env.push((e, raw, val, dt));
    }
    let mut live: Vec<_> = env.iter().filter(|e| e.2 != "\u{0}").cloned().collect();
    // scores
    let spam = match r.below(5) {
        0 => (SpamStatus::Unknown, 0, 0),
        1 => (SpamStatus::Ham, 1, 0),
        2 => (SpamStatus::Spam, 10, 100),
        3 => *r.pick(&[(SpamStatus::MaybeSpam(0.25), 2, 25), (SpamStatus::MaybeSpam(0.5), 5, 50), (SpamStatus::MaybeSpam(0.75), 7, 75), (SpamStatus::MaybeSpam(0.0), 2, 1), (SpamStatus::MaybeSpam(0.125), 2, 13), (SpamStatus::MaybeSpam(1.0), 9, 100), (SpamStatus::MaybeSpam(0.9375), 9, 94)]),
        _ => {
            let n = r.below(14) as u32;
            let m = if n > 10 { 0 } else { n as i64 };
            (SpamStatus::from_number(n), m, if m < 2 { 0 } else { m * 10 })
        }
    };
    let virus_n = r.below(8) as u32;
    let virus = VirusStatus::from_number(virus_n);
    let virus_n = if virus_n > 5 { 0 } else { virus_n };
    // metadata
    let mboxes = ["INBOX", "inbox", "Archive"];
    let annots = ["/private/comment", "/shared/x", "/Private/Comment"];
    let gen_meta = |r: &mut Rng| -> Vec<(Option<usize>, usize, String)> {
        (0..r.below(4)).map(|_| (r.chance(1, 2).then(|| r.below(3)), r.below(3), r.string(&["a", "B", "x", "1", " "], 4))).collect()
    };
    let (m_ctx, m_rt) = (gen_meta(r), gen_meta(r));
    let e_ctx: Vec<(String, String)> = (0..r.below(3)).map(|_| (r.pick(&["name", "x1", "x2"]).to_string(), r.pick(&["v1", "V2", "3", ""]).to_string())).collect();
    let e_rt: Vec<(String, String)> = (0..r.below(3)).map(|_| (r.pick(&["name", "x1", "x2"]).to_string(), r.pick(&["r1", "R2", "4", ""]).to_string())).collect();
    let uris: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["mailto", "tel", "https", "xmpp", "mailto:a@b.c", "https://x.y/"])).collect();
    let lists: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["urn:a", "urn:b", "urn:A", "tag:x,1:y"])).collect();

    let mut a = Asker::default();
    for _ in 0..2 + r.below(7) {
        match r.below(15) {
            13 => {
                // the script changes the envelope
                let e = if r.chance(1, 2) { r.below(2) } else { r.below(ENV.len()) };
                let mut dt = None;
                let val = match ENV[e].0 {
                    "from" | "to" => r.pick(&["a@b.c", "x+det@Example.org", "new@b.c", "", "", "MAILER-DAEMON"]).to_string(),
                    "bytimeabsolute" if r.chance(3, 4) => {
                        let mut d = dates::gen(r);
                        d.y = d.y.max(1971);
                        d.d = d.d.min(dates::month(d.y, d.mo));
                        dt = Some(d);
                        d.part("iso8601")
                    }
                    "orcpt" => r.pick(&["rfc822;a@b.c", "x@y.z", "local", ""]).to_string(),
                    _ => r.pick(&["", "1", "R", "new", "HDRS"]).to_string(),
                };
                let t = a.string(r, &val);
                let n = format!("envelope.{}", ENV[e].0);
                a.script += &format!("set {} {t};\n", quote(&if r.chance(1, 4) { n.to_uppercase() } else { n }));
                match live.iter_mut().find(|x| x.0 == e) {
                    Some(x) => (x.2, x.3) = (val, dt),
                    None => live.push((e, String::new(), val, dt)),
                }
                rep.cover("envelope changed by the script");
            }
            14 => {
                // the first value of an envelope part as a variable
                let e = if r.chance(1, 2) { r.below(2) } else { r.below(ENV.len()) };
                let n = ENV[e].0.replace("bytime", "by_time_").replace("bymode", "by_mode").replace("bytrace", "by_trace");
                let v = live.iter().find(|x| x.0 == e).map_or(String::new(), |x| x.2.clone());
                let key = if r.chance(1, 2) { v.clone() } else { r.pick(&["a@b.c", "x", "1", ""]).to_string() };
                let ok = key == v;
                a.plain(r, &format!("envelope variable {ok}"), &format!("string :comparator \"i;octet\" \"-${{envelope.{n}}}\" {}", quote(&format!("-{key}"))), ok);
            }
            0..=4 => {
                let mut es: Vec<usize> = (0..1 + r.below(3)).map(|_| if r.chance(1, 2) { r.below(2) } else { r.below(ENV.len()) }).collect();
                es.dedup();
                let part = *r.pick(&["", "", ":all", ":localpart", ":domain", ":user", ":detail"]);
                let zone = if r.chance(1, 3) { Some(dates::gen_off(r) / 60 * 60) } else { None };
                let mut values = vec![];
                for (e, _, v, dt) in &live {
                    if es.contains(e) {
                        match ENV[*e].0 {
                            "from" | "to" | "orcpt" => values.extend(addr_part(part, v)),
                            "bytimeabsolute" if zone.is_some() => {
                                values.push(dt.map_or(String::new(), |d| dates::Dt::at(d.utc(), zone.unwrap()).part("iso8601")))
                            }
                            _ => values.push(v.clone()),
                        }
                    }
                }
                let mut args: Vec<String> = vec![];
                if !part.is_empty() {
                    args.push(part.into());
                }
                if let Some(z) = zone {
                    args.push(format!(":zone \"{}\"", dates::Dt::at(0, z).zone()));
                }
                let names: Vec<String> = es.iter().map(|e| quote(&if r.chance(1, 4) { ENV[*e].0.to_uppercase() } else { ENV[*e].0.into() })).collect();
                let names = if names.len() == 1 && r.chance(1, 2) { names[0].clone() } else { format!("[{}]", names.join(", ")) };
                let k = Kind {
                    list: true,
                    captures: true,
                    regex: true,
                    words: WORDS,
                    letters: &['a', 'b', '@', '.'],
                    count: Some(values.iter().filter(|v| !v.is_empty()).count()),
                    count_keys: &["0", "1", "2", "3"],
                    by_key: false,
                    single: false,
                    alts: &[TEXT],
                };
                let label = if zone.is_some() { "envelope with zone".into() } else { format!("envelope{part}") };
                a.ask(r, &label, "envelope", args, &names, &values, &k);
            }
            5 | 6 => {
                let percent = r.chance(1, 2);
                let v = (if percent { spam.2 } else { spam.1 }).to_string();
                let k = score(spam.0 != SpamStatus::Unknown);
                a.ask(r, if percent { "spamtest percent" } else { "spamtest" }, "spamtest", if percent { vec![":percent".into()] } else { vec![] }, "", &[v], &k);
            }
            7 => {
                let k = score(virus != VirusStatus::Unknown);
                a.ask(r, "virustest", "virustest", vec![], "", &[virus_n.to_string()], &k);
            }
            8 | 9 => {
                // the values of a context come before those of the runtime
                let m = r.chance(1, 2).then(|| r.below(3));
                let an = r.below(3);
                let hit = m_ctx.iter().chain(&m_rt).find(|x| x.0 == m && annots[x.1].eq_ignore_ascii_case(annots[an]));
                let values: Vec<String> = hit.map(|x| x.2.clone()).into_iter().collect();
                let mut pos = String::new();
                if let Some(m) = m {
                    pos += &a.string(r, mboxes[m]);
                    pos += " ";
                }
                let t = annots[an].to_string();
                let t = if r.chance(1, 3) { t.to_uppercase() } else { t };
                pos += &a.string(r, &t);
                let k = Kind {
                    list: false,
                    captures: true,
                    regex: true,
                    words: &["a", "b", "B", "x", "1", "*", "?"],
                    letters: &['a', 'B', 'x'],
                    count: (!values.is_empty()).then_some(1),
                    count_keys: &["0", "1", "2"],
                    by_key: true,
                    single: false,
                    alts: &[TEXT],
                };
                let w = if m.is_some() { "metadata" } else { "servermetadata" };
                a.ask(r, w, w, vec![], &pos, &values, &k);
            }
            10 => {
                let m = r.chance(1, 2).then(|| r.below(3));
                let ans: Vec<usize> = (0..1 + r.below(2)).map(|_| r.below(3)).collect();
                let ok = ans.iter().all(|an| m_ctx.iter().chain(&m_rt).any(|x| x.0 == m && annots[x.1].eq_ignore_ascii_case(annots[*an])));
                let mut t = String::new();
                if let Some(m) = m {
                    t += &a.string(r, mboxes[m]);
                    t += " ";
                }
                t += &a.strings(r, &ans.iter().map(|x| annots[*x].to_string()).collect::<Vec<_>>());
                let w = if m.is_some() { "metadataexists" } else { "servermetadataexists" };
                a.plain(r, &format!("{w} {ok}"), &format!("{w} {t}"), ok);
            }
            11 => {
                let us = ["mailto:a@b.c", "mailto:x@y.z?subject=1", "tel:+123", "https://x.y/", "https://x.y/z", "xmpp:a@b", "foo:bar", "nothing", "mailto:", "mailto:nobody", ""];
                let valid = |u: &str| match u.split_once(':') {
                    Some((s, rest)) => {
                        !rest.is_empty() && u != "mailto:nobody" && ["mailto", "tel", "https", "xmpp"].contains(&s) && (uris.contains(&s) || uris.contains(&u))
                    }
                    None => false,
                };
                if r.chance(1, 2) {
                    let l: Vec<String> = (0..1 + r.below(2)).map(|_| r.pick(&us).to_string()).collect();
                    let ok = l.iter().all(|u| valid(u));
                    let t = a.strings(r, &l);
                    a.plain(r, &format!("valid_notify_method {ok}"), &format!("valid_notify_method {t}"), ok);
                } else {
                    let u = *r.pick(&us);
                    let cap = *r.pick(&["online", "Online", "offline", ""]);
                    let values: Vec<String> = if valid(u) && cap.eq_ignore_ascii_case("online") { vec!["maybe".into()] } else { vec![] };
                    let pos = format!("{} {}", a.string(r, u), a.string(r, cap));
                    let k = Kind {
                        list: false,
                        captures: false,
                        regex: true,
                        words: &["maybe", "yes", "m", "*"],
                        letters: &['m', 'a', 'y'],
                        count: (!values.is_empty()).then_some(1),
                        count_keys: &["0", "1", "2"],
                        by_key: true,
                        single: false,
                        alts: &[TEXT],
                    };
                    a.ask(r, "notify_method_capability", "notify_method_capability", vec![], &pos, &values, &k);
                }
            }
            _ => {
                if r.chance(1, 2) {
                    let l: Vec<String> = (0..1 + r.below(2)).map(|_| r.pick(&["urn:a", "urn:b", "tag:x,1:y", "urn:c", ""]).to_string()).collect();
                    let ok = l.iter().all(|u| lists.contains(&u.as_str()));
                    let t = a.strings(r, &l);
                    a.plain(r, &format!("valid_ext_list {ok}"), &format!("valid_ext_list {t}"), ok);
                } else {
                    let n = *r.pick(&["name", "x1", "x2", "x3"]);
                    let find = |l: &[(String, String)]| l.iter().rev().find(|x| x.0 == n).map(|x| x.1.clone());
                    let v = find(&e_ctx).or(find(&e_rt)).or((n == "name").then(|| "Stalwart Sieve".into()));
                    let key = r.pick(&["v1", "V2", "3", "r1", "R2", "4", "", "stalwart sieve"]).to_string();
                    if r.chance(1, 3) {
                        // as a variable
                        let v = v.unwrap_or_default();
                        let key = if r.chance(1, 2) { v.clone() } else { key };
                        let n = if r.chance(1, 3) { n.to_uppercase() } else { n.into() };
                        let ok = key == v;
                        a.plain(r, &format!("environment variable {ok}"), &format!("string :comparator \"i;octet\" \"-${{env.{n}}}\" {}", quote(&format!("-{key}"))), ok);
                        continue;
                    }
                    let ok = v.is_some_and(|v| !v.is_empty() && v.to_lowercase() == key.to_lowercase());
                    let t = a.string(r, &key);
                    let n = quote(&if r.chance(1, 3) { n.to_uppercase() } else { n.into() });
                    a.plain(r, &format!("environment {ok}"), &format!("environment {n} {t}"), ok);
                }
            }
        }
    }
    rep.current = format!("{}\n{env:?}\n{spam:?} {virus:?}\n{m_ctx:?} {m_rt:?}\n{e_ctx:?} {e_rt:?}\n{uris:?} {lists:?}", a.script);
    let mut rt = run::runtime().with_valid_notification_uris(uris.iter().map(|s| s.to_string())).with_valid_ext_lists(lists.iter().map(|s| s.to_string()));
    let meta = |m: &(Option<usize>, usize, String)| match m.0 {
        Some(b) => Metadata::Mailbox { name: mboxes[b].to_string(), annotation: annots[m.1].to_string() },
        None => Metadata::Server { annotation: annots[m.1].to_string() },
    };
    for m in &m_rt {
        rt = rt.with_metadata(meta(m), m.2.clone());
    }
    for (n, v) in &e_rt {
        rt = rt.with_env_variable(n.clone(), v.clone());
    }
    let setup = |c: &mut sieve::Context| {
        c.clear_envelope();
        for (e, raw, _, _) in &env {
            c.set_envelope(ENV[*e].1, raw.clone());
        }
        for m in &m_ctx {
            c.set_medatata(meta(m), m.2.clone());
        }
        for (n, v) in &e_ctx {
            c.set_env_variable(n.clone(), v.clone());
        }
        c.set_spam_status(spam.0);
        c.set_virus_status(virus);
    };
    let tr = match run::simple_with(&a.script, run::MSG, &rt, setup, &mut run::default_answer) {
        Ok(t) => t,
        Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    a.verify(rep, &tr);
}
trait IntoPair {
    fn into_pair(self) -> (String, String);
}
impl IntoPair for (&str, &str) {
    fn into_pair(self) -> (String, String) {
        (self.0.into(), self.1.into())
    }
}
fn score(known: bool) -> Kind<'static> {
    Kind {
        list: false,
        captures: true,
        regex: false,
        words: &["0", "1", "2", "5", "9", "10", "50", "100", "*", "?", "x"],
        letters: &[],
        count: known.then_some(1).or(Some(0)),
        count_keys: &["0"],
        by_key: true,
        single: true,
        alts: &[],
    }
}

fn directed(rep: &mut Rep) {
    let s = "if envelope \"from\" \"\" { eval \"t('null')\"; }\nif envelope :domain \"to\" \"example.org\" { eval \"t('domain')\"; }";
    match run::simple_with(
        s,
        run::MSG,
        &run::runtime(),
        |c| {
            c.clear_envelope();
            c.set_envelope(Envelope::From, "<>");
            c.set_envelope(Envelope::To, "<x@EXAMPLE.org>");
        },
        &mut |e: &Event| run::default_answer(e),
    ) {
        Ok(t) => {
            rep.ok(s);
            if t.marks() != ["null", "domain"] {
                rep.fail("directed", t.show());
            }
        }
        Err(e) => rep.fail("run", e),
    }
}
