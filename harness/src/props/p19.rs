//! date and currentdate: parts, zones and the dates found in headers.
use crate::ask::{Asker, Kind};
use crate::dates::{self, Dt, PARTS};
use crate::gen::quote;
use crate::matching::Quirk;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use mail_parser::DateTime;
use sieve::{runtime::Variable, Event, Input};
use std::time::{Duration, SystemTime};

pub const PROP: Prop = Prop { id: "P19", quick: 510_000, thorough: 8_000_000, directed, case };

const ALTS: &[(Quirk, &str)] = &[
    (Quirk { text_number: true, ..Quirk::NONE }, "text-number"),
    (Quirk { regex_glob: true, ..Quirk::NONE }, "date-regex"),
];
const WORDS: &[&str] = &["2003", "01", "+0000", "-0500", "T", ":", "Jul", "Tue", "0", "7", "*", "?", "2024-02-29"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Zone {
    Local,
    Original,
    Time(i64),
}

/// The text of a date field.
fn text(r: &mut Rng, d: &Dt) -> String {
    let fold = |r: &mut Rng| *r.pick(&[" ", " ", " ", " ", "\r\n ", "\r\n\t", "  "]);
    let mut s = String::new();
    if r.chance(2, 3) {
        s += &format!("{},{}", dates::DAYS[d.weekday() as usize], fold(r));
    }
    s += &if r.chance(1, 3) { format!("{:02}", d.d) } else { d.d.to_string() };
    s += fold(r);
    let m = dates::MONTHS[d.mo as usize - 1];
    s += &match r.below(6) {
        0 => m.to_uppercase(),
        1 => m.to_lowercase(),
        _ => m.to_string(),
    };
    s += fold(r);
    s += &match d.y {
        1950..=1999 if r.chance(1, 4) => format!("{:02}", d.y - 1900),
        2000..=2049 if r.chance(1, 4) => format!("{:02}", d.y - 2000),
        y => y.to_string(),
    };
    s += fold(r);
    s += &format!("{:02}:{:02}", d.h, d.mi);
    // mail-parser does not read a named zone after a time without seconds
    let named = d.s != 0 || r.chance(1, 2);
    if named {
        s += &format!(":{:02}", d.s);
    }
    s += fold(r);
    s += &match d.off {
        _ if !named => d.zone(),
        0 if r.chance(1, 3) => "GMT".into(),
        0 if r.chance(1, 3) => "-0000".into(),
        -300 if r.chance(1, 3) => "EST".into(),
        -420 if r.chance(1, 2) => r.pick(&["PDT", "MST"]).to_string(),
        -480 if r.chance(1, 2) => "PST".into(),
        -240 if r.chance(1, 2) => "EDT".into(),
        _ => d.zone(),
    };
    if r.chance(1, 4) {
        s += r.pick(&[" (CEST)", " (a (nested) comment)", " "]);
    }
    s
}
fn value(p: &str, d: &Dt, z: Zone) -> (String, Option<&'static str>) {
    let off = match z {
        Zone::Local => 0,
        Zone::Original => d.off,
        Zone::Time(o) => o,
    };
    let v = Dt::at(d.utc(), off);
    let cause = if d.off.abs() >= 720 && z == Zone::Original {
        Some("zone-12")
    } else if z != Zone::Original && d.off.abs() >= 720 {
        Some("zone-12")
    } else if z != Zone::Original && d.utc() + off * 60 < 0 {
        Some("before-1970")
    } else if matches!(z, Zone::Time(o) if o % 60 != 0) {
        Some("zone-minutes")
    } else {
        None
    };
    (v.part(p), cause)
}
/// What the pinned version of mail-parser makes of it.
fn parser_value(p: &str, dt: &DateTime, z: Zone) -> String {
    let dt = match z {
        Zone::Local => DateTime::from_timestamp(dt.to_timestamp()),
        Zone::Original => dt.clone(),
        Zone::Time(o) => dt.to_timezone(o * 60),
    };
    match p {
        "year" => format!("{:04}", dt.year),
        "month" => format!("{:02}", dt.month),
        "day" => format!("{:02}", dt.day),
        "date" => format!("{:04}-{:02}-{:02}", dt.year, dt.month, dt.day),
        "julian" => ((dt.julian_day() as f64 - 2400000.5) as i64).to_string(),
        "hour" => format!("{:02}", dt.hour),
        "minute" => format!("{:02}", dt.minute),
        "second" => format!("{:02}", dt.second),
        "time" => format!("{:02}:{:02}:{:02}", dt.hour, dt.minute, dt.second),
        "iso8601" => dt.to_rfc3339(),
        "std11" => dt.to_rfc822(),
        "zone" => format!("{}{:02}{:02}", if dt.tz_before_gmt && (dt.tz_hour > 0 || dt.tz_minute > 0) { "-" } else { "+" }, dt.tz_hour, dt.tz_minute),
        _ => dt.day_of_week().to_string(),
    }
}
fn now() -> i64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).map_or(0, |d| d.as_secs() as i64)
}

const NAMES: &[&str] = &["Date", "Resent-Date", "X-Date", "Delivery-date", "Received"];

fn case(rep: &mut Rep, r: &mut Rng) {
    let keep = r.clone();
    for i in 0..5 {
        let mut r = keep.clone();
        let t = now();
        let (a, msg) = build(&mut r, t);
        rep.current = format!("{}\n{msg:?}", a.script);
        let tr = match run::simple(&a.script, msg.as_bytes()) {
            Ok(t) => t,
            Err(e) => return rep.fail("run", format!("{e}\n{}", rep.current)),
        };
        if now() == t || i == 4 {
            return a.verify(rep, &tr);
        }
    }
}
fn build(r: &mut Rng, now: i64) -> (Asker, String) {
    // the message
    let mut fields: Vec<(usize, String, Option<Dt>)> = vec![];
    for _ in 0..r.below(6) {
        let n = r.below(NAMES.len());
        let (t, d) = if r.chance(1, 6) {
            (r.pick(&["not a date", "1 Jul 2003", "45 Jul 2003 10:00:00 +0000", "Tue, 1 Smarch 2003 10:00:00 +0000", "1 Jul 2003 25:00:00 +0000", "1 Jul 2003 10:61:00 +0000", "x"]).to_string(), None)
        } else {
            let mut d = dates::gen(r);
            if r.chance(1, 3) {
                d.y = 1970 + r.below(100) as i64;
                d.d = d.d.min(dates::month(d.y, d.mo));
            }
            if r.chance(1, 6) {
                d.s = 0;
            }
            if r.chance(1, 6) {
                d.off = *r.pick(&[-420, -480, -240, -300]);
            }
            (text(r, &d), Some(d))
        };
        let t = match NAMES[n] {
            "Received" => format!("from a.b.c by d.e.f with ESMTP id x1{}{t}", if d.is_some() { "; " } else { ";" }),
            _ => t,
        };
        fields.push((n, t, d));
    }
    let mut a = Asker::default();
    let mut msg = String::new();
    for (n, t, _) in &fields {
        let n = NAMES[*n];
        msg += &format!("{}: {t}\r\n", match r.below(4) {
            0 => n.to_lowercase(),
            1 => n.to_uppercase(),
            _ => n.to_string(),
        });
    }
    msg += "\r\nx\r\n";
    // dates added by the script
    for _ in 0..if r.chance(1, 4) { 1 + r.below(2) } else { 0 } {
        let n = r.below(NAMES.len() - 1);
        let d = dates::gen(r);
        let t = text(r, &d).replace("\r\n", "");
        let last = r.chance(1, 2);
        a.script += &format!("addheader {}{} {};\n", if last { ":last " } else { "" }, quote(NAMES[n]), quote(&t));
        let f = (n, t, Some(d));
        if last {
            fields.push(f);
        } else {
            fields.insert(0, f);
        }
    }
    for _ in 0..2 + r.below(7) {
        let part = *r.pick(PARTS);
        let zone = match r.below(3) {
            0 => Zone::Local,
            1 => Zone::Original,
            _ => Zone::Time(dates::gen_off(r)),
        };
        let mut args: Vec<String> = vec![];
        if let Zone::Time(o) = zone {
            args.push(format!(":zone \"{}\"", Dt::at(0, o).zone()));
        }
        let p = quote(&if r.chance(1, 5) { part.to_uppercase() } else { part.into() });
        let current = r.chance(1, 4);
        let k = |count| Kind { list: true, captures: true, regex: true, words: WORDS, letters: &['0', '1', ':', '2'], count: Some(count), count_keys: &["0", "1", "2", "3"], by_key: false, single: false, alts: ALTS };
        if current {
            let zone = if zone == Zone::Original { Zone::Local } else { zone };
            let d = Dt::at(now, 0);
            let (v, cause) = value(part, &d, zone);
            let other = parser_value(part, &DateTime::from_timestamp(now), zone);
            if let Some(c) = cause {
                if other != v {
                    a.alt = Some((vec![other], c));
                }
            }
            a.ask(r, &format!("currentdate {part}"), "currentdate", args, &p, &[v], &k(1));
            continue;
        }
        if zone == Zone::Original {
            args.push(":originalzone".into());
        }
        let n = if fields.is_empty() || r.chance(1, 4) { r.below(NAMES.len()) } else { r.pick(&fields).0 };
        let mut set: Vec<&(usize, String, Option<Dt>)> = fields.iter().filter(|f| f.0 == n).collect();
        let mut indexed = "";
        if r.chance(1, 3) {
            let i = 1 + r.below(3);
            let last = r.chance(1, 2);
            args.push(format!(":index {i}"));
            if last {
                args.push(":last".into());
                set.reverse();
            }
            set = set.get(i - 1).map(|f| vec![*f]).unwrap_or_default();
            indexed = " with :index";
        }
        let (mut vs, mut os, mut cause) = (vec![], vec![], None);
        for (_, t, d) in set {
            if let Some(d) = d {
                let (v, c) = value(part, d, zone);
                cause = cause.or(c);
                let dt = DateTime::parse_rfc822(&t.replace("\r\n", "")).filter(|d| d.is_valid());
                os.extend(dt.map(|d| parser_value(part, &d, zone)));
                vs.push(v);
            }
        }
        if let Some(c) = cause {
            if os != vs {
                a.alt = Some((os, c));
            }
        }
        let name = if r.chance(1, 4) { NAMES[n].to_lowercase() } else { NAMES[n].into() };
        let pos = format!("{} {p}", a.string(r, &name));
        a.ask(r, &format!("date {part}{indexed}"), "date", args, &pos, &vs, &k(vs.len()));
    }
    (a, msg)
}

/// All currentdate tests of a run see the same time, that of its beginning, however long the host takes.
fn directed(rep: &mut Rep) {
    let s = "set \"a\" \"\"; set \"b\" \"\";\nif currentdate :matches \"iso8601\" \"*\" { set \"a\" \"${1}\"; }\nif string :is \"1\" \"1\" { eval \"q('x')\"; }\nif currentdate :matches :zone \"+0000\" \"iso8601\" \"*\" { set \"b\" \"${1}\"; }\neval \"t2(a, b)\";";
    let t0 = now();
    let tr = run::simple_with(s, run::MSG, &run::runtime(), |_| {}, &mut |e: &Event| match e {
        Event::Function { id, .. } if *id == run::Q => {
            std::thread::sleep(Duration::from_millis(1100));
            Input::result(Variable::from(""))
        }
        e => run::default_answer(e),
    });
    let t1 = now();
    match tr {
        Ok(t) => {
            rep.ok(s);
            let c = t.calls(run::T2);
            let ok = t1 > t0 && c.len() == 1 && c[0][0] == c[0][1] && (t0..=t1).any(|t| Dt::at(t, 0).part("iso8601") == c[0][0].to_string());
            if !ok {
                rep.fail("the current time", format!("{t0}..{t1}\n{}", t.show()));
            }
            rep.cover("one time per run");
        }
        Err(e) => rep.fail("run", e),
    }
}
