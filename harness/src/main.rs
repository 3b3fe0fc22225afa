//! vh: workloads, monitors and oracles for stalwartlabs/sieve. Driven by /verif/check.py.
mod actions;
mod ask;
mod dates;
mod gen;
mod mail;
mod matching;
mod props;
mod report;
mod rng;
mod run;
#[cfg(feature = "ser")]
mod ser;

use report::Rep;
use rng::Rng;
use std::io::{Seek, SeekFrom, Write};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub directed: fn(&mut Rep),
    pub case: fn(&mut Rep, &mut Rng),
}

fn run_case(p: &Prop, rep: &mut Rep, idx: i64) {
    rep.idx = idx;
    rep.current.clear();
    let seed = rep.seed;
    let r = run::no_panic(|| {
        if idx < 0 {
            (p.directed)(rep)
        } else {
            (p.case)(rep, &mut Rng::case(seed, p.id, idx as u64))
        }
    });
    if let Err(e) = r {
        let cur = std::mem::take(&mut rep.current);
        rep.fail("panic", format!("{e}\n{cur}"));
    }
}

fn tree(m: &mail_parser::Message, d: usize) {
    for (i, p) in m.parts.iter().enumerate() {
        let k = match &p.body {
            mail_parser::PartType::Multipart(v) => format!("multipart {v:?}"),
            mail_parser::PartType::Message(_) => "message".into(),
            b => format!("{:.40}", format!("{b:?}")),
        };
        println!("{:d$}{i} {k} header {} body {} end {}", "", p.offset_header, p.offset_body, p.offset_end, d = d * 2);
        if let mail_parser::PartType::Message(m) = &p.body {
            tree(m, d + 1);
        }
    }
}

fn main() {
    run::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let get = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
        }
        // vh worker PROP TIER SEED shard nshards ncases out progress
        Some("worker") => {
            let p = get(&a[2]);
            let mut rep = Rep { seed: a[4].parse().unwrap(), thorough: a[3] == "thorough", ..Default::default() };
            let (shard, n, total): (i64, i64, i64) = (a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap());
            let mut prog = std::fs::File::create(&a[9]).unwrap();
            let mut note = |i: i64| {
                let _ = prog.seek(SeekFrom::Start(0));
                let _ = prog.write_all(format!("{i:<20}").as_bytes());
            };
            if shard == 0 {
                note(-1);
                run_case(p, &mut rep, -1);
            }
            let skip: Vec<i64> = std::env::var("VH_SKIP").unwrap_or_default().split(',').filter_map(|s| s.parse().ok()).collect();
            let end = std::env::var("VH_SECONDS").ok().and_then(|s| s.parse().ok()).map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s));
            let mut i = shard;
            while i < total {
                if skip.contains(&i) {
                    rep.cover("message parser crashes");
                    i += n;
                    continue;
                }
                if end.is_some_and(|e| std::time::Instant::now() > e) {
                    rep.cover("cases not run for lack of time");
                    break;
                }
                note(i);
                let t = std::time::Instant::now();
                run_case(p, &mut rep, i);
                if t.elapsed().as_secs() > 0 && std::env::var_os("VH_SLOW").is_some() {
                    eprintln!("slow: case {i} {:?}", t.elapsed());
                }
                if rep.fails.len() >= 10 {
                    break;
                }
                i += n;
            }
            note(-2);
            let mut h = Vec::with_capacity(rep.distinct.len() * 8);
            for d in &rep.distinct {
                h.extend_from_slice(&d.to_le_bytes());
            }
            std::fs::write(format!("{}.hashes", a[8]), h).unwrap();
            std::fs::write(&a[8], rep.json()).unwrap();
        }
        // vh replay PROP SEED idx
        Some("replay") => {
            let p = get(&a[2]);
            let mut rep = Rep { seed: a[3].parse().unwrap(), verbose: true, ..Default::default() };
            run_case(p, &mut rep, a[4].parse().unwrap());
            println!("evaluations {} violations {} {:?} known {:?}", rep.evals, rep.fails.len(), rep.cover, rep.known);
            for s in &rep.samples {
                println!("sample {s}");
            }
            std::process::exit(if rep.fails.is_empty() { 0 } else { 1 });
        }
        // vh probe script [msg]
        Some("probe") => {
            let script = std::fs::read_to_string(&a[2]).unwrap();
            let msg = a.get(3).map(|m| std::fs::read(m).unwrap()).unwrap_or_else(|| run::MSG.to_vec());
            match run::simple(&script, &msg) {
                Ok(t) => {
                    println!("{}", t.show());
                    for (i, m) in &t.msgs {
                        println!("--- message {i}\n{}", String::from_utf8_lossy(m));
                    }
                }
                Err(e) => println!("{e}"),
            }
        }
        // vh tree message: the part tree the message parser found
        Some("tree") => {
            let raw = std::fs::read(&a[2]).unwrap();
            let m = mail_parser::MessageParser::new().parse(&raw).unwrap();
            tree(&m, 0);
        }
        _ => eprintln!("usage: vh list | worker | replay | probe"),
    }
}
