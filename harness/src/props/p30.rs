//! Strings mean what was written: literals, encoded characters, references.
use crate::props::p29::literal;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use sieve::{Envelope, Event, Input, Mailbox};

pub const PROP: Prop = Prop { id: "P30", quick: 3_200_000, thorough: 15_000_000, directed, case };

const TEXT: &[&str] = &[
    "a", "B", "x y", "\u{e9}", "\u{1F600}", "\u{4e2d}", "\"", "\\", "\n", "\r\n", "\t", "\u{0}", "\u{7f}", "$", "$$", "{", "}", "%", "%{", "{}", "${", "${}", "#", "/*", ".", "..", "\n.", "\n..\n", ",", ";", "5", "-", "0.5", "007", "1.50", "-0", "9223372036854775808", "1e5",
    ":", "text:", "hex:41", "unicode:41", "[", "]", "nan", "inf", "${a", "${a b}", "${a$", "${hex", "${hex:", "${hex:4", "${hex:}", "${hex: }", "${hex:g}", "${hex:100}", "${hex:41,42}", "${hex:41 100}", "${hex:100 41}", "${hex:41 42 1ff 43}", "${unicode:41 123456789}", "${unicode:123456789 41}", "${hex:41 g}", "${hex:41 42", "${hex:0041}", "${hex:000000041 42}", "${unicode:}", "${unicode:x}", "${unicode:41", "${oct:41}", "${nosuch.x}", "${.x}", "${envelope.bogus}", "${a:b}", "${-a+}", "\\n", "\\\"", "$\\",
];

fn case_of(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}
fn encoded(r: &mut Rng) -> String {
    let t = *r.pick(&["A", "\u{e9}", "\u{1F600}", "$", "{", "}", "\"", "\\", "\r\n", "\u{0}", "${a}", "${", "a}", "5", ".", "abc", "\u{4e2d}\u{6587}", "\u{10FFFF}", "\u{D7FF}\u{E000}"]);
    let blank = |r: &mut Rng, o: &mut String, need: bool| {
        for _ in 0..if need { 1 + r.below(2) } else { r.below(2) } {
            *o += *r.pick(&[" ", "\t", "\r\n", "\n"]);
        }
    };
    let mut o = String::from("${");
    let hex = r.chance(1, 2);
    o += &case_of(r, if hex { "hex:" } else { "unicode:" });
    let codes: Vec<u32> = if hex { t.bytes().map(|b| b as u32).collect() } else { t.chars().map(|c| c as u32).collect() };
    for (i, c) in codes.iter().enumerate() {
        blank(r, &mut o, i > 0);
        let s = match r.below(3) {
            0 if !hex => format!("{c:06x}"),
            1 => format!("{c:X}"),
            _ => format!("{c:02x}"),
        };
        o += &s;
        // a byte sequence may continue in another reference
        if i + 1 < codes.len() && r.chance(1, 8) {
            o += "}${";
            o += if hex { "hex:" } else { "unicode:" };
        }
    }
    blank(r, &mut o, false);
    o.push('}');
    // now and then one character is spoiled, left out or added
    if r.chance(1, 10) {
        let cs: Vec<char> = o.chars().collect();
        let i = 2 + r.below(cs.len() - 2);
        let mut t: String = cs[..i].iter().collect();
        match r.below(3) {
            0 => t.extend(&cs[i + 1..]),
            1 => {
                t.push(*r.pick(&['g', ',', '0', 'F', ' ', '}', '$', ':', '\u{e9}']));
                t.extend(&cs[i..]);
            }
            _ => {
                t.push(*r.pick(&['g', ',', '0', 'F', ' ', '}', '$', ':', '\u{e9}']));
                t.extend(&cs[i + 1..]);
            }
        }
        o = t;
    }
    o
}
const VARS: &[(&str, &str)] = &[("a", "<va>"), ("b_1", "${c}"), ("long.name", ""), ("c", "")];

fn content(r: &mut Rng) -> String {
    let mut o = String::new();
    for _ in 0..r.below(7) {
        match r.below(8) {
            0..=3 => o += r.pick(TEXT),
            4 | 5 => o += &encoded(r),
            _ => {
                let n = *r.pick(&["a", "b_1", "c", "nosuch", "global.g", "t.g", "env.name2", "envelope.from", "global.none", "env.none", "a", "7", "29"]);
                let n = if r.chance(1, 60) { *r.pick(&["30", "99999999999999999999"]) } else { n };
                let n = case_of(r, n);
                o += &format!("${{{n}}}");
            }
        }
    }
    o
}

/// The reference: encoded characters first, then references to variables.
fn decode(s: &str) -> Result<Vec<u8>, u32> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    'outer: while i < b.len() {
        if b[i..].starts_with(b"${") {
            let rest = &b[i + 2..];
            for (k, uni) in [(&b"hex:"[..], false), (&b"unicode:"[..], true)] {
                if rest.len() > k.len() && rest[..k.len()].eq_ignore_ascii_case(k) {
                    let Some(end) = rest.iter().position(|c| *c == b'}') else { continue };
                    let body = &rest[k.len()..end];
                    if !body.iter().all(|c| c.is_ascii_hexdigit() || b" \t\r\n".contains(c)) {
                        continue;
                    }
                    let codes: Vec<u64> = body.split(|c| b" \t\r\n".contains(c)).filter(|c| !c.is_empty()).map(|c| u64::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap_or(u64::MAX)).collect();
                    if codes.is_empty() || codes.iter().any(|c| if uni { *c > u32::MAX as u64 } else { *c > 255 }) {
                        continue;
                    }
                    for c in codes {
                        if uni {
                            let ch = char::from_u32(c as u32).ok_or(c as u32)?;
                            o.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                        } else {
                            o.push(c as u8);
                        }
                    }
                    i += 2 + end + 1;
                    continue 'outer;
                }
            }
        }
        o.push(b[i]);
        i += 1;
    }
    Ok(o)
}
/// Whether there is a sequence of codes without an end.
fn unfinished(s: &str) -> bool {
    let l = s.to_ascii_lowercase();
    l.match_indices("${unicode:").any(|(i, k)| !l[i + k.len()..].trim_start_matches(|c: char| c.is_ascii_hexdigit() || " \t\r\n".contains(c)).starts_with('}'))
}
fn subst(s: &str, var: &dyn Fn(&str) -> Option<String>) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with("${") {
            if let Some(end) = s[i..].find('}') {
                let name = &s[i + 2..i + end];
                if !name.is_empty() && name.bytes().all(|c| c.is_ascii_alphanumeric() || b"_.-[]*".contains(&c)) {
                    if let Some(v) = var(&name.to_lowercase()) {
                        o += &v;
                        i += end + 1;
                        continue;
                    }
                }
            }
        }
        let c = s[i..].chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
    }
    o
}

fn go(rep: &mut Rep, r: &mut Rng, contents: &[String]) {
    let big = std::cell::Cell::new(false);
    let var = |n: &str| -> Option<String> {
        if n.bytes().all(|c| c.is_ascii_digit()) && n.parse::<u32>().map_or(true, |n| n >= 30) {
            big.set(true);
        }
        match n.split_once('.') {
            Some(("global" | "t", x)) if !x.is_empty() => Some(if x == "g" { "<vg>".into() } else { String::new() }),
            Some(("env", x)) if !x.is_empty() => Some(if x == "name2" { "<ve>".into() } else { String::new() }),
            Some(("envelope", "from")) => Some("sender@remote.org".into()),
            Some(("envelope", _)) => None,
            Some(_) => None,
            None => Some(VARS.iter().find(|(v, _)| *v == n).map_or("", |v| v.1).to_string()),
        }
    };
    let mut script = String::new();
    for (n, v) in VARS {
        if !n.contains('.') {
            script += &format!("set \"{n}\" {};\n", crate::gen::quote(&v.replace("${", "${hex:24}{")));
        }
    }
    // "${hex:24}{c}" would be read as a reference again: the value of b_1 comes from the host
    script = script.replace("set \"b_1\" \"${hex:24}{c}\";\n", "set \"b_1\" \"\";\nlet \"b_1\" \"t('b')\";\n");
    let mut want: Vec<(&str, Vec<String>)> = vec![];
    let mut bad = None;
    let mut vals = vec![];
    for c in contents {
        match decode(c) {
            Err(e) => {
                bad = bad.or(Some(e));
                vals.push(String::new());
            }
            Ok(b) => match String::from_utf8(b) {
                Ok(s) => vals.push(subst(&s, &var)),
                Err(_) => return rep.cover("bytes that are no text"),
            },
        }
        if c.contains("${") {
            rep.cover(if c.to_ascii_lowercase().contains("${hex:") || c.to_ascii_lowercase().contains("${unicode:") { "encoded characters" } else { "reference" });
        }
    }
    for (c, v) in contents.iter().zip(&vals) {
        let l = literal(r, c);
        if !l.starts_with('"') {
            rep.cover("multi-line string");
        }
        let l = &l;
        match r.below(7) {
            0 => {
                script += &format!("fileinto {l};\n");
                want.push(("folder", vec![v.clone()]));
            }
            1 => {
                script += &format!("reject {l};\n");
                want.push(("reason", vec![v.clone()]));
            }
            2 => {
                script += &format!("if mailboxexists [{l}, \"mid\", {}] {{ }}\n", literal(r, c));
                want.push(("mailboxes", vec![v.clone(), "mid".into(), v.clone()]));
            }
            3 => {
                script += &format!("notify :message {l} \"xmpp:a@b\";\n");
                want.push(("notify", vec![v.clone()]));
            }
            // an empty value is not looked up
            4 if !v.is_empty() => {
                script += &format!("if header :list \"x-none\" {l} {{ }} if string :list {} \"lst\" {{ }}\n", literal(r, c));
                want.push(("list", vec![v.clone()]));
            }
            5 => {
                script += &format!("vacation :addresses [\"me@example.org\"] :handle {l} \"r\";\n");
                want.push(("handle", vec![v.clone()]));
            }
            _ => {
                script += &format!("set \"v\" {l};\neval \"t(v)\";\n");
                want.push(("value", vec![v.clone()]));
            }
        }
    }
    rep.current = script.clone();
    let cur = rep.current.clone();
    rep.sample(|| cur.clone());
    let rt = run::runtime().with_max_variable_size(1 << 20).with_valid_notification_uri("xmpp").with_max_out_messages(100);
    let mut first = true;
    let mut host = |ev: &Event| match ev {
        Event::Function { .. } if first => {
            first = false;
            Input::FncResult("${c}".into())
        }
        _ => Input::True,
    };
    let msg = b"From: Sender <sender@remote.org>\r\nTo: me@example.org\r\nSubject: x\r\n\r\nbody\r\n";
    let tr = run::simple_with(
        &script,
        msg,
        &rt,
        |ctx| {
            ctx.set_envelope(Envelope::From, "sender@remote.org");
            ctx.set_global_variable("g", "<vg>");
            ctx.set_env_variable("name2", "<ve>");
        },
        &mut host,
    );
    rep.ok(&cur);
    let tr = match (tr, bad) {
        (Err(e), Some(c)) if e.contains(&format!("InvalidUnicodeSequence({c})")) => {
            rep.cover("invalid character refused");
            return;
        }
        // whichever comes first
        (Err(e), b) if (big.get() || (b.is_some() && contents.iter().any(|c| c.contains("${30}") || c.contains("${9999")))) && (e.contains("InvalidMatchVariable") || e.contains("InvalidNumber")) => {
            rep.cover("match variable out of range");
            return;
        }
        // the compiler may notice such a code before it sees that the sequence does not end
        (Err(e), _) if e.contains("InvalidUnicodeSequence") && contents.iter().any(|c| unfinished(c)) => {
            rep.cover("invalid character in an unfinished sequence");
            return;
        }
        (Ok(t), None) if !big.get() => t,
        (t, b) => return rep.fail("compile", format!("{:?} {b:?}\n{cur}", t.err())),
    };
    let mut got: Vec<(&str, Vec<String>)> = vec![];
    for e in tr.events().skip(1) {
        match e {
            Event::FileInto { folder, .. } => got.push(("folder", vec![folder.clone()])),
            Event::Reject { reason, .. } => got.push(("reason", vec![reason.clone()])),
            Event::MailboxExists { mailboxes, .. } => got.push(("mailboxes", mailboxes.iter().map(|m| match m { Mailbox::Name(n) | Mailbox::Id(n) => n.clone() }).collect())),
            Event::Notify { message, .. } => got.push(("notify", vec![message.clone()])),
            Event::ListContains { values, .. } => got.push(("list", values.clone())),
            Event::DuplicateId { id, .. } => {
                // _v + sender + handle
                got.push(("handle", vec![id.strip_prefix("_vsender@remote.org").unwrap_or(id).to_string()]))
            }
            Event::Function { arguments, .. } => got.push(("value", arguments.iter().map(|a| a.to_string().into_owned()).collect())),
            _ => (),
        }
    }
    if !matches!(tr.items.first(), Some(Tr::Ev(Event::Function { .. }))) {
        return rep.fail("first", cur);
    }
    for (k, v) in &want {
        let _ = v;
        rep.cover(k);
    }
    if want != got {
        let k = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
        return rep.fail("strings", format!("expected {:?}\nobserved {:?}\nof {:?}\n{cur}", want.get(k), got.get(k), contents.get(k)));
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let n = 1 + r.below(5);
    let c: Vec<String> = (0..n).map(|_| content(r)).collect();
    go(rep, r, &c);
}

fn directed(rep: &mut Rep) {
    let mut r = Rng::new(rep.seed);
    // every character by code and as it is, every byte
    for c in (0..0x3000u32).chain(0xD7F0..0xE010).chain(0xFFF0..0x10010).chain(0x10FFF0..0x110010).chain([u32::MAX - 1, u32::MAX]) {
        let mut v = vec![format!("x${{unicode:{c:x}}}y"), format!("${{Unicode: {c:08X} }}")];
        if let Some(ch) = char::from_u32(c) {
            v.push(format!("[{ch}]"));
            v.push(format!("{ch}"));
            v.push(format!("${{hex:{}}}", ch.to_string().bytes().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ")));
        }
        go(rep, &mut r, &v);
    }
    for t in TEXT {
        for u in TEXT {
            go(rep, &mut r, &[format!("{t}{u}"), t.to_string()]);
        }
    }
}
