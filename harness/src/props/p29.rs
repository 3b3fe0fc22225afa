//! Different ways of writing the same script down give the same compiled script.
use crate::gen::{self, quote, Tok};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::Sieve;

pub const PROP: Prop = Prop { id: "P29", quick: 670_000, thorough: 6_000_000, directed, case };

/// White space and comments between two tokens.
pub fn gap(r: &mut Rng, o: &mut String, needed: bool) {
    let n = if needed { 1 + r.below(2) } else { r.below(3) };
    for _ in 0..n {
        match r.below(12) {
            0..=4 => o.push(' '),
            5 => o.push('\t'),
            6 => o.push('\n'),
            7 => *o += "\r\n",
            8 => *o += "  \r\n\t ",
            9 => {
                *o += "#";
                *o += r.pick(&["", " comment", "\"", " \" text: {", "# /* ", " keep;", "*/", "\u{e9}\u{1F600}", "\\", "}", "\t\t"]);
                *o += r.pick(&["\n", "\r\n"]);
            }
            _ => {
                *o += "/*";
                *o += r.pick(&["", " comment ", "*", "**", " \" ", "# x", "\n", "\r\n\r\n", " keep; ", "/", "/*", " * / ", "\u{e9}", "\\", "text:\n.\n", "${x}", "*\n*", "{", "//"]);
                *o += "*/";
            }
        }
    }
}
fn any_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => {
            let mut c = s.chars();
            c.next().map(|f| f.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default()
        }
    }
}
/// A string literal for the content; a multi-line one is followed by the end of its last line.
pub fn literal(r: &mut Rng, s: &str) -> String {
    if (s.is_empty() || s.ends_with('\n')) && r.chance(1, 2) {
        let end = *r.pick(&["\n", "\r\n"]);
        let mut o = any_case(r, "text:");
        o += r.pick(&["", " ", "\t ", " # comment", "# \" \u{e9}"]);
        o += end;
        for (i, l) in s.split_inclusive('\n').enumerate() {
            let _ = i;
            // a dot at the beginning may be doubled, and has to be if it is all there is or another follows
            let bare = l.trim_end_matches(['\r', '\n']);
            if l.starts_with('.') && (bare == "." || bare.starts_with("..") || r.chance(1, 2)) {
                o.push('.');
            }
            o += l;
        }
        o += ".";
        o += end;
        return o;
    }
    let mut o = String::from("\"");
    let mut last = ' ';
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            '\n' if r.chance(1, 3) => o += "\\n",
            '\r' if r.chance(1, 3) => o += "\\r",
            '\t' if r.chance(1, 3) => o += "\\t",
            // other characters may be escaped as well
            'n' | 'r' | 't' | '\n' | '\r' | '\t' => o.push(c),
            '{' if last == '$' || last == '%' => o.push(c),
            c if c.is_ascii() && r.chance(1, 20) => {
                o.push('\\');
                o.push(c);
            }
            c => o.push(c),
        }
        last = c;
    }
    o.push('"');
    o
}
fn number(r: &mut Rng, n: &str) -> String {
    let (d, m) = match n.chars().last().unwrap().to_ascii_lowercase() {
        'k' => (&n[..n.len() - 1], 1u128 << 10),
        'm' => (&n[..n.len() - 1], 1 << 20),
        'g' => (&n[..n.len() - 1], 1 << 30),
        _ => (n, 1),
    };
    let v = d.parse::<u128>().unwrap() * m;
    let z = r.pick(&["", "", "0", "000"]);
    for (k, s) in [(1u128 << 30, ["G", "g"]), (1 << 20, ["M", "m"]), (1 << 10, ["K", "k"])] {
        if v > 0 && v % k == 0 && r.chance(1, 2) {
            return format!("{z}{}{}", v / k, r.pick(&s));
        }
    }
    if v <= u64::MAX as u128 {
        format!("{z}{v}")
    } else {
        n.to_string()
    }
}

/// A random way of writing the tokens down.
pub fn write(r: &mut Rng, toks: &[Tok]) -> String {
    let mut o = String::new();
    let mut word = false;
    let mut multi = false;
    for (i, t) in toks.iter().enumerate() {
        let needs = word && matches!(t, Tok::W(_) | Tok::Tag(_) | Tok::N(_));
        if i > 0 && !multi {
            gap(r, &mut o, needs);
        } else {
            gap(r, &mut o, false);
        }
        multi = false;
        word = false;
        match t {
            Tok::W(w) => {
                o += &any_case(r, w);
                word = true;
            }
            Tok::Tag(w) => {
                o.push(':');
                o += &any_case(r, w);
                word = true;
            }
            Tok::N(n) => {
                o += &number(r, n);
                word = true;
            }
            Tok::S(s) => {
                // "text:" must not run into the word before
                let l = literal(r, s);
                if !l.starts_with('"') {
                    o.push(' ');
                    multi = true;
                }
                o += &l;
            }
            Tok::P(c) => o.push(*c),
        }
    }
    gap(r, &mut o, false);
    o += r.pick(&["", "", "# end", "#", "\n"]);
    o
}

/// Tagged arguments that are followed by a value.
pub const ARG: &[&str] = &[
    "value", "count", "comparator", "zone", "name", "index", "header", "uniqueid", "seconds", "days", "subject", "from", "handle", "addresses", "fcc", "flags", "mailboxid", "specialuse", "importance",
    "options", "message", "first", "bytimerelative", "bytimeabsolute", "bymode", "notify", "ret", "param", "content", "headers", "originalzone",
];

/// The length of the value that starts here.
pub fn value_len(toks: &[Tok]) -> usize {
    match toks.first() {
        Some(Tok::P('[')) => toks.iter().position(|t| *t == Tok::P(']')).map_or(0, |p| p + 1),
        Some(Tok::S(_) | Tok::N(_)) => 1,
        _ => 0,
    }
}

/// Other orders of tagged arguments, and brackets around single strings left away.
fn rearrange(r: &mut Rng, toks: &[Tok], rep: &mut Rep) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            Tok::Tag(_) => {
                let mut groups: Vec<Vec<Tok>> = vec![];
                while let Some(Tok::Tag(n)) = toks.get(i) {
                    let mut g = vec![toks[i].clone()];
                    i += 1;
                    if ARG.contains(&n.as_str()) {
                        let l = value_len(&toks[i..]);
                        g.extend_from_slice(&toks[i..i + l]);
                        i += l;
                    } else if n == "replace" {
                        g.extend_from_slice(&toks[i..i + 2]);
                        i += 2;
                    }
                    groups.push(g);
                }
                // :replace has the precedence of :upper and :lower: their order matters
                if groups.len() > 1 && !groups.iter().any(|g| g[0] == Tok::Tag("replace".into())) && r.chance(1, 2) {
                    for k in (1..groups.len()).rev() {
                        groups.swap(k, r.below(k + 1));
                    }
                    rep.cover("tagged arguments in another order");
                }
                out.extend(groups.into_iter().flatten());
            }
            Tok::P('[') if matches!(toks.get(i + 1), Some(Tok::S(_))) && toks.get(i + 2) == Some(&Tok::P(']')) && r.chance(1, 2) => {
                out.push(toks[i + 1].clone());
                rep.cover("list of one string without brackets");
                i += 3;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    out
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let mut g = gen::Gen::new(r, gen::Opts::default());
    g.script();
    let (mut toks, caps) = (g.out, g.caps);
    if r.chance(1, 3) {
        // contents for literals of several lines
        for t in toks.iter_mut() {
            if let Tok::S(s) = t {
                if r.chance(1, 3) {
                    *s = r.pick(&["\n", ".\n", "..\n.\r\n", "a\n.b\nc\r\n", "${v0}\n", "x\\\"\n", "5\n", "\r\n", "", "tab\there\n", "#\n", "/*\n", "\u{e9}\n"]).to_string();
                }
            }
        }
    }
    let mut all = vec![];
    if !caps.is_empty() {
        all.push(Tok::W("require".into()));
        all.push(Tok::P('['));
        for (i, c) in caps.iter().enumerate() {
            if i > 0 {
                all.push(Tok::P(','));
            }
            all.push(Tok::S(c.to_string()));
        }
        all.push(Tok::P(']'));
        all.push(Tok::P(';'));
    }
    all.extend(toks);
    let plain = gen::render(&all);
    let c = run::compiler().with_max_local_variables(256).with_max_match_variables(63);
    let a = c.compile(plain.as_bytes());
    for _ in 0..3 {
        let moved = r.chance(1, 2);
        let v = if moved { rearrange(r, &all, rep) } else { all.clone() };
        let text = write(r, &v);
        rep.current = format!("{plain}\n---- written differently\n{text}");
        let cur = rep.current.clone();
        let b = c.compile(text.as_bytes());
        match (&a, &b) {
            (Ok(a), Ok(b)) => {
                rep.ok(&cur);
                rep.cover("same script");
                if a != b && !same_but_for_positions(a, b) {
                    return rep.fail("different script", format!("{cur}\n{}", diff(a, b)));
                }
            }
            (Err(a), Err(b)) => {
                rep.cover("refused both ways");
                if !moved && format!("{:?}", a.error_type()) != format!("{:?}", b.error_type()) {
                    return rep.fail("another error", format!("{a:?}\n{b:?}\n{cur}"));
                }
            }
            (a, b) => return rep.fail("refused one way", format!("{:?}\n{:?}\n{cur}", a.as_ref().err(), b.as_ref().err())),
        }
        let cur = rep.current.clone();
        rep.sample(|| cur);
    }
}
/// Unknown commands and tests keep their place in the script.
fn same_but_for_positions(a: &Sieve, b: &Sieve) -> bool {
    let f = |s: &Sieve| {
        let t = format!("{s:?}");
        let mut o = String::new();
        let mut rest = t.as_str();
        while let Some(p) = ["line_num: ", "line_pos: "].iter().filter_map(|k| rest.find(k).map(|p| p + k.len())).min() {
            o += &rest[..p];
            rest = rest[p..].trim_start_matches(|c: char| c.is_ascii_digit());
        }
        o + rest
    };
    let (x, y) = (f(a), f(b));
    x == y && format!("{a:?}").contains("line_num")
}
fn diff(a: &Sieve, b: &Sieve) -> String {
    let (x, y) = (format!("{a:#?}"), format!("{b:#?}"));
    let (x, y): (Vec<&str>, Vec<&str>) = (x.lines().collect(), y.lines().collect());
    let k = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
    format!("{:#?}\n{:#?}", &x[k.saturating_sub(6)..(k + 6).min(x.len())], &y[k.saturating_sub(6)..(k + 6).min(y.len())])
}

fn directed(rep: &mut Rep) {
    let _ = quote;
    let groups: &[&[&str]] = &[
        &["keep;", "KEEP;", " keep ; ", "\r\nkeep\r\n;\r\n", "/**/keep/***/;#x", "#x\nkeep;", "# x\r\nkeep # y\n;", "/* \n * \" */ keep;", "keep;#"],
        &["fileinto \"a\";", "fileinto\"a\";", "FileInto\t\"\\a\"\n;"],
        &["fileinto \"a\\\\\";", "fileinto/*x*/\"a\\\\\"/* \" */;"],
        &["redirect \"a@b.org\\n\";", "redirect text:\na@b.org\n.\n;", "redirect TEXT: # c\na@b.org\n.\r\n;"],
        &["reject \".\\n..\\n\";", "reject text:\n..\n...\n.\n;"],
        &["reject \".a\\n\";", "reject text:\n.a\n.\n;", "reject text:\n..a\n.\n;"],
        &["reject \"\";", "reject text:\n.\n;", "reject text:\r\n.\r\n;"],
        &["reject \"a\\r\\n\";", "reject text:\r\na\r\n.\r\n;"],
        &["if size :over 1K { stop; }", "if size :over 1024{stop;}", "IF SIZE :OVER 01k\n{\nSTOP;\n}\n"],
        &["if size :over 3G { stop; }", "if size :over 3221225472 { stop; }", "if size :over 3072M { stop; }"],
        &["if anyof(true, not false) { }", "if anyof(true,not false){}", "IF/**/ANYOF/**/(/**/TRUE/**/,/**/NOT/**/FALSE/**/)/**/{/**/}/**/"],
        &["if header :is \"a\" \"b\" { }", "if header \"a\" \"b\" { }", "if header :comparator \"i;ascii-casemap\" [\"a\"] [\"b\"] { }"],
    ];
    let c = run::compiler();
    let mut seen: Vec<(Sieve, &str)> = vec![];
    for g in groups {
        let a = c.compile(g[0].as_bytes());
        for t in g.iter() {
            rep.current = t.to_string();
            rep.ok(t);
            match (&a, c.compile(t.as_bytes())) {
                (Ok(a), Ok(b)) if *a == b => (),
                (a, b) => rep.fail("directed", format!("{} and {t:?}: {a:?} {b:?}", g[0])),
            }
        }
        if let Ok(a) = a {
            if let Some((_, o)) = seen.iter().find(|(s, _)| *s == a) {
                rep.fail("directed", format!("{o:?} and {:?} are not the same", g[0]));
            }
            seen.push((a, g[0]));
        }
    }
}
