//! A malformed script is refused, with the first error, at the place where it is.
use crate::gen::{self, Tok};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;
use sieve::compiler::{CompileError, ErrorType};
use sieve::Compiler;

pub const PROP: Prop = Prop { id: "P32", quick: 580_000, thorough: 6_000_000, directed, case };

/// Writes the tokens down and tells where each one begins.
pub fn lay(r: &mut Rng, toks: &[Tok]) -> (Vec<u8>, Vec<usize>, Vec<usize>) {
    let mut o = String::new();
    let (mut at, mut end) = (vec![], vec![]);
    let (mut word, mut multi) = (false, false);
    for (i, t) in toks.iter().enumerate() {
        let needs = word && matches!(t, Tok::W(_) | Tok::Tag(_) | Tok::N(_));
        super::p29::gap(r, &mut o, needs && !multi);
        let _ = i;
        multi = false;
        word = false;
        match t {
            Tok::S(s) => {
                let l = super::p29::literal(r, s);
                if !l.starts_with('"') {
                    o.push(' ');
                    multi = true;
                }
                at.push(o.len());
                o += &l;
            }
            _ => {
                at.push(o.len());
                match t {
                    Tok::W(w) | Tok::N(w) => {
                        o += w;
                        word = true;
                    }
                    Tok::Tag(w) => {
                        o.push(':');
                        o += w;
                        word = true;
                    }
                    Tok::P(c) => o.push(*c),
                    _ => (),
                }
            }
        }
        end.push(o.len());
    }
    (o.into_bytes(), at, end)
}
/// Line, counted from one, and bytes from the line break before.
pub fn place(text: &[u8], off: usize) -> (usize, usize) {
    let line = 1 + text[..off].iter().filter(|b| **b == b'\n').count();
    let start = text[..off].iter().rposition(|b| *b == b'\n');
    (line, start.map_or(off, |s| off - s))
}
/// The first line may count from zero or one.
fn here(text: &[u8], off: usize, e: &CompileError) -> bool {
    let (l, p) = place(text, off);
    e.line_num() == l && (e.line_pos() == p || (l == 1 && e.line_pos() == p + 1))
}
/// Where the tokenizer sees a token: a text block begins at its colon.
fn start(text: &[u8], off: usize) -> Option<usize> {
    let t = &text[off..];
    if t.len() > 5 && t[..5].eq_ignore_ascii_case(b"text:") {
        return Some(off + 4);
    }
    Some(off)
}
fn show(t: &Tok) -> String {
    match t {
        Tok::W(w) => w.to_ascii_lowercase(),
        Tok::Tag(w) => format!(":{}", w.to_ascii_lowercase()),
        Tok::S(s) => s.clone(),
        Tok::N(n) => {
            let (d, m) = match n.chars().last().map(|c| c.to_ascii_lowercase()) {
                Some('k') => (&n[..n.len() - 1], 1usize << 10),
                Some('m') => (&n[..n.len() - 1], 1 << 20),
                Some('g') => (&n[..n.len() - 1], 1 << 30),
                _ => (n.as_str(), 1),
            };
            d.parse::<usize>().map_or(n.to_ascii_lowercase(), |v| v.saturating_mul(m).to_string())
        }
        Tok::P(c) => c.to_string(),
    }
}
fn kind(e: &CompileError) -> String {
    format!("{:?}", e.error_type()).chars().take_while(|c| c.is_alphanumeric()).collect()
}
fn w(s: &str) -> Tok {
    Tok::W(s.into())
}
fn p(c: char) -> Tok {
    Tok::P(c)
}

pub fn base(r: &mut Rng) -> (Vec<Tok>, bool) {
    let mut g = gen::Gen::new(r, gen::Opts { max_stmts: 6, ..Default::default() });
    g.script();
    let (toks, caps) = (g.out, g.caps);
    let ihave = caps.contains("ihave");
    let mut all = vec![];
    if !caps.is_empty() {
        all.push(w("require"));
        all.push(p('['));
        for (i, c) in caps.iter().enumerate() {
            if i > 0 {
                all.push(p(','));
            }
            all.push(Tok::S(c.to_string()));
        }
        all.push(p(']'));
        all.push(p(';'));
    }
    all.extend(toks);
    (all, ihave)
}
/// For each token: depth of blocks before it, and whether a statement begins there (`all.len()` included).
pub fn starts(all: &[Tok]) -> Vec<(usize, bool)> {
    let mut d = 0;
    let mut first = true;
    let mut o = vec![];
    for t in all {
        o.push((d, first));
        first = false;
        match t {
            Tok::P('{') => {
                d += 1;
                first = true;
            }
            Tok::P('}') => {
                d -= 1;
                first = true;
            }
            Tok::P(';') => first = true,
            _ => (),
        }
    }
    o.push((d, first));
    o
}

/// The generic grammar of RFC 5228 (8.2) over tokens; string lists are not looked into.
struct Grammar<'x> {
    t: &'x [Tok],
    i: usize,
}
impl Grammar<'_> {
    fn eat(&mut self, c: char) -> bool {
        let ok = self.t.get(self.i) == Some(&p(c));
        self.i += ok as usize;
        ok
    }
    fn word(&mut self) -> Option<String> {
        match self.t.get(self.i) {
            Some(Tok::W(w)) => {
                self.i += 1;
                Some(w.to_ascii_lowercase())
            }
            _ => None,
        }
    }
    fn args(&mut self) -> bool {
        loop {
            match self.t.get(self.i) {
                Some(Tok::S(_) | Tok::N(_) | Tok::Tag(_)) => self.i += 1,
                Some(Tok::P('[')) => {
                    self.i += 1;
                    loop {
                        match self.t.get(self.i) {
                            Some(Tok::P(']')) => break,
                            Some(Tok::S(_) | Tok::P(',')) => self.i += 1,
                            _ => return false,
                        }
                    }
                    self.i += 1;
                }
                _ => return true,
            }
        }
    }
    fn test(&mut self) -> bool {
        if self.eat('(') {
            return self.test() && self.eat(')');
        }
        match self.word().as_deref() {
            None => false,
            Some("not") => self.test(),
            Some("anyof" | "allof") => {
                if !self.eat('(') {
                    return false;
                }
                loop {
                    if !self.test() {
                        return false;
                    }
                    if !self.eat(',') {
                        return self.eat(')');
                    }
                }
            }
            Some("if" | "elsif" | "else" | "keep" | "discard" | "stop" | "require" | "fileinto" | "redirect" | "set" | "foreverypart" | "while") => false,
            Some(_) => self.args(),
        }
    }
    fn block(&mut self) -> bool {
        self.eat('{') && self.commands() && self.eat('}')
    }
    fn commands(&mut self) -> bool {
        let mut open_if = false;
        loop {
            let was = std::mem::replace(&mut open_if, false);
            let at = self.i;
            let Some(w) = self.word() else { return true };
            let ok = match w.as_str() {
                "if" => {
                    open_if = true;
                    self.test() && self.block()
                }
                "elsif" if was => {
                    open_if = true;
                    self.test() && self.block()
                }
                "else" if was => self.block(),
                "else" | "elsif" | "true" | "false" | "not" | "anyof" | "allof" | "header" | "address" | "exists" | "size" => {
                    self.i = at;
                    false
                }
                "while" | "foreverypart" => self.args() && self.block(),
                _ => self.args() && self.eat(';'),
            };
            if !ok {
                return false;
            }
        }
    }
}

enum Want {
    /// the error stands at this offset and is of this kind
    At(&'static str, usize),
    /// an unexpected token: this one
    Unexpected(usize, Option<&'static str>),
    /// refused because the script ends too early
    End,
    Fine,
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let c = run::compiler().with_max_local_variables(256).with_max_match_variables(63);
    let (all, ihave) = base(r);
    let plain = gen::render(&all);
    rep.current = plain.clone();
    if c.compile(plain.as_bytes()).is_err() {
        rep.cover("generated script refused");
        return;
    }
    for _ in 0..4 {
        one(rep, r, &c, &all, ihave);
    }
}

fn one(rep: &mut Rep, r: &mut Rng, c: &Compiler, all: &[Tok], ihave: bool) {
    let st = starts(all);
    let n = all.len();
    let mut toks = all.to_vec();
    let label: &str;
    let (mut before, mut byte) = (None, None);
    let (text, want): (Vec<u8>, Want);
    match r.below(14) {
        0 | 1 => {
            // an illegal character between two tokens, or at the end of one
            let (mut t, at, end) = lay(r, &toks);
            let i = r.below(n + 1);
            let bad = *r.pick(b"\\@!%&'*+-<=>?^|~`\0\x01\x07\x7f\x80\xc3\xff\x0b\x0c");
            let off = if i == n {
                t.extend_from_slice(b"\n");
                t.len()
            } else if i > 0 && r.chance(1, 3) && !matches!(all[i - 1], Tok::S(_)) {
                end[i - 1]
            } else {
                at[i]
            };
            t.insert(off, bad);
            text = t;
            want = Want::At("InvalidCharacter", off);
            label = "illegal character";
            before = if i == n { at.last() } else { at[..i].last() }.copied();
            if i > 1 && off == end[i - 1] && matches!(&all[i - 1], Tok::W(_) | Tok::N(_) | Tok::Tag(_)) && matches!(&all[i - 2], Tok::W(_) | Tok::P(',') | Tok::S(_)) {
                // the character ends the token looked at
                before = Some(at[i - 2]);
            }
            byte = Some(bad);
        }
        2 => {
            // the script ends within a string or comment
            let strings: Vec<usize> = (0..n).filter(|i| matches!(all[*i], Tok::S(_))).collect();
            let (mut t, at, end) = lay(r, &toks);
            if !strings.is_empty() && r.chance(2, 3) {
                let i = *r.pick(&strings);
                let (a, b) = (at[i], end[i]);
                before = at[..i].last().copied();
                let multi = t[a] != b'"';
                if multi {
                    // at least the first line, without the final dot
                    let nl = t[a..b].iter().position(|x| *x == b'\n').unwrap() + a;
                    let dot = t[..b].iter().rposition(|x| *x == b'.').unwrap();
                    t.truncate(nl + 1 + r.below(dot - nl));
                    let colon = t[a..].iter().position(|x| *x == b':').unwrap() + a;
                    text = t;
                    want = Want::At("UnterminatedMultiline", colon);
                } else {
                    t.truncate(a + 1 + r.below(b - a - 1));
                    text = t;
                    want = Want::At("UnterminatedString", a);
                }
            } else {
                let i = r.below(n + 1);
                t.truncate(if i == n { t.len() } else { at[i] });
                if i == n && r.chance(1, 2) {
                    t.push(b'\n');
                }
                before = at[..i].last().copied();
                let a = t.len();
                t.extend_from_slice(r.pick(&["/*", "/* x", "/**", "/*\n\n", "/* \"*", "/* * /", "/*/"]).as_bytes());
                text = t;
                // the comment begins with the asterisk
                want = Want::At("UnterminatedComment", a + 1);
            }
            label = "unterminated";
        }
        3 | 4 => {
            // cut between two tokens
            let i = r.below(n + 1);
            toks.truncate(i);
            let (t, at, _) = lay(r, &toks);
            before = at.last().copied();
            text = t;
            want = if st[i].0 == 0 && st[i].1 { Want::Fine } else { Want::End };
            label = "cut";
        }
        5 => {
            // a missing semicolon
            let semis: Vec<usize> = (0..n).filter(|i| all[*i] == p(';')).collect();
            if semis.is_empty() || ihave {
                return;
            }
            let i = *r.pick(&semis);
            toks.remove(i);
            let (t, at, _) = lay(r, &toks);
            before = at[..i].last().copied();
            want = if i < n - 1 { Want::Unexpected(at[i], Some(";")) } else { Want::End };
            text = t;
            label = "missing semicolon";
        }
        6 | 7 => {
            // something that is not a command where one is expected
            let places: Vec<usize> = (0..=n).filter(|i| st[*i].1).collect();
            let i = *r.pick(&places);
            let mut bad = vec![p(')'), p(']'), p('('), p('['), p(','), p(';'), Tok::S("x".into()), Tok::N("10".into()), Tok::Tag("is".into()), p('{')];
            if st[i].0 == 0 {
                bad.push(p('}'));
                bad.push(p('}'));
            }
            let after_if = i > 0 && all[i - 1] == p('}');
            if !after_if {
                bad.push(w("else"));
                bad.push(w("elsif"));
            }
            if !ihave {
                bad.extend([w("kee"), w("keeps"), w("foo"), w("header"), w("true"), w("anyof"), w("x_y"), w("x.y")]);
            }
            let b = r.pick(&bad).clone();
            let with = r.chance(1, 2) && matches!(b, Tok::W(_));
            toks.insert(i, b);
            if with {
                toks.insert(i + 1, p(';'));
            }
            let (t, at, _) = lay(r, &toks);
            want = Want::Unexpected(at[i], None);
            text = t;
            label = "not a command";
        }
        8 => {
            // a missing brace or parenthesis after its keyword
            let open: Vec<usize> = (0..n).filter(|i| matches!(all[*i], Tok::P('{')) || (matches!(all[*i], Tok::P('(')) && matches!(&all[*i - 1], Tok::W(w) if w == "anyof" || w == "allof"))).collect();
            if open.is_empty() || ihave {
                return;
            }
            let i = *r.pick(&open);
            let what = if all[i] == p('{') { "{" } else { "(" };
            toks.remove(i);
            let (t, at, _) = lay(r, &toks);
            want = Want::Unexpected(at[i], Some(what));
            text = t;
            label = "missing opening brace";
        }
        9 => {
            // a missing comma between two tests
            let mut stack = vec![];
            let mut commas = vec![];
            for (i, t) in all.iter().enumerate() {
                match t {
                    Tok::P('(') => stack.push(true),
                    Tok::P('[') => stack.push(false),
                    Tok::P(')' | ']') => {
                        stack.pop();
                    }
                    Tok::P(',') if stack.last() == Some(&true) => commas.push(i),
                    _ => (),
                }
            }
            if commas.is_empty() || ihave {
                return;
            }
            let i = *r.pick(&commas);
            let (bad, at_bad) = if r.chance(1, 2) {
                toks.remove(i);
                ("missing comma", i)
            } else {
                toks.insert(i, p(','));
                ("doubled comma", i)
            };
            let (t, at, _) = lay(r, &toks);
            want = Want::Unexpected(at[at_bad], None);
            text = t;
            label = bad;
        }
        10 => {
            // a test that does not exist
            let tests: Vec<usize> = (1..n).filter(|i| matches!(&all[*i], Tok::W(x) if !matches!(x.as_str(), "not" | "anyof" | "allof" | "eval")) && match &all[*i - 1] {
                Tok::W(x) => matches!(x.as_str(), "if" | "elsif" | "not"),
                Tok::P('(' | ',') => true,
                _ => false,
            }).collect();
            if tests.is_empty() || ihave {
                return;
            }
            let i = *r.pick(&tests);
            toks[i] = r.pick(&[w("headers"), w("keep"), w("foo"), w("addres"), w("if"), Tok::S("true".into()), Tok::N("1".into()), p('}'), p(';'), p('{'), p(']')]).clone();
            let (t, at, _) = lay(r, &toks);
            want = Want::Unexpected(at[i], None);
            text = t;
            // "not" looks ahead and reports itself
            if matches!(&all[i - 1], Tok::P(',')) && !matches!(toks[i], Tok::W(_)) {
                return;
            }
            if all[i - 1] == w("not") && !matches!(toks[i], Tok::W(_)) {
                return;
            }
            label = "not a test";
        }
        11 => {
            // a misspelled tag
            let tags: Vec<usize> = (0..n).filter(|i| matches!(all[*i], Tok::Tag(_))).collect();
            if tags.is_empty() || ihave {
                return;
            }
            let i = *r.pick(&tags);
            toks[i] = Tok::Tag(r.pick(&["foo", "iss", "x9", "no_tag", "set", "keep"]).to_string());
            let (t, at, _) = lay(r, &toks);
            want = Want::Unexpected(at[i], None);
            text = t;
            label = "unknown tag";
        }
        12 => {
            // a number where a string has to be, or the reverse
            let args: Vec<usize> = (0..n).filter(|i| matches!(all[*i], Tok::S(_) | Tok::N(_))).collect();
            if args.is_empty() || ihave {
                return;
            }
            let i = *r.pick(&args);
            let string = matches!(all[i], Tok::S(_));
            toks[i] = if string { Tok::N(r.pick(&["1", "20K", "0"]).to_string()) } else { Tok::S("1".into()) };
            let (t, at, _) = lay(r, &toks);
            before = at[..i].last().copied();
            want = Want::Unexpected(at[i], None);
            text = t;
            label = if string { "number for a string" } else { "string for a number" };
        }
        _ => {
            // any change: an error is that of a token that is there, and what follows it does not matter
            for _ in 0..1 + r.below(2) {
                let m = toks.len();
                let i = r.below(m);
                match r.below(5) {
                    0 => {
                        toks.remove(i);
                        if toks.is_empty() {
                            return;
                        }
                    }
                    1 => {
                        let t = toks[r.below(m)].clone();
                        toks.insert(i, t);
                    }
                    2 => {
                        let j = r.below(m);
                        toks.swap(i, j);
                    }
                    3 => {
                        let j = (i + r.below(8)).min(m);
                        let cp = toks[i..j].to_vec();
                        let at = r.below(m);
                        toks.splice(at..at, cp);
                    }
                    _ => {
                        toks[i] = r.pick(&[w("foo"), w("keep"), Tok::Tag("is".into()), Tok::N("7".into()), Tok::S("a".into()), p('{'), p('}'), p(';'), p(','), p('['), p(']'), p('('), p(')')]).clone();
                    }
                }
            }
            let (text, at, end) = lay(r, &toks);
            rep.current = String::from_utf8_lossy(&text).into_owned();
            let Err(e) = c.compile(&text) else {
                rep.cover("changed script accepted");
                let mut g = Grammar { t: &toks, i: 0 };
                // unknown commands and tests are skipped where ihave is required
                if !ihave && (!g.commands() || g.i != toks.len()) {
                    rep.fail("accepted although the grammar does not allow it", format!("from token {} ({:?})\n{}", g.i, toks.get(g.i), rep.current));
                }
                rep.ok(&text);
                return;
            };
            rep.ok(&text);
            let k = kind(&e);
            rep.cover(&format!("changed: {k}"));
            if k == "UnexpectedEOF" {
                let last = place(&text, text.len()).0;
                if e.line_num() != last {
                    rep.fail("end of the script", format!("{e:?} instead of line {last}\n{}", rep.current));
                }
                return;
            }
            if k == "UnterminatedBlock" {
                return;
            }
            let near: Vec<usize> = (0..toks.len()).filter(|i| here(&text, at[*i], &e) || (matches!(toks[*i], Tok::Tag(_)) && here(&text, at[*i] + 1, &e)) || start(&text, at[*i]).is_some_and(|c| here(&text, c, &e))).collect();
            if near.is_empty() {
                return rep.fail("no token is at the place of the error", format!("{e:?}\n{}", rep.current));
            }
            let i = *near.last().unwrap();
            if let ErrorType::UnexpectedToken { found, .. } = e.error_type() {
                // strings are shown before their references are expanded
                if !near.iter().any(|i| *found == show(&toks[*i])) {
                    rep.fail("the token found is another", format!("{e:?}, there is {:?}\n{}", toks[i], rep.current));
                }
            }
            // what comes later does not matter, but a list is read to its end first
            if toks[i] == p('[') || (matches!(toks[i], Tok::Tag(_)) && toks.get(i + 1) == Some(&p('['))) || !matches!(k.as_str(), "UnexpectedToken" | "DuplicatedParameter" | "UndeclaredCapability" | "InvalidCharacter") {
                return;
            }
            let keep = (i + 3).min(toks.len());
            let mut other = text[..end[keep - 1]].to_vec();
            if other.last() != Some(&b'\n') {
                other.push(b'\n');
            }
            other.extend_from_slice(r.pick(&["@", "\"", "keep;", "}", "}}}}}}", "/*", "require \"foo\";", "", "foo", "[", "text:\n", "{ 99 ] , :is"]).as_bytes());
            match c.compile(&other) {
                Err(f) if f.line_num() == e.line_num() && f.line_pos() == e.line_pos() && format!("{:?}", f.error_type()) == format!("{:?}", e.error_type()) => rep.cover("the first error is reported"),
                f => rep.fail("another error although only what follows was changed", format!("{e:?} and {f:?}\n{}\n----\n{}", rep.current, String::from_utf8_lossy(&other))),
            }
            return;
        }
    }
    // what looks ahead past the preceding token may complain about that one instead
    if let (Some(b), Err(e)) = (before, c.compile(&text)) {
        let other = match e.error_type() {
            ErrorType::InvalidArguments => true,
            ErrorType::UnexpectedToken { .. } => matches!(want, Want::At(..) | Want::End),
            _ => false,
        };
        if other && start(&text, b).is_some_and(|b| here(&text, b, &e)) && !matches!(want, Want::Fine) {
            rep.cover("met while looking ahead");
            rep.ok(&text);
            return;
        }
    }
    if let (Some(bad), Err(e)) = (byte, c.compile(&text)) {
        if !matches!(e.error_type(), ErrorType::InvalidCharacter(b) if *b == bad) {
            return rep.fail("wrong error", format!("illegal character {bad:#x}: {e:?}\n{}", String::from_utf8_lossy(&text)));
        }
    }
    check(rep, c, &text, want, label);
}

fn check(rep: &mut Rep, c: &Compiler, text: &[u8], want: Want, label: &str) {
    let shown = String::from_utf8_lossy(text).into_owned();
    rep.current = shown.clone();
    rep.ok(text);
    let res = c.compile(text);
    match (&want, &res) {
        (Want::Fine, Ok(_)) => rep.cover("whole commands accepted"),
        (Want::Fine, Err(e)) => rep.fail("refused", format!("{label}: {e:?}\n{shown}")),
        (_, Ok(_)) => rep.fail("malformed script accepted", format!("{label}\n{shown}")),
        (Want::At(k, off), Err(e)) => {
            rep.cover(label);
            if kind(e) != *k || !here(text, *off, e) {
                rep.fail("wrong error", format!("{label}: {e:?} instead of {k} at {:?}\n{shown}", place(text, *off)));
            }
        }
        (Want::Unexpected(off, what), Err(e)) => {
            rep.cover(label);
            let tag = text[*off] == b':';
            let multi = (text[*off] | 32) == b't' && text[*off..].len() > 4 && text[*off + 4] == b':';
            let at = here(text, *off, e) || (tag && here(text, *off + 1, e)) || (multi && here(text, *off + 4, e));
            let ok = match e.error_type() {
                ErrorType::UnexpectedToken { expected, .. } => what.is_none_or(|w| expected.contains(w)),
                // other words for the same
                ErrorType::ExpectedConstantString | ErrorType::InvalidArguments => what.is_none(),
                _ => false,
            };
            if !ok || !at {
                rep.fail("wrong error", format!("{label}: {e:?} instead of an unexpected token at {:?}\n{shown}", place(text, *off)));
            }
        }
        (Want::End, Err(e)) => {
            rep.cover(label);
            match kind(e).as_str() {
                "UnexpectedEOF" | "UnterminatedBlock" => (),
                _ => rep.fail("wrong error", format!("{label}: {e:?} for a script that ends too early\n{shown}")),
            }
        }
    }
    rep.sample(|| format!("{label}: {:?}\n{shown}", res.as_ref().err()));
}

fn directed(rep: &mut Rep) {
    let c = Compiler::new().register_functions(&mut run::functions());
    let table: &[(&str, &str, usize, usize)] = &[
        ("\nkeep @;", "InvalidCharacter", 2, 6),
        ("\nif true {} @ keep;", "InvalidCharacter", 2, 12),
        ("require \"foreverypart\";\nforeverypart @ { }", "InvalidCharacter", 2, 14),
        ("require \"foreverypart\";\nforeverypart { break @; }", "InvalidCharacter", 2, 22),
        ("require \"imap4flags\";\nkeep @ :flags \"a\";", "InvalidCharacter", 2, 6),
        ("\nif not @ true { }", "UnexpectedToken", 2, 4),
        ("\nif anyof(true, @ true) { }", "UnexpectedToken", 2, 14),
        ("\nif true { } \"abc", "UnterminatedString", 2, 13),
        ("\nif true { } /* x", "UnterminatedComment", 2, 14),
        ("\nif true { keep;\n\n", "UnterminatedBlock", 2, 8),
        ("\nkeep", "UnexpectedEOF", 2, 4),
        ("\nbreak;", "BreakOutsideLoop", 2, 1),
        ("require \"vnd.stalwart.while\";\n continue;", "ContinueOutsideLoop", 2, 2),
        ("require \"foreverypart\";\nforeverypart { break :name \"x\"; }", "LabelUndefined", 2, 22),
        ("require \"foreverypart\";\nforeverypart :name \"x\" { foreverypart :name \"x\" { } }", "LabelAlreadyDefined", 2, 39),
        ("require \"fileinto\";\n fileinto :copy \"x\";", "UndeclaredCapability", 2, 11),
        ("\nkeep;\n  fileinto \"x\";", "UndeclaredCapability", 3, 3),
        ("\nif header :is :is \"a\" \"b\" { }", "DuplicatedParameter", 2, 15),
        ("\n\"a\";", "UnexpectedToken", 2, 1),
        ("\nfoo;", "UnexpectedToken", 2, 1),
        ("\nif (allof(true) { }", "UnexpectedToken", 2, 17),
        ("\nif false { } else { else { } }", "UnexpectedToken", 2, 21),
        ("\nif false { } elsif true { keep; elsif true { } }", "UnexpectedToken", 2, 33),
    ];
    for (s, k, l, p) in table {
        rep.current = s.to_string();
        rep.ok(s);
        match c.compile(s.as_bytes()) {
            Err(e) if kind(&e) == *k && e.line_num() == *l && e.line_pos().abs_diff(*p) == 0 => (),
            e => rep.fail("directed", format!("{s:?}: {e:?} instead of {k} at {l}:{p}")),
        }
    }
}
