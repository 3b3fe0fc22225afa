//! Reference implementation of the match types and comparators, written from the documents (RFC 5228,
//! 5231, 4790) plus the choices the code documents by its fixtures; shared by the test-oriented checks.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Octet,
    Case,
    Numeric,
    Other,
}
impl Cmp {
    pub fn tag(self) -> &'static str {
        match self {
            Cmp::Octet => "i;octet",
            Cmp::Case => "i;ascii-casemap",
            Cmp::Numeric => "i;ascii-numeric",
            Cmp::Other => "i;other-one",
        }
    }
    pub fn fold(self, s: &str) -> String {
        if self == Cmp::Octet {
            s.into()
        } else {
            s.to_lowercase()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rel {
    Gt,
    Ge,
    Lt,
    Le,
    Eq,
    Ne,
}
pub const RELS: &[Rel] = &[Rel::Gt, Rel::Ge, Rel::Lt, Rel::Le, Rel::Eq, Rel::Ne];
impl Rel {
    pub fn tag(self) -> &'static str {
        match self {
            Rel::Gt => "gt",
            Rel::Ge => "ge",
            Rel::Lt => "lt",
            Rel::Le => "le",
            Rel::Eq => "eq",
            Rel::Ne => "ne",
        }
    }
    pub fn holds(self, o: Option<std::cmp::Ordering>) -> bool {
        use std::cmp::Ordering::*;
        match self {
            Rel::Gt => o == Some(Greater),
            Rel::Ge => matches!(o, Some(Greater | Equal)),
            Rel::Lt => o == Some(Less),
            Rel::Le => matches!(o, Some(Less | Equal)),
            Rel::Eq => o == Some(Equal),
            Rel::Ne => o != Some(Equal),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Num {
    I(i64),
    F(f64),
}
/// The number a string stands for; anything else counts as infinity.
pub fn number(s: &str) -> Num {
    if s.contains('.') {
        s.parse().map_or(Num::F(f64::INFINITY), Num::F)
    } else {
        s.parse().map_or(Num::F(f64::INFINITY), Num::I)
    }
}
pub fn num_cmp(a: Num, b: Num) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (Num::I(a), Num::I(b)) => Some(a.cmp(&b)),
        (Num::F(a), Num::F(b)) => a.partial_cmp(&b),
        (Num::I(a), Num::F(b)) => (a as f64).partial_cmp(&b),
        (Num::F(a), Num::I(b)) => a.partial_cmp(&(b as f64)),
    }
}

pub fn is(c: Cmp, a: &str, b: &str) -> bool {
    rel(c, Rel::Eq, a, b)
}
pub fn contains(c: Cmp, hay: &str, needle: &str) -> bool {
    let (h, n) = (c.fold(hay).into_bytes(), c.fold(needle).into_bytes());
    needle.is_empty() || h.windows(n.len()).any(|w| w == n)
}
pub fn rel(c: Cmp, r: Rel, a: &str, b: &str) -> bool {
    if c == Cmp::Numeric {
        r.holds(num_cmp(number(a), number(b)))
    } else {
        r.holds(Some(c.fold(a).as_bytes().cmp(c.fold(b).as_bytes())))
    }
}

#[derive(Clone, Debug)]
enum P {
    Star(usize),
    One,
    Ch(char),
}
/// Parsed wildcard pattern.
pub struct Glob {
    p: Vec<P>,
    fold: bool,
}
impl Glob {
    pub fn new(c: Cmp, pat: &str) -> Self {
        let mut p = vec![];
        let mut it = pat.chars().peekable();
        while let Some(ch) = it.next() {
            match ch {
                '\\' => {
                    if let Some(n) = it.next() {
                        push(&mut p, n, c == Cmp::Case);
                    }
                }
                '?' => p.push(P::One),
                '*' => match p.last_mut() {
                    Some(P::Star(n)) => *n += 1,
                    _ => p.push(P::Star(1)),
                },
                _ => push(&mut p, ch, c == Cmp::Case),
            }
        }
        fn push(p: &mut Vec<P>, c: char, fold: bool) {
            if fold {
                p.extend(c.to_lowercase().map(P::Ch));
            } else {
                p.push(P::Ch(c));
            }
        }
        Glob { p, fold: c == Cmp::Case }
    }
    /// `None`: no match; otherwise what each wildcard stands for, each `*` as short as possible from the
    /// left. In a run of stars the last one takes the text.
    pub fn matches(&self, v: &str) -> Option<Vec<String>> {
        // (character compared, original character, first of its expansion)
        let cs: Vec<(char, char, bool)> = v
            .chars()
            .flat_map(|c| {
                if self.fold {
                    c.to_lowercase().enumerate().map(|(i, l)| (l, c, i == 0)).collect::<Vec<_>>()
                } else {
                    vec![(c, c, true)]
                }
            })
            .collect();
        let (np, nv) = (self.p.len(), cs.len());
        // ok[i][j]: pattern from i matches text from j
        let mut ok = vec![vec![false; nv + 1]; np + 1];
        ok[np][nv] = true;
        for i in (0..np).rev() {
            for j in (0..=nv).rev() {
                ok[i][j] = match &self.p[i] {
                    P::Star(_) => ok[i + 1][j] || (j < nv && ok[i][j + 1]),
                    P::One => j < nv && ok[i + 1][j + 1],
                    P::Ch(c) => j < nv && cs[j].0 == *c && ok[i + 1][j + 1],
                };
            }
        }
        if !ok[0][0] {
            return None;
        }
        let (mut out, mut j) = (vec![], 0);
        for i in 0..np {
            match &self.p[i] {
                P::Star(n) => {
                    for _ in 1..*n {
                        out.push(String::new());
                    }
                    let from = j;
                    while !ok[i + 1][j] {
                        j += 1;
                    }
                    out.push(cs[from..j].iter().filter(|c| c.2).map(|c| c.1).collect());
                }
                P::One => {
                    out.push((if cs[j].2 { cs[j].1 } else { cs[j].0 }).to_string());
                    j += 1;
                }
                P::Ch(_) => j += 1,
            }
        }
        Some(out)
    }
}
pub fn glob(c: Cmp, pat: &str, v: &str) -> Option<Vec<String>> {
    Glob::new(c, pat).matches(v)
}

/// Regular expressions over a small syntax, matched by backtracking (leftmost, first alternative first).
#[derive(Clone, Debug)]
pub enum Re {
    Lit(char),
    Any,
    Set(Vec<char>, bool),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Group(usize, Box<Re>),
    Rep(Box<Re>, usize, usize, bool),
    Start,
    End,
}
type Caps = Vec<Option<(usize, usize)>>;
impl Re {
    pub fn gen(r: &mut crate::rng::Rng, depth: usize, groups: &mut usize, letters: &[char]) -> Re {
        let atom = |r: &mut crate::rng::Rng| match r.below(6) {
            0 => Re::Any,
            1 => Re::Set((0..1 + r.below(3)).map(|_| *r.pick(letters)).collect(), r.chance(1, 3)),
            _ => Re::Lit(*r.pick(letters)),
        };
        if depth == 0 {
            return atom(r);
        }
        match r.below(8) {
            0 | 1 => Re::Cat((0..1 + r.below(4)).map(|_| Re::gen(r, depth - 1, groups, letters)).collect()),
            2 => Re::Alt((0..2 + r.below(2)).map(|_| Re::gen(r, depth - 1, groups, letters)).collect()),
            3 | 4 => {
                *groups += 1;
                let i = *groups;
                Re::Group(i, Box::new(Re::gen(r, depth - 1, groups, letters)))
            }
            5 => {
                // what repeats is never empty
                let a = atom(r);
                let a = if r.chance(1, 2) {
                    *groups += 1;
                    Re::Group(*groups, Box::new(a))
                } else {
                    a
                };
                let (lo, hi) = *r.pick(&[(0, 99), (1, 99), (0, 1), (2, 2), (1, 3)]);
                Re::Rep(Box::new(a), lo, hi, r.chance(3, 4))
            }
            _ => atom(r),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Re::Lit(c) if c.is_alphanumeric() || " -:@<>".contains(*c) => c.to_string(),
            Re::Lit(c) => format!("\\{c}"),
            Re::Any => ".".into(),
            Re::Set(s, not) => {
                let s: String = s.iter().map(|c| if c.is_alphanumeric() { c.to_string() } else { format!("\\{c}") }).collect();
                format!("[{}{s}]", if *not { "^" } else { "" })
            }
            Re::Cat(v) => v.iter().map(|x| if let Re::Alt(_) = x { format!("(?:{})", x.text()) } else { x.text() }).collect(),
            Re::Alt(v) => v.iter().map(|x| x.text()).collect::<Vec<_>>().join("|"),
            Re::Group(_, x) => format!("({})", x.text()),
            Re::Rep(x, lo, hi, greedy) => {
                let q = match (lo, hi) {
                    (0, 99) => "*".into(),
                    (1, 99) => "+".into(),
                    (0, 1) => "?".into(),
                    (a, b) => format!("{{{a},{b}}}"),
                };
                format!("{}{q}{}", x.text(), if *greedy { "" } else { "?" })
            }
            Re::Start => "^".into(),
            Re::End => "$".into(),
        }
    }
    fn run(&self, s: &[char], i: usize, c: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match self {
            Re::Lit(x) => i < s.len() && s[i] == *x && k(i + 1, c),
            Re::Any => i < s.len() && s[i] != '\n' && k(i + 1, c),
            Re::Set(v, not) => i < s.len() && (v.contains(&s[i]) != *not) && k(i + 1, c),
            Re::Cat(v) => cat(v, s, i, c, k),
            Re::Alt(v) => v.iter().any(|x| x.run(s, i, c, k)),
            Re::Group(n, x) => {
                let old = c[*n];
                let r = x.run(s, i, c, &mut |j, c| {
                    let old = c[*n];
                    c[*n] = Some((i, j));
                    k(j, c) || {
                        c[*n] = old;
                        false
                    }
                });
                if !r {
                    c[*n] = old;
                }
                r
            }
            Re::Rep(x, lo, hi, greedy) => rep(x, *lo, *hi, *greedy, 0, s, i, c, k),
            Re::Start => i == 0 && k(i, c),
            Re::End => i == s.len() && k(i, c),
        }
    }
    /// The text matched and the text of each group (`None`: it takes no part).
    pub fn matches(&self, v: &str, groups: usize) -> Option<Vec<Option<String>>> {
        let s: Vec<char> = v.chars().collect();
        for i in 0..=s.len() {
            let mut c: Caps = vec![None; groups + 1];
            let mut end = None;
            let mut out = vec![];
            if self.run(&s, i, &mut c, &mut |j, c| {
                end = Some(j);
                out.clone_from(c);
                true
            }) {
                out[0] = Some((i, end.unwrap()));
                return Some(out.iter().map(|o| o.map(|(a, b)| s[a..b].iter().collect())).collect());
            }
        }
        None
    }
}
fn cat(v: &[Re], s: &[char], i: usize, c: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match v.split_first() {
        None => k(i, c),
        Some((a, b)) => a.run(s, i, c, &mut |j, c| cat(b, s, j, c, k)),
    }
}
#[allow(clippy::too_many_arguments)]
fn rep(x: &Re, lo: usize, hi: usize, greedy: bool, n: usize, s: &[char], i: usize, c: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    let more = |c: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool| {
        n < hi && x.run(s, i, c, &mut |j, c| j > i && rep(x, lo, hi, greedy, n + 1, s, j, c, k))
    };
    if n < lo {
        more(c, k)
    } else if greedy {
        more(c, k) || k(i, c)
    } else {
        k(i, c) || more(c, k)
    }
}

/// Match types with their keys.
#[derive(Clone, Debug)]
pub enum Mt {
    Is,
    Contains,
    Matches,
    Value(Rel),
    Count(Rel),
    /// one expression per key, with its number of groups
    Regex(Vec<(Re, usize)>),
}
impl Mt {
    pub fn tag(&self) -> String {
        match self {
            Mt::Is => ":is".into(),
            Mt::Contains => ":contains".into(),
            Mt::Matches => ":matches".into(),
            Mt::Value(r) => format!(":value \"{}\"", r.tag()),
            Mt::Count(r) => format!(":count \"{}\"", r.tag()),
            Mt::Regex(_) => ":regex".into(),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Mt::Is => "is",
            Mt::Contains => "contains",
            Mt::Matches => "matches",
            Mt::Value(_) => "value",
            Mt::Count(_) => "count",
            Mt::Regex(_) => "regex",
        }
    }
}
/// What a test with the given kind of value knows to do differently (known findings).
#[derive(Clone, Copy, Default, Debug)]
pub struct Quirk {
    /// text values that are no number count as zero, and numbers are read as floating point
    pub text_number: bool,
    /// the string and environment tests take the result of the last key
    pub last_key: bool,
    /// without captures values are folded as a whole and characters that are not uppercase stay in patterns
    pub glob_fold: bool,
    /// hasflag, date and currentdate: :regex compares as :matches
    pub regex_glob: bool,
    /// hasflag: keys that are no number count as zero as well
    pub text_key: bool,
}
impl Quirk {
    pub const NONE: Quirk = Quirk { text_number: false, last_key: false, glob_fold: false, regex_glob: false, text_key: false };
}
/// One value against one key: the captures of a match (index 0: the whole).
pub fn one(mt: &Mt, c: Cmp, v: &str, k: usize, key: &str, q: Quirk) -> Option<Vec<Option<String>>> {
    let yes = |b: bool| b.then(Vec::new);
    match mt {
        Mt::Value(_) | Mt::Is if c == Cmp::Numeric && q.text_number => {
            let r = if let Mt::Value(r) = mt { *r } else { Rel::Eq };
            let k = if q.text_key { Num::F(key.parse().unwrap_or(0.0)) } else { number(key) };
            yes(r.holds(num_cmp(Num::F(v.parse().unwrap_or(0.0)), k)))
        }
        Mt::Is => yes(is(c, v, key)),
        Mt::Contains => yes(contains(c, v, key)),
        Mt::Value(r) => yes(rel(c, *r, v, key)),
        Mt::Count(_) => None,
        Mt::Regex(res) if !q.regex_glob => res[k].0.matches(v, res[k].1),
        _ => {
            let m = if q.glob_fold && c == Cmp::Case { Glob::quirk(key, v) } else { glob(c, key, v) };
            m.map(|m| std::iter::once(v.to_string()).chain(m).map(Some).collect())
        }
    }
}
impl Glob {
    /// As `Quirk::glob_fold`.
    fn quirk(pat: &str, v: &str) -> Option<Vec<String>> {
        let p: String = pat.chars().map(|c| if c.is_uppercase() { c.to_lowercase().collect::<String>() } else { c.to_string() }).collect();
        Glob::new(Cmp::Octet, &p).matches(&v.to_lowercase())
    }
}
/// The whole test over values in order; the captures of the match that decides it.
pub fn test(mt: &Mt, c: Cmp, values: &[String], keys: &[String], by_key: bool, q: Quirk) -> (bool, Option<Vec<Option<String>>>) {
    if let Mt::Count(_) = mt {
        unreachable!()
    }
    let mut last = None;
    if by_key {
        for (k, key) in keys.iter().enumerate() {
            let m = values.iter().find_map(|v| one(mt, c, v, k, key, q));
            let hit = m.is_some();
            if hit {
                last = m;
            }
            if q.last_key {
                if k + 1 == keys.len() {
                    return (hit, last);
                }
            } else if hit {
                return (true, last);
            }
        }
        (false, last)
    } else {
        for v in values {
            for (k, key) in keys.iter().enumerate() {
                if let Some(m) = one(mt, c, v, k, key, q) {
                    return (true, Some(m));
                }
            }
        }
        (false, None)
    }
}
pub fn count(r: Rel, n: usize, keys: &[String]) -> bool {
    keys.iter().any(|k| r.holds(num_cmp(Num::I(n as i64), number(k))))
}
