//! Asks for the values that a test looks at, in different ways (`:list`, captures, comparisons), and
//! compares the outcomes with a given list of values.
use crate::gen::quote;
use crate::matching::{self, Cmp, Mt, Quirk, RELS};
use crate::props::p12::{key_for, regex_for};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{Trace, T, T2};
use sieve::Event;

pub enum Want {
    Bool { ideal: bool, not: bool, alts: Vec<(bool, Vec<&'static str>)> },
    List(Vec<String>, Vec<String>, Option<(Vec<String>, &'static str)>),
    Cap(String, String, Option<(String, String, &'static str)>),
}
pub struct Kind<'a> {
    pub list: bool,
    pub captures: bool,
    pub regex: bool,
    pub words: &'a [&'a str],
    pub letters: &'a [char],
    /// what :count counts, and the keys for it
    pub count: Option<usize>,
    pub count_keys: &'a [&'a str],
    pub by_key: bool,
    pub single: bool,
    pub alts: &'a [(Quirk, &'static str)],
}
#[derive(Default)]
pub struct Asker {
    pub script: String,
    pub want: Vec<(String, Want)>,
    pub n: usize,
    /// The values that a known finding leads to, for the next test only.
    pub alt: Option<(Vec<String>, &'static str)>,
}
fn dedup(values: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in values {
        if !x.is_empty() && !v.contains(x) {
            v.push(x.clone());
        }
    }
    v
}
pub fn shuffle(v: &mut [String], r: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}
impl Asker {
    /// A string as a constant or through a variable.
    pub fn string(&mut self, r: &mut Rng, s: &str) -> String {
        if r.chance(1, 6) {
            self.n += 1;
            self.script += &format!("set \"v{}\" {};\n", self.n, quote(s));
            format!("\"${{v{}}}\"", self.n)
        } else {
            quote(s)
        }
    }
    pub fn strings(&mut self, r: &mut Rng, v: &[String]) -> String {
        let t: Vec<String> = v.iter().map(|s| self.string(r, s)).collect();
        if t.len() == 1 && r.chance(2, 3) {
            t[0].clone()
        } else {
            format!("[{}]", t.join(", "))
        }
    }
    /// A test whose outcome is known.
    pub fn plain(&mut self, r: &mut Rng, label: &str, test: &str, outcome: bool) {
        let not = r.chance(1, 6);
        self.script += &format!("if {}{test} {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}\n", if not { "not " } else { "" });
        self.want.push((label.into(), Want::Bool { ideal: outcome, not, alts: vec![] }));
    }
    pub fn ask(&mut self, r: &mut Rng, label: &str, word: &str, mut args: Vec<String>, pos: &str, values: &[String], k: &Kind) {
        let alt = self.alt.take();
        match r.below(6) {
            0 | 1 if k.list => {
                let lists: Vec<String> = (0..1 + r.below(2)).map(|i| format!("urn:l{i}")).collect();
                args.push(":list".into());
                shuffle(&mut args, r);
                let l = self.strings(r, &lists);
                let v = dedup(values);
                let not = r.chance(1, 6);
                self.script += &format!("if {}{word} {} {pos} {l} {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}\n", if not { "not " } else { "" }, args.join(" "));
                // the host says yes
                let any = !v.is_empty();
                if any {
                    self.want.push((format!("{label} listed"), Want::List(lists, v, alt.map(|(v, k)| (dedup(&v), k)))));
                }
                self.want.push((format!("{label} in a list"), Want::Bool { ideal: any, not, alts: vec![] }));
            }
            2 if k.captures => {
                args.push(":matches".into());
                shuffle(&mut args, r);
                let key = if k.single { self.string(r, "*") } else { self.strings(r, &["*".into()]) };
                self.script += &format!(
                    "if {word} {} {pos} {key} {{ set \"m\" \"${{1}}\"; eval \"t2('m', m)\"; }} else {{ eval \"t2('x', '')\"; }}\n",
                    args.join(" ")
                );
                let f = |v: &[String]| match v.first() {
                    Some(v) => ("m".to_string(), v.clone()),
                    None => ("x".into(), String::new()),
                };
                let (m, v) = f(values);
                let w = Want::Cap(m, v, alt.map(|(v, k)| (f(&v).0, f(&v).1, k)));
                self.want.push((format!("{label} captured"), w));
            }
            _ => {
                let cmp = *r.pick(&[Cmp::Case, Cmp::Case, Cmp::Octet, Cmp::Numeric]);
                let rel = *r.pick(RELS);
                let mut mt = match r.below(7) {
                    0 => Mt::Contains,
                    1 => Mt::Matches,
                    2 => Mt::Value(rel),
                    3 if k.count.is_some() => Mt::Count(rel),
                    4 if k.regex => Mt::Regex(vec![]),
                    _ => Mt::Is,
                };
                let nk = if k.single { 1 } else { 1 + r.below(2) };
                let mut keys: Vec<String> = (0..nk)
                    .map(|_| match &mt {
                        Mt::Count(_) => r.pick(k.count_keys).to_string(),
                        _ => {
                            let v = if values.is_empty() { r.pick(k.words).to_string() } else { r.pick(values).clone() };
                            if matches!(mt, Mt::Is) && r.chance(1, 2) { v } else { key_for(r, &v, &mt, k.words) }
                        }
                    })
                    .collect();
                if let Mt::Regex(_) = mt {
                    let res: Vec<_> = keys.iter().map(|_| regex_for(r, k.letters)).collect();
                    keys = res.iter().map(|x| x.0.text()).collect();
                    mt = Mt::Regex(res);
                }
                let not = r.chance(1, 8);
                args.push(mt.tag());
                if cmp != Cmp::Case {
                    args.push(format!(":comparator \"{}\"", cmp.tag()));
                }
                shuffle(&mut args, r);
                let kl = if k.single { self.string(r, &keys[0]) } else { self.strings(r, &keys) };
                self.script += &format!("if {}{word} {} {pos} {kl} {{ eval \"t('y')\"; }} else {{ eval \"t('n')\"; }}\n", if not { "not " } else { "" }, args.join(" "));
                let f = |values: &[String], q: Quirk| match mt {
                    Mt::Count(rel) => matching::count(rel, k.count.unwrap(), &keys),
                    _ => matching::test(&mt, cmp, values, &keys, k.by_key, q).0,
                };
                let ideal = f(values, Quirk::NONE);
                let mut alts: Vec<_> = k.alts.iter().map(|(q, n)| (f(values, *q), vec![*n])).collect();
                if let Some((v, k2)) = &alt {
                    alts.push((f(v, Quirk::NONE), vec![*k2]));
                    alts.extend(k.alts.iter().map(|(q, n)| (f(v, *q), vec![*k2, *n])));
                }
                alts.retain(|a| a.0 != ideal);
                self.want.push((format!("{label} {} {ideal}", mt.name()), Want::Bool { ideal, not, alts }));
            }
        }
    }
    /// Compares the outcomes (calls of t and t2, ListContains events) with the expected ones.
    pub fn verify(&self, rep: &mut Rep, tr: &Trace) {
        rep.ok(&rep.current.clone());
        let cur = rep.current.clone();
        rep.sample(|| cur.clone());
        let mut got = tr.events().filter(|e| match e {
            Event::Function { id, .. } => *id == T || *id == T2,
            e => matches!(e, Event::ListContains { .. }),
        });
        for (i, (label, w)) in self.want.iter().enumerate() {
            let g = got.next();
            let ok = match (w, g) {
                (Want::Bool { ideal, not, alts }, Some(Event::Function { id, arguments })) if *id == T => {
                    let g = (arguments[0].to_string() == "y") != *not;
                    g == *ideal
                        || alts.iter().any(|(v, k)| {
                            *v == g && {
                                rep.known.extend(k.iter().map(|k| k.to_string()));
                                true
                            }
                        })
                }
                (Want::List(n, l, alt), Some(Event::ListContains { lists, values, .. })) => {
                    lists == n
                        && (values == l
                            || alt.as_ref().is_some_and(|(v, k)| {
                                v == values && {
                                    rep.known.push((*k).into());
                                    true
                                }
                            }))
                }
                (Want::Cap(a, b, alt), Some(Event::Function { id, arguments })) if *id == T2 => {
                    let (x, y) = (arguments[0].to_string().into_owned(), arguments[1].to_string().into_owned());
                    (x == *a && y == *b)
                        || alt.as_ref().is_some_and(|(a, b, k)| {
                            x == *a && y == *b && {
                                rep.known.push((*k).into());
                                true
                            }
                        })
                }
                _ => false,
            };
            if !ok {
                let w = match w {
                    Want::Bool { ideal, not, .. } => format!("{}", ideal != not),
                    Want::List(n, l, _) => format!("lists {n:?} values {l:?}"),
                    Want::Cap(a, b, _) => format!("{a} {b:?}"),
                };
                rep.fail("outcome of a test", format!("outcome {i} ({label}): expected {w}\nobserved {g:?}\n{}", rep.current));
                return;
            }
            rep.cover(label);
        }
        if got.next().is_some() || !tr.errs().is_empty() {
            rep.fail("outcome of a test", format!("more outcomes than tests\n{}\n{}", tr.show(), rep.current));
        }
    }
}
