//! Arguments that contradict each other or can never be valid are refused when the script is compiled;
//! any other combination, in any order, is accepted.
use super::p32;
use crate::gen::{self, quote, Tok};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run;
use crate::Prop;

pub const PROP: Prop = Prop { id: "P34", quick: 2_300_000, thorough: 8_000_000, directed, case };

/// What an argument has to be.
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    None,
    Str,
    List,
    Two,
    /// a number below a limit
    Num(usize),
    Any,
    Relational,
    Comparator,
    Zone,
    ByMode,
    Ret,
    Notify,
    From,
    Uri,
    /// the name of a header field, a list of them
    Name,
    Names,
    /// patterns: regular expressions after :regex
    Keys,
    Envelope,
    Part,
    Environment,
    /// a variable to set
    Var,
    Expr,
    /// flag variables
    Vars,
}
struct Tag(u8, &'static str, A);
struct Cmd {
    name: &'static str,
    test: bool,
    tags: &'static [Tag],
    /// tags that need another one
    needs: &'static [(&'static [&'static str], &'static str)],
    pos: &'static [A],
    /// how many arguments may stand before a tag
    before: usize,
}
use A::*;

macro_rules! tags {
    ($($t:expr),* ; no list) => { &[Tag(1, "is", None), Tag(1, "contains", None), Tag(1, "matches", None), Tag(1, "regex", None), Tag(1, "value", Relational), Tag(1, "count", Relational), Tag(2, "comparator", Comparator), $($t),*] };
    ($($t:expr),*) => { &[Tag(1, "is", None), Tag(1, "contains", None), Tag(1, "matches", None), Tag(1, "regex", None), Tag(1, "value", Relational), Tag(1, "count", Relational), Tag(1, "list", None), Tag(2, "comparator", Comparator), $($t),*] };
}
// (group 0 is of tags that may be repeated)
macro_rules! mods {
    ($($t:expr),*) => { &[$($t),*, Tag(0, "lower", None), Tag(0, "upper", None), Tag(0, "lowerfirst", None), Tag(0, "upperfirst", None), Tag(0, "quotewildcard", None), Tag(0, "quoteregex", None), Tag(0, "length", None), Tag(0, "local", None), Tag(0, "replace", Two)] };
}
const IDX: usize = 65535;
const MIME: &[(&[&str], &str)] = &[(&["anychild"], "mime")];

const CMDS: &[Cmd] = &[
    // tests
    Cmd {
        name: "header",
        test: true,
        tags: tags![
            Tag(3, "index", Num(IDX)),
            Tag(4, "last", None),
            Tag(5, "mime", None),
            Tag(6, "anychild", None),
            Tag(7, "type", None),
            Tag(7, "subtype", None),
            Tag(7, "contenttype", None),
            Tag(7, "param", List)
        ],
        needs: &[(&["anychild", "type", "subtype", "contenttype", "param"], "mime")],
        pos: &[Names, Keys],
        before: 1,
    },
    Cmd {
        name: "address",
        test: true,
        tags: tags![
            Tag(3, "index", Num(IDX)),
            Tag(4, "last", None),
            Tag(5, "mime", None),
            Tag(6, "anychild", None),
            Tag(7, "localpart", None),
            Tag(7, "domain", None),
            Tag(7, "all", None),
            Tag(7, "user", None),
            Tag(7, "detail", None)
        ],
        needs: MIME,
        pos: &[List, Keys],
        before: 1,
    },
    Cmd {
        name: "envelope",
        test: true,
        tags: tags![
            Tag(7, "localpart", None),
            Tag(7, "domain", None),
            Tag(7, "all", None),
            Tag(7, "user", None),
            Tag(7, "detail", None),
            Tag(4, "zone", Zone)
        ],
        needs: &[],
        pos: &[Envelope, Keys],
        before: 1,
    },
    Cmd { name: "exists", test: true, tags: &[Tag(1, "mime", None), Tag(2, "anychild", None)], needs: MIME, pos: &[Names], before: 0 },
    Cmd {
        name: "date",
        test: true,
        tags: tags![
            Tag(3, "index", Num(IDX)),
            Tag(4, "last", None),
            Tag(5, "mime", None),
            Tag(6, "anychild", None),
            Tag(7, "originalzone", None),
            Tag(7, "zone", Zone)
        ],
        needs: MIME,
        pos: &[Name, Part, Keys],
        before: 2,
    },
    Cmd { name: "currentdate", test: true, tags: tags![Tag(3, "zone", Zone)], needs: &[], pos: &[Part, Keys], before: 1 },
    Cmd {
        name: "duplicate",
        test: true,
        tags: &[Tag(1, "handle", Str), Tag(2, "header", Name), Tag(2, "uniqueid", Str), Tag(3, "seconds", Any), Tag(4, "last", None)],
        needs: &[],
        pos: &[],
        before: 0,
    },
    Cmd {
        name: "body",
        test: true,
        tags: tags![Tag(3, "raw", None), Tag(3, "text", None), Tag(3, "content", List), Tag(4, "subject", None); no list],
        needs: &[],
        pos: &[Keys],
        before: 0,
    },
    Cmd { name: "string", test: true, tags: tags![], needs: &[], pos: &[List, Keys], before: 1 },
    Cmd { name: "environment", test: true, tags: tags![; no list], needs: &[], pos: &[Environment, Keys], before: 1 },
    Cmd { name: "hasflag", test: true, tags: tags![; no list], needs: &[], pos: &[Vars, Keys], before: 0 },
    Cmd { name: "hasflag", test: true, tags: tags![; no list], needs: &[], pos: &[Keys], before: 0 },
    Cmd { name: "metadata", test: true, tags: tags![; no list], needs: &[], pos: &[Str, Str, Keys], before: 2 },
    Cmd { name: "servermetadata", test: true, tags: tags![; no list], needs: &[], pos: &[Str, Keys], before: 1 },
    Cmd { name: "notify_method_capability", test: true, tags: tags![; no list], needs: &[], pos: &[Str, Str, Keys], before: 2 },
    Cmd { name: "virustest", test: true, tags: tags![; no list], needs: &[], pos: &[Str], before: 0 },
    Cmd { name: "spamtest", test: true, tags: tags![Tag(3, "percent", None); no list], needs: &[], pos: &[Str], before: 0 },
    Cmd { name: "specialuse_exists", test: true, tags: &[], needs: &[], pos: &[Str, List], before: 0 },
    Cmd { name: "valid_notify_method", test: true, tags: &[], needs: &[], pos: &[List], before: 0 },
    Cmd { name: "eval", test: true, tags: &[], needs: &[], pos: &[Expr], before: 0 },
    // commands
    Cmd {
        name: "fileinto",
        test: false,
        tags: &[Tag(1, "copy", None), Tag(2, "create", None), Tag(3, "flags", List), Tag(4, "mailboxid", Str), Tag(5, "specialuse", Str)],
        needs: &[],
        pos: &[Str],
        before: 0,
    },
    Cmd {
        name: "redirect",
        test: false,
        tags: &[
            Tag(1, "copy", None),
            Tag(2, "list", None),
            Tag(3, "bytrace", None),
            Tag(4, "bymode", ByMode),
            Tag(5, "bytimerelative", Any),
            Tag(5, "bytimeabsolute", Str),
            Tag(6, "ret", Ret),
            Tag(7, "notify", Notify),
        ],
        needs: &[],
        pos: &[Str],
        before: 0,
    },
    Cmd {
        name: "include",
        test: false,
        tags: &[Tag(1, "once", None), Tag(2, "optional", None), Tag(3, "personal", None), Tag(3, "global", None)],
        needs: &[],
        pos: &[Str],
        before: 0,
    },
    Cmd {
        name: "vacation",
        test: false,
        tags: &[
            Tag(1, "mime", None),
            Tag(2, "create", None),
            Tag(3, "days", Any),
            Tag(3, "seconds", Any),
            Tag(4, "subject", Str),
            Tag(5, "from", Str),
            Tag(6, "handle", Str),
            Tag(7, "specialuse", Str),
            Tag(8, "mailboxid", Str),
            Tag(9, "fcc", Str),
            Tag(10, "flags", List),
            Tag(11, "addresses", List),
        ],
        needs: &[(&["create", "specialuse", "mailboxid", "flags"], "fcc")],
        pos: &[Str],
        before: 0,
    },
    Cmd {
        name: "notify",
        test: false,
        tags: &[
            Tag(1, "from", From),
            Tag(2, "message", Str),
            Tag(3, "importance", Str),
            Tag(4, "options", List),
            Tag(5, "create", None),
            Tag(6, "specialuse", Str),
            Tag(7, "mailboxid", Str),
            Tag(8, "fcc", Str),
            Tag(9, "flags", List),
        ],
        needs: &[(&["create", "specialuse", "mailboxid", "flags"], "fcc")],
        pos: &[Uri],
        before: 0,
    },
    Cmd { name: "addheader", test: false, tags: &[Tag(1, "last", None)], needs: &[], pos: &[Name, Str], before: 1 },
    Cmd {
        name: "deleteheader",
        test: false,
        tags: tags![Tag(3, "index", Num(IDX)), Tag(4, "last", None), Tag(5, "mime", None), Tag(6, "anychild", None); no list],
        needs: MIME,
        pos: &[Name, Keys],
        before: 0,
    },
    Cmd {
        name: "replace",
        test: false,
        tags: &[Tag(1, "mime", None), Tag(2, "subject", Str), Tag(3, "from", Str)],
        needs: &[],
        pos: &[Str],
        before: 0,
    },
    Cmd { name: "enclose", test: false, tags: &[Tag(1, "subject", Str), Tag(2, "headers", List)], needs: &[], pos: &[Str], before: 0 },
    Cmd { name: "extracttext", test: false, tags: mods![Tag(1, "first", Any)], needs: &[], pos: &[Var], before: 0 },
    Cmd { name: "set", test: false, tags: mods![Tag(0, "encodeurl", None)], needs: &[], pos: &[Var, Str], before: 0 },
    Cmd { name: "let", test: false, tags: &[], needs: &[], pos: &[Var, Expr], before: 0 },
    Cmd { name: "addflag", test: false, tags: &[], needs: &[], pos: &[Var, List], before: 0 },
    Cmd { name: "setflag", test: false, tags: &[], needs: &[], pos: &[Var, List], before: 0 },
    Cmd { name: "removeflag", test: false, tags: &[], needs: &[], pos: &[Var, List], before: 0 },
    Cmd { name: "eval", test: false, tags: &[], needs: &[], pos: &[Expr], before: 0 },
];

const VAR: &str = "${global.vv}";
fn list(r: &mut Rng, mut one: impl FnMut(&mut Rng) -> String) -> String {
    if r.chance(1, 2) {
        return quote(&one(r));
    }
    let v: Vec<String> = (0..1 + r.below(3)).map(|_| quote(&one(r))).collect();
    format!("[{}]", v.join(", "))
}
fn spell(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.into(),
    }
}
/// A text that is accepted, and whether a variable was used.
fn good(r: &mut Rng, a: A, regex: bool) -> String {
    let var = r.chance(1, 8);
    let text = |r: &mut Rng| if r.chance(1, 8) { VAR.to_string() } else { r.pick(&["a", "x y", "", "é", "1", "Big*", "-"]).to_string() };
    match a {
        None => String::new(),
        Str if var => quote(VAR),
        Str => quote(r.pick(&["a", "b@c.org", "x y", "", "(", "é"])),
        Two => format!("{} {}", quote(&text(r)), quote(&text(r))),
        List => list(r, text),
        Num(n) => (*r.pick(&[0, 1, 2, n / 2, n - 1])).to_string(),
        Any => r.pick(&["0", "1", "7", "5K", "100000", "65536"]).to_string(),
        Relational => {
            let s = r.pick(&["gt", "ge", "lt", "le", "eq", "ne"]).to_string();
            quote(&s)
        }
        Comparator => quote(r.pick(&["i;octet", "i;ascii-casemap", "i;ascii-numeric", "i;other"])),
        Zone => quote(r.pick(&["+0100", "-0330", "+0000", "-1200", "1400", "0", "-0001"])),
        ByMode => {
            let s = *r.pick(&["notify", "return"]);
            quote(&spell(r, s))
        }
        Ret => {
            let s = *r.pick(&["full", "hdrs"]);
            quote(&spell(r, s))
        }
        Notify => {
            let s = *r.pick(&["never", "success", "failure", "delay", "success,failure", "delay, success", "failure , delay,success"]);
            quote(&spell(r, s))
        }
        From if var => quote(VAR),
        From => quote(r.pick(&["a@b.org", "Some One <a@b.org>", "\"Q\" <x.y@z.example>"])),
        Uri if var => quote(VAR),
        Uri => quote(r.pick(&["mailto:a@b.org", "mailto:a@b.org?subject=x", "tel:+123", "xmpp:a@b"])),
        Name if var => quote(VAR),
        Name => quote(r.pick(&["Subject", "X-A", "from", "x_1", "List-Id", "Content-Type"])),
        Names => list(r, |r| if r.chance(1, 8) { VAR.into() } else { r.pick(&["Subject", "X-A", "from", "x_1", "List-Id"]).to_string() }),
        Keys if regex => list(r, |r| if r.chance(1, 8) { format!("{VAR}(") } else { r.pick(&["a", "(b)+", "^[x-z]{1,3}$", "a|b", "\\.", ""]).to_string() }),
        Keys => list(r, |r| if r.chance(1, 4) { r.pick(&["(", "[", "*(", "a{2,1}", "?*", "\\"]).to_string() } else { text(r) }),
        Envelope => list(r, |r| {
            let s = *r.pick(&["from", "to", "orcpt", "notify", "ret", "envid", "bymode", "bytrace", "bytimeabsolute", "bytimerelative"]);
            spell(r, s)
        }),
        Part => {
            let s = *r.pick(&["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"]);
            quote(&spell(r, s))
        }
        Environment => {
            let s = *r.pick(&["name", "domain", "vnd.x", "no such", ""]);
            quote(&spell(r, s))
        }
        Var => {
            let s = *r.pick(&["p34", "p34_b", "global.p34", "t.p34", "envelope.to", "envelope.envid"]);
            quote(&spell(r, s))
        }
        Vars => list(r, |r| r.pick(&["p34", "global.p34", "p34_b"]).to_string()),
        Expr => {
            let s = *r.pick(&["1 + 2", "t(1)", "t8(7, q('a'))", "'text' == \"x\"", "(1 + (2 * 3))", "global.vv + 1", "!0 || 3 > 2", "up(header.subject)"]);
            let s = if s.contains("t8") { "t(cat('a', up('b')))" } else { s };
            quote(s)
        }
    }
}
/// A text that can never be accepted, with the error it gets.
fn bad(r: &mut Rng, a: A, regex: bool) -> Option<(String, &'static str)> {
    fn one(r: &mut Rng, a: A, bad: &str, regex: bool) -> String {
        // in a list, any one of the values may be the bad one
        if r.chance(1, 2) {
            return quote(bad);
        }
        let fill = |r: &mut Rng| -> String {
            let mut t = good(r, a, regex);
            while t.starts_with('[') || t.contains("${") {
                t = good(r, a, regex);
            }
            t
        };
        let n = 1 + r.below(3);
        let k = r.below(n + 1);
        let mut v: Vec<String> = (0..n).map(|_| fill(r)).collect();
        v.insert(k, quote(bad));
        format!("[{}]", v.join(", "))
    }
    const TOKEN: &str = "UnexpectedToken";
    Some(match a {
        Num(n) => ((n + r.below(3)).to_string(), TOKEN),
        Relational => (quote(r.pick(&["", "GT", "equal", "=", "gt ", VAR])), TOKEN),
        Comparator => (quote(VAR), TOKEN),
        Zone => (quote(r.pick(&["", "abc", "1401", "-1201", "+9999", "+01:00", "Z", "99999999999999999999", VAR])), TOKEN),
        ByMode => (quote(r.pick(&["", "both", "notify ", "returns", VAR])), TOKEN),
        Ret => (quote(r.pick(&["", "half", "full ", "headers", VAR])), TOKEN),
        Notify => (quote(r.pick(&["", "always", "never,success2", "fail", ",", " , ", VAR])), TOKEN),
        From => (quote(r.pick(&["", "a", "a@b", "<>", "a b"])), "InvalidAddress"),
        Uri => (quote(r.pick(&["", "mailto", "a@b.org", "mailto:", "nope:x@y", "http//x"])), "InvalidURI"),
        Name => (quote(r.pick(&["", "a b", "X:", "é", "X-é", "x\ty", "a\u{7f}"])), "InvalidHeaderName"),
        Names => {
            let b = *r.pick(&["", "a b", "X:", "é", "X-é", "x\ty", "a\u{7f}"]);
            (one(r, a, b, regex), "InvalidHeaderName")
        }
        Keys if regex => {
            let b = *r.pick(&["(", ")", "[", "a{2,1}", "(?<n", "*", "\\", "(?z)", "[z-a]", "a**b(", "(?:"]);
            (one(r, a, b, regex), "InvalidRegex")
        }
        Envelope => {
            if r.chance(1, 6) {
                (one(r, a, VAR, regex), TOKEN)
            } else {
                let b = *r.pick(&["", "cc", "fromm", "envelope.from", "to ", "auth"]);
                (one(r, a, b, regex), "InvalidEnvelope")
            }
        }
        Part => (quote(r.pick(&["", "years", "era", "hour ", "std-11", VAR])), TOKEN),
        Environment => (quote(VAR), TOKEN),
        Var => {
            if r.chance(1, 5) {
                (quote(VAR), "")
            } else {
                (quote(r.pick(&["foo.bar", "envelope.nope", "header.subject", "env.x", ".x", "globals.x", "envelope."])), "InvalidNamespace")
            }
        }
        Vars => {
            if r.chance(1, 5) {
                (one(r, a, VAR, regex), "ExpectedConstantString")
            } else {
                let b = *r.pick(&["foo.bar", "envelope.nope", "header.subject", "env.x", ".x"]);
                (one(r, a, b, regex), "InvalidNamespace")
            }
        }
        Expr => (
            quote(r.pick(&[
                "(1",
                "1)",
                "nofn(1)",
                "t()",
                "t(1, 2)",
                "'abc",
                "\"abc",
                "foo.bar + 1",
                "no_such_variable",
                "1 # 2",
                "envelope.nope",
                "t(1",
                "cat(1)",
                "cat(1, 2, 3)",
                "(1 + (2 * 3)",
                "up(t(1, 2))",
            ])),
            "InvalidExpression",
        ),
        _ => return Option::None,
    })
}

/// A statement and what is wrong with it.
struct Made {
    text: String,
    wrong: Option<(&'static str, String)>,
}

fn statement(r: &mut Rng, spoil: bool) -> Made {
    loop {
        let c = &CMDS[r.below(CMDS.len())];
        if let Some(m) = write(r, c, spoil) {
            return m;
        }
    }
}
fn write(r: &mut Rng, c: &Cmd, spoil: bool) -> Option<Made> {
    // one tag of some of the groups
    let mut used: Vec<(u8, &'static str, A)> = vec![];
    let all: Vec<usize> = {
        let mut v: Vec<usize> = (0..c.tags.len()).collect();
        r.shuffle(&mut v);
        v
    };
    let most = if r.chance(1, 6) { 12 } else { 4 };
    let n = r.below(all.len().min(most) + 1);
    for i in all.iter().take(n) {
        let t = &c.tags[*i];
        if t.0 == 0 || used.iter().all(|u| u.0 != t.0) {
            used.push((t.0, t.1, t.2));
        }
    }
    // the tags that others need
    for (tags, need) in c.needs {
        if used.iter().any(|u| tags.contains(&u.1)) && used.iter().all(|u| u.1 != *need) {
            let t = c.tags.iter().find(|t| t.1 == *need).unwrap();
            used.push((t.0, t.1, t.2));
        }
    }
    r.shuffle(&mut used);
    let regex = used.iter().any(|u| u.1 == "regex");
    let mut wrong = Option::None;
    let mut bad_at = usize::MAX;
    if spoil {
        match r.below(3) {
            0 => {
                // a second one of a group
                let (g, _, _) = if used.is_empty() { return Option::None } else { *r.pick(&used) };
                if g == 0 {
                    return Option::None;
                }
                let of: Vec<&Tag> = c.tags.iter().filter(|t| t.0 == g).collect();
                let t = *r.pick(&of);
                let k = r.below(used.len() + 1);
                used.insert(k, (t.0, t.1, t.2));
                wrong = Some(("DuplicatedParameter", format!("two of group {g}: :{}", t.1)));
            }
            1 => {
                let (tags, need) = if c.needs.is_empty() { return Option::None } else { c.needs[r.below(c.needs.len())] };
                if !used.iter().any(|u| tags.contains(&u.1)) {
                    return Option::None;
                }
                used.retain(|u| u.1 != need);
                wrong = Some(("MissingTag", format!("no :{need}")));
            }
            _ => {
                let mut can: Vec<usize> = used.iter().enumerate().filter(|(_, u)| !matches!(u.2, None | Str | List | Two | Any)).map(|x| x.0).collect();
                can.extend(c.pos.iter().enumerate().filter(|(_, a)| !matches!(a, Str | List)).map(|x| 100 + x.0));
                if can.is_empty() {
                    return Option::None;
                }
                bad_at = *r.pick(&can);
            }
        }
    }
    let mut value = |r: &mut Rng, a: A, at: usize| -> Option<String> {
        if at != bad_at {
            return Some(good(r, a, regex));
        }
        let (t, k) = bad(r, a, regex)?;
        // the name of flag actions tells them from their other form
        let k = if k.is_empty() {
            if c.name.ends_with("flag") {
                "InvalidArguments"
            } else {
                "ExpectedConstantString"
            }
        } else {
            k
        };
        wrong = Some((k, format!("{a:?} {t}")));
        Some(t)
    };
    // with no :regex, keys are never wrong
    let mut words: Vec<String> = vec![];
    let mut slots: Vec<usize> = used.iter().map(|_| r.below(c.before + 1)).collect();
    slots.sort();
    let mut k = 0;
    for p in 0..=c.pos.len() {
        while k < used.len() && slots[k] == p {
            let mut w = format!(":{}", spell(r, used[k].1));
            let a = value(r, used[k].2, k)?;
            if !a.is_empty() {
                w += " ";
                w += &a;
            }
            words.push(w);
            k += 1;
        }
        if p < c.pos.len() {
            let a = c.pos[p];
            words.push(value(r, a, 100 + p)?);
        }
    }
    let body = format!("{} {}", spell(r, c.name), words.join(" "));
    let text = if c.test {
        match r.below(6) {
            0 => format!("if not {body} {{ keep; }}"),
            1 => format!("if anyof (false, {body}) {{ }} else {{ }}"),
            2 => format!("if allof ({body}, not anyof (true, {body2})) {{ }}", body2 = "exists \"X\""),
            3 => format!("if false {{ }} elsif {body} {{ stop; }}"),
            _ => format!("if {body} {{ }}"),
        }
    } else {
        format!("{body};")
    };
    Some(Made { text, wrong })
}

fn scope(r: &mut Rng) -> Made {
    // a name that is a local variable already cannot be declared global
    let n = *r.pick(&["p34l", "P34L"]);
    let def = match r.below(4) {
        0 => format!("set \"{n}\" \"x\";"),
        1 => format!("let \"{n}\" \"1\";"),
        2 => format!("addflag \"{n}\" \"x\";"),
        _ => format!("extracttext \"{n}\";"),
    };
    let gl = match r.below(3) {
        0 => "global \"p34l\";".to_string(),
        1 => "global [\"p34g\", \"p34l\"];".into(),
        _ => "global [\"P34L\", \"p34h\"];".into(),
    };
    let wrong = Some(("VariableIsLocal", "p34l".to_string()));
    match r.below(6) {
        0 => Made { text: format!("{def} {gl}"), wrong },
        1 => Made { text: format!("{def} if true {{ if true {{ {gl} }} }}"), wrong },
        2 => Made { text: format!("if true {{ {def} {gl} }}"), wrong },
        3 => Made { text: format!("if true {{ {def} }} {gl}"), wrong: Option::None },
        4 => Made { text: format!("{gl} {def} {gl}"), wrong: Option::None },
        _ => Made { text: format!("if true {{ {gl} }} else {{ {def} }} {gl}"), wrong: Option::None },
    }
}

/// Labelled loops and the breaks that name them.
fn labels(r: &mut Rng) -> Made {
    fn block(r: &mut Rng, open: &mut Vec<Option<&'static str>>, depth: usize, m: &mut Made) {
        const L: &[&str] = &["l", "m", "L", "", "l m"];
        for _ in 0..1 + r.below(3) {
            let l = *r.pick(L);
            match r.below(if depth == 0 { 1 } else { 5 }) {
                0 => m.text += "keep; ",
                1 => {
                    // most breaks name a loop that is there
                    let known: Vec<&'static str> = open.iter().flatten().copied().collect();
                    let l = if !known.is_empty() && r.chance(5, 6) { *r.pick(&known) } else { l };
                    if m.wrong.is_none() && !open.contains(&Some(l)) {
                        m.wrong = Some(("LabelUndefined", l.into()));
                    }
                    m.text += &format!("break :name {}; ", quote(l));
                }
                2 => {
                    m.text += *r.pick(&["if true { ", "while \"0\" { "]);
                    open.push(Option::None);
                    block(r, open, depth - 1, m);
                    open.pop();
                    m.text += "} ";
                }
                k => {
                    let name = k == 3 || r.chance(1, 2);
                    if name {
                        if m.wrong.is_none() && open.contains(&Some(l)) {
                            m.wrong = Some(("LabelAlreadyDefined", l.into()));
                        }
                        m.text += &format!("foreverypart :name {} {{ ", quote(l));
                    } else {
                        m.text += "foreverypart { ";
                    }
                    open.push(if name { Some(l) } else { Option::None });
                    block(r, open, depth - 1, m);
                    open.pop();
                    m.text += "} ";
                }
            }
        }
    }
    let mut m = Made { text: String::new(), wrong: Option::None };
    block(r, &mut vec![], 4, &mut m);
    m
}

fn kind(e: &sieve::compiler::CompileError) -> String {
    format!("{:?}", e.error_type()).chars().take_while(|c| c.is_alphanumeric()).collect()
}

fn case(rep: &mut Rep, r: &mut Rng) {
    // statements around
    let mut base: Vec<Tok> = if r.chance(1, 2) { p32::base(r).0 } else { vec![] };
    if run::compiler().compile(gen::render(&base).as_bytes()).is_err() {
        // some of the generated expressions are not valid
        rep.cover("base refused");
        base.clear();
    }
    let st = p32::starts(&base);
    let ok: Vec<usize> = (0..=base.len())
        .filter(|i| st[*i].1 && !matches!(base.get(*i), Some(Tok::W(w)) if ["elsif", "else", "require"].contains(&w.to_ascii_lowercase().as_str())))
        .collect();
    let mut head = String::new();
    for _ in 0..r.below(3) {
        head += &statement(r, false).text;
        head.push('\n');
    }
    let spoil = r.chance(2, 3);
    let m = match r.below(20) {
        0 => scope(r),
        1 => labels(r),
        _ => statement(r, spoil),
    };
    let mut tail = String::new();
    for _ in 0..r.below(2) {
        let spoil = m.wrong.is_some() && r.chance(1, 2);
        tail += &statement(r, spoil).text;
        tail.push('\n');
    }
    let mut c = run::compiler();
    c.set_max_nested_foreverypart(99);
    // a script goes wrong at its first error only
    let (pre, post) = if ok.is_empty() {
        (String::new(), String::new())
    } else {
        let k = *r.pick(&ok);
        (gen::render(&base[..k]), gen::render(&base[k..]))
    };
    let pre = format!("{pre}\n{head}");
    let line = 1 + pre.matches('\n').count();
    let text = format!("{pre}{}\n{tail}{post}", m.text);
    rep.current = text.clone();
    if base.is_empty() {
        rep.cover("alone");
    }
    let res = c.compile(text.as_bytes());
    match (&m.wrong, res) {
        (Option::None, Ok(_)) => {
            rep.cover("accepted");
            rep.ok(&text);
        }
        (Option::None, Err(e)) => rep.fail("a valid combination of arguments is refused", format!("{e}\nstatement {}\n{text}", m.text)),
        (Some((k, why)), Ok(_)) => rep.fail("a statement that cannot work is accepted", format!("{k} expected ({why})\nstatement {}\n{text}", m.text)),
        (Some((k, why)), Err(e)) => {
            if kind(&e) != *k {
                return rep.fail("another error", format!("{k} expected ({why}), got {e}\nstatement {}\n{text}", m.text));
            }
            if e.line_num() != line {
                return rep.fail("the error is on another line", format!("{k} expected on line {line} ({why}), got {e}\nstatement {}\n{text}", m.text));
            }
            rep.cover(k);
            rep.ok(&text);
            rep.sample(|| format!("{} => {e}", m.text));
        }
    }
}

fn directed(rep: &mut Rep) {
    // every tag of every statement, once alone and once twice
    let c = run::compiler();
    let mut r = Rng::new(34);
    for cmd in CMDS {
        for t in cmd.tags {
            for u in cmd.tags {
                for _ in 0..2 {
                    let mut tags = vec![t, u];
                    for (of, need) in cmd.needs {
                        if tags.iter().any(|t| of.contains(&t.1)) && tags.iter().all(|t| t.1 != *need) {
                            tags.push(cmd.tags.iter().find(|t| t.1 == *need).unwrap());
                        }
                    }
                    let regex = tags.iter().any(|t| t.1 == "regex");
                    let mut s = cmd.name.to_string();
                    for t in &tags {
                        s += &format!(" :{} {}", t.1, good(&mut r, t.2, regex));
                    }
                    for p in cmd.pos {
                        s += " ";
                        s += &good(&mut r, *p, regex);
                    }
                    let s = if cmd.test { format!("if {s} {{ }}") } else { format!("{s};") };
                    let got = c.compile(s.as_bytes()).map(|_| ()).map_err(|e| kind(&e));
                    let want = if t.0 == u.0 && t.0 != 0 { Err("DuplicatedParameter".to_string()) } else { Ok(()) };
                    if got != want {
                        rep.fail("two tags", format!("{s}\nexpected {want:?} observed {got:?}"));
                    }
                    rep.ok(&s);
                }
            }
        }
    }
}
