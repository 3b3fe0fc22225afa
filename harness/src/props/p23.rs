//! replace, enclose and convert, together with header edits and MIME loops.
use crate::gen::quote;
use crate::mail::{Body, Gen, Part, NL};
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, T2};
use crate::Prop;
use mail_parser::decoders::html::{html_to_text, text_to_html};
use mail_parser::HeaderName;
use sieve::{Event, Input};
use std::time::{SystemTime, UNIX_EPOCH};

pub const PROP: Prop = Prop { id: "P23", quick: 1_200_000, thorough: 6_000_000, directed, case };

const BODY: &[&str] = &["body.text", "body.html", "body.to_text", "body.to_html", "part.text"];
const WORDS: &[&str] = &["alpha", "Beta", "ALPHA", "1", "22", "gamma-delta", "\u{e9}t\u{e9}", "x*y", "<i>", "&amp;", "="];

#[derive(Clone, Debug)]
struct Fld {
    name: String,
    /// what follows the colon, with the line end
    tail: String,
    value: String,
    /// part of the original message
    old: bool,
}
impl Fld {
    fn new(name: &str, value: &str) -> Fld {
        Fld { name: name.into(), tail: format!(" {value}\r\n"), value: value.into(), old: false }
    }
}
#[derive(Clone, Debug)]
enum Item {
    Raw(String),
    Node(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Text(String),
    Html(String),
    Other,
}
#[derive(Clone, Debug)]
struct Node {
    fields: Vec<Fld>,
    sep: &'static str,
    items: Vec<Item>,
    kind: Kind,
    ctype: String,
    /// decoded content of the other kinds of leaves
    data: String,
}
fn build(r: &mut Rng, p: &Part, nl: &'static str, out: &mut Vec<Node>) {
    let mut f = vec![];
    let mut add = |r: &mut Rng, n: &str, v: &str| {
        let fold = if v.contains(' ') && r.chance(1, 3) { format!("{nl} ") } else { " ".into() };
        let tail = match v {
            "\u{e9}t\u{e9}" => " =?utf-8?q?=C3=A9t=C3=A9?=".to_string(),
            "a\r\nX-Evil: b" => " =?utf-8?q?a=0D=0AX-Evil=3A_b?=".to_string(),
            v => format!("{}{}", r.pick(&[" ", "", "  "]), v.replace(' ', &fold)),
        };
        f.push(Fld { name: n.into(), tail: tail + nl, value: v.into(), old: true });
    };
    for (n, v) in &p.fields {
        add(r, n, v);
    }
    add(r, "X-Id", &format!("p{}", p.id));
    for _ in 0..r.below(3) {
        let n = *r.pick(&["X-A", "Subject", "Cc", "Received", "Date", "To", "Content-Disposition", "Message-ID"]);
        let v = match n {
            "Subject" => *r.pick(&["Hello there", "\u{e9}t\u{e9}", "one", "a\r\nX-Evil: b"]),
            "Date" => "Fri, 21 Nov 1997 09:55:06 -0600",
            "Content-Disposition" => "attachment",
            "Message-ID" => "<a@b.c>",
            "X-A" => "value of x",
            _ => "u@v.w",
        };
        add(r, n, v);
    }
    let c = p.ctype.clone().unwrap_or(("text".into(), "plain".into()));
    if let Some((a, b)) = &p.ctype {
        let mut t = format!("{a}/{b}");
        for (n, v) in &p.params {
            t += &format!("; {n}=\"{v}\"");
        }
        add(r, "Content-Type", &t);
    }
    if let Some(e) = p.encoding {
        add(r, "Content-Transfer-Encoding", e);
    }
    r.shuffle(&mut f);
    let me = out.len();
    let (a, b) = (c.0.to_lowercase(), c.1.to_lowercase());
    out.push(Node { fields: f, sep: "\r\n", items: vec![], kind: Kind::Other, ctype: format!("{a}/{b}"), data: String::new() });
    let mut items = vec![];
    match &p.body {
        Body::Leaf(t, raw) => {
            items.push(Item::Raw(raw.clone()));
            out[me].data = t.clone();
            out[me].kind = match (a.as_str(), b.as_str()) {
                ("text", "html") => Kind::Html(t.clone()),
                ("text", _) => Kind::Text(t.clone()),
                _ => Kind::Other,
            };
        }
        Body::Multi { parts, prologue, epilogue, boundary } => {
            if let Some(p) = prologue {
                items.push(Item::Raw(format!("{p}{nl}")));
            }
            for p in parts {
                items.push(Item::Raw(format!("--{boundary}{nl}")));
                items.push(Item::Node(out.len()));
                build(r, p, nl, out);
                items.push(Item::Raw(nl.into()));
            }
            items.push(Item::Raw(format!("--{boundary}--")));
            items.push(Item::Raw(match epilogue {
                Some(e) => format!("{nl}{e}"),
                None => nl.into(),
            }));
        }
        Body::Msg(m) => items.push(Item::Raw(m.print(r, nl, true, &mut |_, _, _, _| ()))),
    }
    out[me].items = items;
}

#[derive(Debug)]
enum S {
    Mark(usize),
    Loop(Vec<S>),
    If(Vec<usize>, Vec<S>),
    Add(String, String, bool),
    Del(String, bool),
    Replace { subject: Option<String>, from: Option<String>, mime: bool, text: String },
    Enclose { subject: Option<String>, headers: Vec<String>, text: String },
    Convert(&'static str, &'static str, Option<bool>),
    File,
    Extract,
    /// body and part variables
    Body,
    Include(usize),
}
fn phrase(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "a\r\nX-Evil: b".into(),
        2 => "one\n\n<two>".into(),
        _ => format!("{} {}", r.pick(WORDS), r.pick(WORDS)),
    }
}
fn block(r: &mut Rng, n: usize, depth: usize, loops: usize, inc: &mut Vec<Vec<S>>, may: bool) -> Vec<S> {
    let mut v = vec![];
    let mut marks = 0;
    for _ in 0..1 + r.below(4) {
        match r.below(16) {
            0 | 1 if depth > 0 && loops < 3 => v.push(S::Loop(block(r, n, depth - 1, loops + 1, inc, may))),
            2..=5 if depth > 0 => {
                let ids = (0..1 + r.below(2)).map(|_| r.below(n)).collect();
                v.push(S::If(ids, block(r, n, depth - 1, loops, inc, may)));
            }
            6 => v.push(S::Add(r.pick(&["X-A", "X-New", "Subject", "From", "X-Id", "Date", "Content-Type"]).to_string(), r.pick(&["p1", "p0", "text/html", "new value"]).to_string(), r.chance(1, 2))),
            7 => v.push(S::Del(r.pick(&["X-A", "Subject", "From", "Content-Type", "Date"]).to_string(), r.chance(1, 2))),
            8 | 9 => {
                let o = |r: &mut Rng| r.chance(1, 2).then(|| phrase(r));
                v.push(S::Replace { subject: o(r), from: o(r), mime: r.chance(1, 3), text: phrase(r) });
            }
            10 if r.chance(1, 2) => {
                let headers = (0..r.below(3)).map(|_| r.pick(&["X-E: one", "From: me@x.org", "Date:  then ", "Message-ID: <x@y>", "nothing", "X Y: z", "X-Empty: ", "Original-From: q", "Subject: two", "X-L:a\r\nX-Evil: b", " X-S : c"]).to_string()).collect();
                let subject = r.chance(1, 2).then(|| phrase(r));
                v.push(S::Enclose { subject, headers, text: phrase(r) });
            }
            11 => {
                let t = *r.pick(&[("text/html", "text/plain"), ("text/plain", "text/html"), ("TEXT/HTML", "Text/Plain"), ("text", "text/html"), ("TEXT", "Text/html"), ("Text", "TEXT/HTML"), ("text/x-foo", "text/html"), ("text/plain", "text/plain"), ("image/png", "text/plain"), ("text/html", "text/html"), ("Text/Plain", "text/HTML")]);
                v.push(S::Convert(t.0, t.1, match r.below(4) {
                    0 => None,
                    1 => Some(true),
                    _ => Some(false),
                }));
            }
            12 => v.push(S::File),
            13 => v.push(if r.chance(1, 2) { S::Extract } else { S::Body }),
            14 if may && inc.len() < 2 => {
                inc.push(vec![]);
                let k = inc.len() - 1;
                inc[k] = block(r, n, 1, loops, inc, false);
                v.push(S::Include(k));
            }
            _ => {
                marks += 1;
                v.push(S::Mark(marks));
            }
        }
    }
    v
}
fn print(v: &[S], r: &mut Rng, o: &mut String) {
    fn st(r: &mut Rng, o: &mut String, s: &str) -> String {
        if r.chance(1, 4) {
            let n = o.len();
            *o += &format!("set {}\"v{n}\" {};\n", if r.chance(1, 2) { ":local " } else { "" }, quote(s));
            format!("\"${{v{n}}}\"")
        } else {
            quote(s)
        }
    }
    for s in v {
        match s {
            S::Mark(n) => *o += &format!("eval \"t2({n}, header.x-id)\";\n"),
            S::Loop(b) => {
                *o += "foreverypart {\n";
                print(b, r, o);
                *o += "}\n";
            }
            S::If(ids, b) => {
                let l: Vec<String> = ids.iter().map(|i| format!("\"p{i}\"")).collect();
                *o += &format!("if header :mime \"X-Id\" [{}] {{\n", l.join(", "));
                print(b, r, o);
                *o += "}\n";
            }
            S::Add(n, v, last) => *o += &format!("addheader {}{} {};\n", if *last { ":last " } else { "" }, quote(n), quote(v)),
            S::Del(n, any) => *o += &format!("deleteheader {}{};\n", if *any { ":mime :anychild " } else { "" }, quote(n)),
            S::Replace { subject, from, mime, text } => {
                let mut a = vec![];
                if let Some(s) = subject {
                    a.push(format!(":subject {} ", st(r, o, s)));
                }
                if let Some(s) = from {
                    a.push(format!(":from {} ", st(r, o, s)));
                }
                if *mime {
                    a.push(":mime ".into());
                }
                r.shuffle(&mut a);
                let t = st(r, o, text);
                *o += &format!("replace {}{t};\n", a.concat());
            }
            S::Enclose { subject, headers, text } => {
                let mut a = vec![];
                if let Some(s) = subject {
                    a.push(format!(":subject {} ", st(r, o, s)));
                }
                if !headers.is_empty() {
                    let l: Vec<String> = headers.iter().map(|h| st(r, o, h)).collect();
                    a.push(format!(":headers [{}] ", l.join(", ")));
                }
                r.shuffle(&mut a);
                let t = st(r, o, text);
                *o += &format!("enclose {}{t};\n", a.concat());
            }
            S::Convert(a, b, test) => {
                let (a, b) = (st(r, o, a), st(r, o, b));
                let p = st(r, o, "");
                *o += &match test {
                    None => format!("convert {a} {b} [{p}];\n"),
                    Some(not) => format!("if {}convert {a} {b} [{p}] {{ eval \"t2('y', '')\"; }} else {{ eval \"t2('n', '')\"; }}\n", if *not { "not " } else { "" }),
                };
            }
            S::File => *o += "fileinto :copy \"f\";\n",
            S::Extract => *o += "extracttext \"e\";\neval \"t2('e', e)\";\n",
            S::Body => {
                for v in BODY {
                    *o += &format!("eval \"t2('{v}', {v})\";\n");
                }
            }
            S::Include(n) => *o += &format!("include \"s{n}\";\n"),
        }
    }
}
#[derive(Debug, PartialEq, Clone)]
enum Exp {
    Mark(String, String),
    Create(String),
    File(usize),
    Keep(usize),
}
struct M<'a> {
    nodes: Vec<Node>,
    root: usize,
    cur: usize,
    epoch: usize,
    depth: usize,
    user: String,
    scripts: &'a [Vec<S>],
    limit: usize,
    changed: bool,
    last: usize,
    id: usize,
    /// the parts that make up the body, as mail-parser sees them in the original message
    text: Vec<usize>,
    html: Vec<usize>,
    out: Vec<Exp>,
    reached: Vec<&'static str>,
}
impl M<'_> {
    fn children(&self, id: usize) -> Vec<usize> {
        let mut v = vec![];
        for i in &self.nodes[id].items {
            if let Item::Node(c) = i {
                v.push(*c);
                v.extend(self.children(*c));
            }
        }
        v
    }
    fn render(&self, id: usize, o: &mut String) {
        let n = &self.nodes[id];
        for f in &n.fields {
            *o += &f.name;
            o.push(':');
            *o += &f.tail;
        }
        *o += n.sep;
        for i in &n.items {
            match i {
                Item::Raw(t) => *o += t,
                Item::Node(c) => self.render(*c, o),
            }
        }
    }
    fn clean(&self, s: &str) -> String {
        let mut o = String::new();
        for c in s.chars().filter(|c| !"\r\n".contains(*c)) {
            if o.len() + c.len_utf8() > self.limit {
                break;
            }
            o.push(c);
        }
        o
    }
    fn store(&mut self) {
        if self.changed {
            self.changed = false;
            self.last += 1;
            self.id = self.last;
            let mut t = String::new();
            self.render(self.root, &mut t);
            self.out.push(Exp::Create(t));
        }
    }
    fn run(&mut self, v: &[S]) {
        for s in v {
            match s {
                S::Mark(n) => {
                    let v = self.nodes[self.cur].fields.iter().rfind(|f| f.name == "X-Id").map_or(String::new(), |f| f.value.clone());
                    self.out.push(Exp::Mark(n.to_string(), v));
                }
                S::Loop(b) => {
                    let prev = self.cur;
                    let mut ids = self.children(self.cur);
                    if self.depth == 0 {
                        ids = self.children(self.root);
                        ids.insert(0, self.root);
                    }
                    let epoch = self.epoch;
                    self.depth += 1;
                    for id in ids {
                        if id != self.root && !self.children(self.root).contains(&id) {
                            self.reached.push("removed part skipped");
                            continue;
                        }
                        self.cur = id;
                        self.run(b);
                        if self.epoch != epoch {
                            self.reached.push("message enclosed in a loop");
                            break;
                        }
                    }
                    self.depth -= 1;
                    self.cur = if self.epoch == epoch { prev } else { self.root };
                }
                S::If(ids, b) => {
                    let ok = self.nodes[self.cur].fields.iter().any(|f| f.name == "X-Id" && ids.iter().any(|i| f.value == format!("p{i}")));
                    if ok {
                        self.run(b);
                    }
                }
                S::Add(n, v, last) => {
                    let f = Fld::new(n, &self.clean(v));
                    let l = &mut self.nodes[self.cur].fields;
                    let at = if *last { l.len() } else { 0 };
                    if n == "Content-Type" {
                        // not looked at again, except by convert
                    }
                    l.insert(at, f);
                    self.changed = true;
                }
                S::Del(n, any) => {
                    let mut ids = vec![self.cur];
                    if *any {
                        ids.extend(self.children(self.cur));
                    }
                    for i in ids {
                        let l = &mut self.nodes[i].fields;
                        let k = l.len();
                        l.retain(|f| !f.name.eq_ignore_ascii_case(n));
                        self.changed |= l.len() != k;
                    }
                }
                S::Replace { subject, from, mime, text } => {
                    self.reached.push(match (self.cur == self.root, *mime) {
                        (true, false) => "message replaced",
                        (true, true) => "message replaced with :mime",
                        (false, false) => "part replaced",
                        (false, true) => "part replaced with :mime",
                    });
                    if !self.children(self.cur).is_empty() {
                        self.reached.push("multipart replaced");
                    }
                    let mut f = vec![];
                    if self.cur == self.root {
                        let mut date = true;
                        for mut x in std::mem::take(&mut self.nodes[self.cur].fields) {
                            match x.name.as_str() {
                                "Subject" if subject.is_some() => x.name = "Original-Subject".into(),
                                "From" if from.is_some() => x.name = "Original-From".into(),
                                "Subject" | "From" | "To" | "Cc" | "Bcc" | "Received" => (),
                                "Date" => date = false,
                                _ => continue,
                            }
                            f.push(x);
                        }
                        let fr = match from {
                            Some(x) if !x.is_empty() => self.clean(x),
                            _ => self.user.clone(),
                        };
                        f.push(Fld::new("From", &fr));
                        if let Some(x) = subject.as_ref().filter(|s| !s.is_empty()) {
                            f.push(Fld::new("Subject", &self.clean(x)));
                        }
                        if date {
                            f.push(Fld::new("Date", "now"));
                        }
                        f.push(Fld::new("Message-ID", "ID"));
                    }
                    if !*mime {
                        f.push(Fld::new("Content-Type", "text/plain; charset=utf-8"));
                    }
                    let gone = self.children(self.cur);
                    self.text.retain(|i| !gone.contains(i));
                    self.html.retain(|i| !gone.contains(i));
                    let n = &mut self.nodes[self.cur];
                    n.fields = f;
                    n.sep = if *mime { "" } else { "\r\n" };
                    n.items = vec![Item::Raw(text.clone())];
                    n.kind = Kind::Text(text.clone());
                    n.ctype = "text/plain".into();
                    self.changed = true;
                }
                S::Enclose { subject, headers, text } => {
                    self.reached.push("message enclosed");
                    let mut old = String::new();
                    self.render(self.root, &mut old);
                    let s = match subject {
                        Some(s) => s.clone(),
                        None => self.nodes[self.root].fields.iter().rfind(|f| f.name == "Subject").map_or(String::new(), |f| f.value.clone()),
                    };
                    let mut f = vec![Fld::new("Content-Type", "multipart/mixed; boundary=\"BOUNDARY\""), Fld::new("Subject", &self.clean(&s))];
                    let mut seen = vec![];
                    for h in headers {
                        if let Some((n, v)) = h.split_once(':') {
                            let (n, v) = (n.trim(), v.trim());
                            if v.is_empty() || !n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-') || n.starts_with("Original-") {
                                continue;
                            }
                            seen.push(n);
                            f.push(Fld::new(n, &self.clean(v)));
                        }
                    }
                    for (n, v) in [("From", self.user.as_str()), ("Date", "now"), ("Message-ID", "ID")] {
                        if !seen.contains(&n) {
                            f.push(Fld::new(n, v));
                        }
                    }
                    let k = self.nodes.len();
                    let raw = |s: &str| Item::Raw(s.into());
                    self.nodes.push(Node {
                        fields: f,
                        sep: "",
                        items: vec![raw("\r\n--BOUNDARY\r\n"), Item::Node(k + 1), raw("\r\n--BOUNDARY\r\n"), Item::Node(k + 2), raw("\r\n--BOUNDARY--\r\n")],
                        kind: Kind::Other,
                        ctype: "multipart/mixed".into(),
                        data: String::new(),
                    });
                    self.nodes.push(Node { fields: vec![Fld::new("Content-Type", "text/plain; charset=utf-8")], sep: "\r\n", items: vec![raw(text)], kind: Kind::Text(text.clone()), ctype: "text/plain".into(), data: String::new() });
                    self.nodes.push(Node { fields: vec![Fld::new("Content-Type", "message/rfc822")], sep: "\r\n", items: vec![raw(&old)], kind: Kind::Other, ctype: "message/rfc822".into(), data: String::new() });
                    self.text.clear();
                    self.html.clear();
                    self.root = k;
                    self.cur = k;
                    self.epoch += 1;
                    self.changed = true;
                }
                S::Convert(a, b, test) => {
                    let (from, to) = (a.to_lowercase(), b.to_lowercase());
                    let mut did = false;
                    if from != to {
                        let mut ids = self.children(self.root);
                        ids.push(self.root);
                        for id in ids {
                            let n = &mut self.nodes[id];
                            if !n.fields.iter().rfind(|f| f.name == "Content-Type").is_some_and(|f| f.old) {
                                n.ctype = "text/plain".into();
                            }
                            let (new, t) = match &n.kind {
                                Kind::Html(h) if from == "text/html" && to == "text/plain" => (Kind::Text(html_to_text(h)), "text/plain; charset=utf8"),
                                Kind::Text(t) if to == "text/html" && (from == "text" || from == n.ctype) => (Kind::Html(text_to_html(t)), "text/html; charset=utf8"),
                                _ => continue,
                            };
                            did = true;
                            if id == self.root {
                                n.fields.retain(|f| !HeaderName::parse(f.name.as_str()).unwrap().is_mime_header());
                            } else {
                                n.fields.clear();
                            }
                            n.fields.push(Fld::new("Content-Type", t));
                            n.ctype = to.clone();
                            let (Kind::Text(body) | Kind::Html(body)) = &new else { unreachable!() };
                            n.items = vec![Item::Raw(body.clone())];
                            n.sep = "\r\n";
                            n.kind = new;
                        }
                    }
                    self.changed |= did;
                    if did {
                        self.reached.push(if to == "text/html" { "converted to HTML" } else { "converted to text" });
                    } else {
                        self.reached.push("nothing to convert");
                    }
                    if let Some(not) = test {
                        self.out.push(Exp::Mark(if did != *not { "y" } else { "n" }.into(), String::new()));
                    }
                }
                S::File => {
                    self.store();
                    self.out.push(Exp::File(self.id));
                }
                S::Extract => {
                    let t = match &self.nodes[self.cur].kind {
                        _ if self.depth == 0 => String::new(),
                        Kind::Text(t) => t.clone(),
                        Kind::Html(t) => html_to_text(t),
                        Kind::Other => String::new(),
                    };
                    self.out.push(Exp::Mark("e".into(), t));
                }
                S::Body => {
                    let kind = |l: &[usize]| l.first().map_or(Kind::Other, |i| self.nodes[*i].kind.clone());
                    let (t, h) = (kind(&self.text), kind(&self.html));
                    let n = &self.nodes[self.cur];
                    let mut v = vec![];
                    v.push(if let Kind::Text(t) = &t { t.clone() } else { String::new() });
                    v.push(if let Kind::Html(t) = &h { t.clone() } else { String::new() });
                    v.push(match &t {
                        Kind::Text(t) => t.clone(),
                        Kind::Html(t) => html_to_text(t),
                        Kind::Other => String::new(),
                    });
                    v.push(match &h {
                        Kind::Text(t) => text_to_html(t),
                        Kind::Html(t) => t.clone(),
                        Kind::Other => String::new(),
                    });
                    v.push(match &n.kind {
                        Kind::Text(t) | Kind::Html(t) => t.clone(),
                        Kind::Other => n.data.clone(),
                    });
                    self.reached.push(if self.id > 0 || self.changed { "body after edits" } else { "body" });
                    self.out.extend(BODY.iter().zip(v).map(|(n, v)| Exp::Mark(n.to_string(), v)));
                }
                S::Include(n) => {
                    let b = &self.scripts[*n];
                    self.run(b);
                }
            }
        }
    }
}
/// Puts fixed words in the place of generated ids, boundaries and the current date; notes the generated ones.
pub fn normal(m: &[u8], host: &str, t0: i64, seen: &mut Vec<String>) -> Result<String, String> {
    let mut s = String::from_utf8_lossy(m).into_owned();
    let gen = |t: &str| {
        let g: Vec<&str> = t.split('.').collect();
        g.len() == 3 && g.iter().all(|x| x.len() >= 4 && x.bytes().all(|b| b.is_ascii_hexdigit()))
    };
    let mut at = 0;
    while let Some(i) = s[at..].find("boundary=\"") {
        let i = at + i + 10;
        let e = i + s[i..].find('"').unwrap_or(0);
        let t = s[i..e].to_string();
        at = i;
        if gen(&t) {
            if seen.contains(&t) {
                return Err(format!("boundary {t} is used twice"));
            }
            seen.push(t.clone());
            s = s.replace(&t, "BOUNDARY");
        }
    }
    // a message whose Content-Type was deleted after it was enclosed
    s = s.replace("--invalid-boundary", "--BOUNDARY");
    let mut o = String::new();
    let t1 = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
    for l in s.split_inclusive('\n') {
        if let Some(v) = l.strip_prefix("Message-ID: <").and_then(|v| v.strip_suffix(&format!("@{host}>\r\n"))) {
            if gen(v) {
                if seen.contains(&v.to_string()) {
                    return Err(format!("identifier {v} is used twice"));
                }
                seen.push(v.into());
                o += "Message-ID: ID\r\n";
                continue;
            }
        }
        if let Some(v) = l.strip_prefix("Date: ") {
            if let Some(d) = mail_parser::DateTime::parse_rfc822(v.trim()) {
                if (t0..=t1).contains(&d.to_timestamp()) {
                    o += "Date: now\r\n";
                    continue;
                }
            }
        }
        o += l;
    }
    Ok(o)
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let nl = *r.pick(NL);
    let mut g = Gen { nl, words: WORDS, nested: r.chance(1, 4), n: 0 };
    let mut root = g.part(r, 2, &mut 0);
    root.fields.push(("From".into(), "a@b.c".into()));
    let mut nodes = vec![];
    build(r, &root, nl, &mut nodes);
    let n = nodes.len();
    let mut inc = vec![];
    let main = block(r, n, 3, 0, &mut inc, true);
    let text = |r: &mut Rng, v: &[S]| {
        let mut o = String::from("set \"e\" \"\";\n");
        print(v, r, &mut o);
        o
    };
    let script = text(r, &main);
    let included: Vec<String> = inc.iter().map(|v| text(r, v)).collect();
    let name = r.pick(&["", "", "Me", "M \"q\" \\", "N\r\nX-Evil: b"]).to_string();
    let host = r.pick(&["localhost", "mx.example.org"]).to_string();
    let esc: String = name.chars().filter(|c| !"\r\n".contains(*c)).flat_map(|c| if "\"\\".contains(c) { vec!['\\', c] } else { vec![c] }).collect();
    let mut m = M {
        root: 0,
        cur: 0,
        epoch: 0,
        depth: 0,
        user: if name.is_empty() { "me@example.org".into() } else { format!("\"{esc}\" <me@example.org>") },
        scripts: &inc,
        limit: if r.chance(1, 5) { 9 } else { 1024 },
        changed: false,
        last: 0,
        id: 0,
        text: vec![],
        html: vec![],
        out: vec![],
        reached: vec![],
        nodes,
    };
    let msg = {
        // the original has its own line ends
        let mut t = String::new();
        let keep = m.nodes.clone();
        for n in &mut m.nodes {
            n.sep = nl;
        }
        m.render(0, &mut t);
        m.nodes = keep;
        t
    };
    if !run::parses(msg.as_bytes()) {
        return rep.cover("message that mail-parser does not read");
    }
    {
        let p = mail_parser::MessageParser::new().parse(msg.as_bytes()).unwrap();
        m.text = p.text_body.iter().map(|i| *i as usize).collect();
        m.html = p.html_body.iter().map(|i| *i as usize).collect();
    }
    rep.current = format!("{script}{included:?} {name:?} limit {}\n{msg:?}", m.limit);
    let mut rt = run::runtime().with_cpu_limit(1_000_000).with_max_out_messages(1000).with_local_hostname(host.clone());
    rt = rt.with_max_header_size(m.limit);
    rt.set_max_nested_includes(100);
    let comp = run::compiler();
    let mut bad = None;
    let t0 = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
    let tr = run::simple_with(
        &script,
        msg.as_bytes(),
        &rt,
        |c| c.set_user_full_name(&name),
        &mut |ev| match ev {
            Event::IncludeScript { name, .. } => {
                let n: usize = name.as_str()[1..].parse().unwrap();
                match run::compile(&comp, &included[n]) {
                    Ok(x) => Input::script(name.clone(), x),
                    Err(e) => {
                        bad = Some(e);
                        Input::False
                    }
                }
            }
            e => run::default_answer(e),
        },
    );
    let tr = match (tr, bad) {
        (Ok(t), None) => t,
        (Err(e), _) | (_, Some(e)) => return rep.fail("run", format!("{e}\n{}", rep.current)),
    };
    m.run(&main);
    m.store();
    let id = m.id;
    m.out.push(Exp::Keep(id));
    if m.out.len() > 400 {
        return rep.cover("long run skipped");
    }
    let mut got = vec![];
    for e in tr.events() {
        got.push(match e {
            Event::CreatedMessage { message_id, .. } => match normal(&tr.msgs[message_id], &host, t0, &mut vec![]) {
                Ok(s) => Exp::Create(s),
                Err(e) => return rep.fail("generated", format!("{e}\n{}", rep.current)),
            },
            Event::FileInto { message_id, .. } => Exp::File(*message_id),
            Event::Keep { message_id, .. } => Exp::Keep(*message_id),
            Event::Function { id, arguments } if *id == T2 => Exp::Mark(arguments[0].to_string().into_owned(), arguments[1].to_string().into_owned()),
            Event::IncludeScript { .. } => continue,
            e => return rep.fail("event", format!("unexpected {e:?}\n{}", rep.current)),
        });
    }
    if m.reached.is_empty() {
        rep.trivial();
    } else {
        rep.ok(&rep.current.clone());
        let cur = rep.current.clone();
        rep.sample(|| cur);
    }
    for x in &m.reached {
        rep.cover(x);
    }
    rep.cover_n("created message compared", m.last as u64);
    if got != m.out {
        let k = got.iter().zip(&m.out).take_while(|(a, b)| a == b).count();
        rep.fail("message", format!("outcome {k}: expected {:#?}\nobserved {:#?}\n{}\n{main:?}\n{inc:?}", m.out.get(k), got.get(k), rep.current));
    }
}

fn directed(_rep: &mut Rep) {}
