//! MIME messages printed from a known structure.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Body {
    /// decoded text, text as it is in the message
    Leaf(String, String),
    Multi { parts: Vec<Part>, prologue: Option<String>, epilogue: Option<String>, boundary: String },
    Msg(Box<Part>),
}
#[derive(Clone, Debug)]
pub struct Part {
    /// header fields other than Content-Type and Content-Transfer-Encoding
    pub fields: Vec<(String, String)>,
    pub ctype: Option<(String, String)>,
    /// parameters of the content type
    pub params: Vec<(String, String)>,
    pub encoding: Option<&'static str>,
    pub body: Body,
    /// position in the list of parts of its message (depth first)
    pub id: usize,
}
pub const NL: &[&str] = &["\r\n", "\n"];

fn b64(s: &[u8], nl: &str) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for (k, c) in s.chunks(3).enumerate() {
        if k > 0 && k % 12 == 0 {
            o += nl;
        }
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}
fn qp(r: &mut Rng, s: &str, nl: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'\r' | b'\n' => o.push(b as char),
            b if b.is_ascii_graphic() && b != b'=' && b != b'.' && !r.chance(1, 12) => o.push(b as char),
            b => o += &format!("={b:02X}"),
        }
        if r.chance(1, 20) {
            o += "=";
            o += nl;
        }
    }
    o
}
pub struct Gen<'a> {
    pub nl: &'a str,
    pub words: &'a [&'a str],
    /// whether attached messages occur
    pub nested: bool,
    pub n: usize,
}
impl Gen<'_> {
    pub fn text(&mut self, r: &mut Rng) -> String {
        let mut s = String::new();
        for _ in 0..r.below(4) {
            let n = 1 + r.below(3);
            let l: Vec<&str> = (0..n).map(|_| *r.pick(self.words)).collect();
            s += &l.join(" ");
            if r.chance(1, 2) {
                s += self.nl;
            }
        }
        s
    }
    /// `id`: next free position.
    pub fn part(&mut self, r: &mut Rng, depth: usize, id: &mut usize) -> Part {
        let my = *id;
        *id += 1;
        let mut p = Part { fields: vec![], ctype: None, params: vec![], encoding: None, body: Body::Leaf(String::new(), String::new()), id: my };
        let t = |a: &str, b: &str| Some((a.to_string(), b.to_string()));
        match r.below(if depth == 0 { 7 } else { 13 }) {
            0 => (),
            1 | 2 => p.ctype = t("text", "plain"),
            3 => p.ctype = t("text", r.pick(&["html", "HTML"])),
            4 => p.ctype = t("application", r.pick(&["octet-stream", "pdf"])),
            5 => p.ctype = t("application", r.pick(&["xml", "xhtml+xml"])),
            6 => p.ctype = r.pick(&[t("image", "png"), t("text", "x-foo"), t("TEXT", "Plain")]).clone(),
            7 if self.nested => {
                p.ctype = t("message", "rfc822");
                let mut id2 = 0;
                let mut inner = self.part(r, 0, &mut id2);
                inner.fields.insert(0, ("Subject".into(), "nested".into()));
                p.body = Body::Msg(Box::new(inner));
                return p;
            }
            _ => {
                p.ctype = t("multipart", r.pick(&["mixed", "alternative", "related"]));
                self.n += 1;
                let boundary = format!("b{}x", self.n);
                p.params.push(("boundary".into(), boundary.clone()));
                let parts = (0..1 + r.below(3)).map(|_| self.part(r, depth - 1, id)).collect();
                let words = self.words;
                let extra = |r: &mut Rng| r.chance(1, 2).then(|| format!("{} {}", r.pick(words), r.pick(words)));
                p.body = Body::Multi { parts, prologue: extra(r), epilogue: extra(r), boundary };
                return p;
            }
        }
        let mut text = self.text(r);
        let c = p.ctype.clone().unwrap_or(("text".into(), "plain".into()));
        if c.1.eq_ignore_ascii_case("html") || c.1.contains("xml") {
            text = format!("<p>{}</p><b>{}</b>", r.pick(self.words), r.pick(self.words));
        }
        let ascii = text.is_ascii();
        let raw = match r.below(4) {
            0 => {
                p.encoding = Some("base64");
                b64(text.as_bytes(), self.nl)
            }
            1 => {
                p.encoding = Some("quoted-printable");
                qp(r, &text, self.nl)
            }
            k => {
                if k == 2 {
                    p.encoding = Some(if ascii { "7bit" } else { "8bit" });
                }
                text.clone()
            }
        };
        if !ascii || r.chance(1, 4) {
            if p.ctype.is_none() {
                p.ctype = t("text", "plain");
            }
            p.params.push(("charset".into(), "utf-8".into()));
        }
        p.body = Body::Leaf(text, raw);
        p
    }
}
impl Part {
    pub fn header(&self, r: &mut Rng, nl: &str) -> String {
        let mut s = String::new();
        for (n, v) in &self.fields {
            s += &format!("{n}: {v}{nl}");
        }
        if let Some((a, b)) = &self.ctype {
            s += &format!("{}: {a}/{b}", r.pick(&["Content-Type", "content-type"]));
            for (n, v) in &self.params {
                s += &match r.below(4) {
                    0 => format!("; {n}={v}"),
                    1 => format!(";{nl} {n}=\"{v}\""),
                    2 => format!("; {}=\"{v}\"", n.to_uppercase()),
                    _ => format!("; {n}=\"{v}\""),
                };
            }
            s += nl;
        }
        if let Some(e) = self.encoding {
            s += &format!("Content-Transfer-Encoding: {e}{nl}");
        }
        s
    }
    /// Prints the part; `f(part, header section with its empty line, body)` sees every part, those of
    /// attached messages too (`inner`).
    pub fn print(&self, r: &mut Rng, nl: &str, inner: bool, f: &mut dyn FnMut(&Part, bool, &str, &str)) -> String {
        let h = self.header(r, nl) + nl;
        let b = match &self.body {
            Body::Leaf(_, raw) => raw.clone(),
            Body::Multi { parts, prologue, epilogue, boundary } => {
                let mut s = String::new();
                if let Some(p) = prologue {
                    s += p;
                    s += nl;
                }
                for p in parts {
                    s += &format!("--{boundary}{nl}");
                    s += &p.print(r, nl, inner, f);
                    s += nl;
                }
                s += &format!("--{boundary}--");
                match epilogue {
                    Some(e) => s += &format!("{nl}{e}"),
                    None => s += nl,
                }
                s
            }
            Body::Msg(m) => m.print(r, nl, true, f),
        };
        f(self, inner, &h, &b);
        h + &b
    }
}
