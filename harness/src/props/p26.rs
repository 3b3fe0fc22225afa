//! No value gets out of the field, part or address it is put into.
use crate::gen::quote;
use crate::report::Rep;
use crate::rng::Rng;
use crate::run::{self, Tr};
use crate::Prop;
use mail_parser::{Message, MessageParser, PartType};
use sieve::{Envelope, Event, Input, Recipient};

pub const PROP: Prop = Prop { id: "P26", quick: 1_800_000, thorough: 10_000_000, directed, case };

/// Values for fields carry this one, values for bodies the other: at the beginning of a line they would
/// be fields of their own.
const H: &str = "X-HEvil: 1";
const B: &str = "X-BEvil: 1";

fn tainted(r: &mut Rng, mark: &str) -> String {
    let pre = match r.below(9) {
        0 => String::new(),
        1 => "\u{e9}t\u{e9}".into(),
        2 => "x".repeat(60 + r.below(30)),
        3 => "word ".repeat(10 + r.below(10)),
        4 => "a@b.org".into(),
        5 => "Name <a@b.org>".into(),
        6 => "\"quoted".into(),
        7 => "=?utf-8?q?x".into(),
        _ => "v".into(),
    };
    let brk = *r.pick(&["\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\r\r\n", "\n\r", "\r\n \r\n", ",\r\n", ">\r\n", "\"\r\n", "\\\r\n", "?=\r\n", "\r\n\t\r\n", "\u{85}\n", ";\r\n"]);
    // the separator of the parts of the message is known to its sender
    let brk = if mark == B && r.chance(1, 5) { "\r\n--b0\r\n" } else { brk };
    let post = *r.pick(&["", "\r\n", "\r\n\r\nrest", "\nX-More: 2", "@b.org", "\r\n.\r\n", "?="]);
    format!("{pre}{brk}{mark}{post}")
}

struct Setup {
    env: String,
    global: String,
    from: String,
    name: Option<String>,
    fnc: String,
    header: String,
}

/// Text of a value in the script and the statements it needs before.
fn value(r: &mut Rng, mark: &str, pre: &mut String) -> String {
    let field = mark == H;
    match r.below(if field { 10 } else { 3 }) {
        0 | 1 => quote(&tainted(r, mark)),
        2 => {
            let v = r.below(3);
            let m = if field { "h" } else { "b" };
            *pre += &format!("set \"{m}{v}\" {};\n", quote(&tainted(r, mark)));
            format!("\"{}${{{m}{v}}}\"", r.pick(&["", "x "]))
        }
        3 => "\"${env.name2}\"".into(),
        4 => "\"${global.g}\"".into(),
        5 => "\"a ${header.x-src}\"".into(),
        6 => {
            *pre += "if header :matches \"x-src\" \"*\" { set \"hm\" \"${1}\"; }\n";
            "\"${hm}\"".into()
        }
        7 => {
            *pre += "let \"hf\" \"t('x')\";\n";
            "\"${hf}\"".into()
        }
        8 => format!("\"${{envelope.from}} ${{hex:{}}}{H}\"", r.pick(&["0d 0a", "0a", "0d"])),
        _ => format!("\"{}${{unicode:{}}}{H}\"", r.pick(&["", "z"]), r.pick(&["d a", "a", "0D 000A"])),
    }
}
/// Where a value gives the name of a field, it is not to give the one looked for.
fn named(v: String) -> String {
    format!("\"X-Pre{}", &v[1..])
}
fn pct(r: &mut Rng, s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() && !r.chance(1, 8) { (b as char).to_string() } else if r.chance(1, 2) { format!("%{b:02X}") } else { format!("%{b:02x}") }).collect()
}
fn uri(r: &mut Rng) -> String {
    let mut s = "mailto:".to_string();
    for i in 0..1 + r.below(2) {
        if i > 0 {
            s.push(',');
        }
        s += &match r.below(4) {
            0 => {
                let t = tainted(r, H);
                format!("{}@b.org", pct(r, &t))
            }
            1 => {
                let t = tainted(r, H);
                format!("a@b.org{}", pct(r, &t))
            }
            _ => "me@example.org".into(),
        };
    }
    let n = r.below(4);
    for i in 0..n {
        s.push(if i == 0 { '?' } else { '&' });
        let k = r.pick(&["subject", "X-Ok", "cc", "To", "from", "body", "In-Reply-To", "Keywords", "X%0D%0AX-HEvil", "message-id", "Date"]).to_string();
        let t = tainted(r, if k == "body" { B } else { H });
        s += &format!("{k}={}", pct(r, &t));
    }
    s
}

fn stmt(r: &mut Rng, d: usize) -> (String, bool) {
    let mut p = String::new();
    let mut mime = false;
    let s = match r.below(if d > 0 { 14 } else { 12 }) {
        0..=2 => {
            let name = match r.below(6) {
                0 => named(value(r, H, &mut p)),
                1 => format!("\"X-Ok${{hex:0d 0a}}{}\"", &H[..7]),
                2 => "\"Subject\"".into(),
                _ => "\"X-Ok\"".into(),
            };
            let v = value(r, H, &mut p);
            format!("addheader {}{name} {v};", r.pick(&["", ":last "]))
        }
        3 | 4 => {
            mime = r.chance(1, 4);
            let mut s = "replace ".to_string();
            if mime {
                s += ":mime ";
            }
            if r.chance(1, 2) {
                s += &format!(":subject {} ", value(r, H, &mut p));
            }
            if r.chance(1, 2) {
                s += &format!(":from {} ", value(r, H, &mut p));
            }
            let b = if mime { quote("Content-Type: text/html\r\n\r\n<b>x</b>") } else { value(r, B, &mut p) };
            format!("{s}{b};")
        }
        5 => {
            let mut s = "enclose ".to_string();
            if r.chance(2, 3) {
                s += &format!(":subject {} ", value(r, H, &mut p));
            }
            if r.chance(2, 3) {
                let n = 1 + r.below(3);
                let l: Vec<String> = (0..n)
                    .map(|_| match r.below(3) {
                        0 => named(value(r, H, &mut p)),
                        _ => {
                            let t = tainted(r, H);
                            quote(&format!("{}{t}", r.pick(&["X-Ok: ", "X-Ok:", "To: ", "X-Ok\r\n : "])))
                        }
                    })
                    .collect();
                s += &format!(":headers [{}] ", l.join(", "));
            }
            format!("{s}{};", value(r, B, &mut p))
        }
        6 | 7 => {
            let mut s = "vacation ".to_string();
            if r.chance(1, 2) {
                s += &format!(":subject {} ", value(r, H, &mut p));
            }
            if r.chance(1, 2) {
                s += &format!(":from {} ", value(r, H, &mut p));
            }
            if r.chance(1, 3) {
                s += &format!(":fcc {} ", quote(&tainted(r, H)));
            }
            format!("{s}{};", value(r, B, &mut p))
        }
        8 | 9 => {
            let mut s = "notify ".to_string();
            if r.chance(1, 2) {
                s += &format!(":from {} ", value(r, H, &mut p));
            }
            if r.chance(1, 2) {
                s += &format!(":message {} ", value(r, H, &mut p));
            }
            if r.chance(1, 4) {
                s += &format!(":fcc {} ", quote(&tainted(r, H)));
            }
            let u = uri(r);
            // constants are examined by the compiler
            if r.chance(1, 2) {
                p += &format!("set \"hu\" {};\n", quote(&u));
                format!("{s}\"${{hu}}\";")
            } else {
                format!("{s}{};", quote(&u))
            }
        }
        10 => format!("redirect {};", value(r, H, &mut p)),
        11 => r.pick(&["keep;", "fileinto \"f\";", "fileinto :copy \"g\";", "deleteheader \"X-Ok\";", "if convert \"text/plain\" \"text/html\" \"\" { addheader \"X-Conv\" \"y\"; }"]).to_string(),
        12 => {
            let (a, m) = stmt(r, d - 1);
            mime = m;
            format!("foreverypart {{\n{a}\n}}")
        }
        _ => {
            let (a, m) = stmt(r, d - 1);
            mime = m;
            format!("if {} {{\n{a}\n}}", r.pick(&["true", "not false", "header :contains \"subject\" \"\""]))
        }
    };
    (format!("{p}{s}"), mime)
}

fn message(r: &mut Rng, header: &str) -> String {
    let nl = *r.pick(&["\r\n", "\n"]);
    let mut f = vec!["From: Sender <sender@remote.org>".to_string(), "To: me@example.org".into(), format!("X-Src: {header}")];
    match r.below(3) {
        0 => f.push("Subject: Hello".into()),
        1 => f.push(format!("Subject: =?utf-8?q?{}?=", H.replace(' ', "_").replace("X-", "a=0D=0AX-").replace(':', "=3A"))),
        _ => (),
    }
    if r.chance(1, 2) {
        f.push("Message-ID: <id1@remote.org>".into());
    }
    if r.chance(1, 2) {
        f.push(format!("References: <a@b>{nl} <c@d>"));
    }
    if r.chance(1, 3) {
        f.push("Date: Tue, 1 Apr 1997 09:06:31 -0800".into());
    }
    let body = if r.chance(1, 2) {
        f.push("Content-Type: multipart/mixed; boundary=\"b0\"".into());
        format!("--b0{nl}Content-Type: text/plain{nl}{nl}one{nl}--b0{nl}Content-Type: text/html{nl}{nl}<p>two</p>{nl}--b0--{nl}")
    } else {
        format!("body{nl}")
    };
    format!("{}{nl}{nl}{body}", f.join(nl))
}

/// The lines of the header section, with everything that some reader takes for the end of a line as one.
fn section(m: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(m);
    let end = [t.find("\r\n\r\n"), t.find("\n\n"), t.find("\n\r\n")].into_iter().flatten().min().unwrap_or(t.len());
    t[..end].split(['\r', '\n']).filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()
}
fn evil_part(m: &Message, mark: &str, d: usize) -> bool {
    d < 6
        && m.parts.iter().any(|p| {
            p.headers.iter().any(|h| h.name.as_str().eq_ignore_ascii_case(mark))
                || match &p.body {
                    PartType::Message(m) => evil_part(m, mark, d + 1),
                    _ => false,
                }
        })
}

fn judge(orig: &str, msg: &[u8], automatic: bool, mime: bool) -> Result<(), String> {
    let text = String::from_utf8_lossy(msg);
    let lines = section(msg);
    if lines.is_empty() {
        return Err("no fields".into());
    }
    for l in &lines {
        let l = l.as_str();
        if l.starts_with(&H[..7]) || l.starts_with(&B[..7]) {
            return Err(format!("a value became the field {l:?}"));
        }
        if l.starts_with([' ', '\t']) {
            continue;
        }
        let name = l.split(':').next().unwrap();
        if !l.contains(':') || name.is_empty() || !name.trim_end().bytes().all(|b| b.is_ascii_graphic()) {
            if !orig.lines().any(|o| o == l) {
                return Err(format!("not a field: {l:?}"));
            }
        }
    }
    // nothing that follows the fields begins with a value for a field
    let notification = lines.iter().any(|l| l.eq_ignore_ascii_case("auto-submitted: auto-notified"));
    if !notification && text.split(['\r', '\n']).any(|l| l.starts_with(&H[..7])) {
        return Err("a value of a field became a line".into());
    }
    let get = |n: &str| lines.iter().any(|l| l.len() > n.len() && l.as_bytes()[n.len()] == b':' && l[..n.len()].eq_ignore_ascii_case(n));
    if automatic {
        for n in ["From", "To", "Date", "Message-ID", "Subject", "Auto-Submitted"] {
            if !get(n) {
                return Err(format!("an automatic message without {n}"));
            }
        }
    }
    let Ok(Some(p)) = run::no_panic(|| MessageParser::new().parse(msg)) else { return Err("cannot be parsed".into()) };
    if evil_part(&p, &H[..7], 0) || (!mime && evil_part(&p, &B[..7], 0)) {
        return Err("a value became a field of a part".into());
    }
    if orig.contains("\nX-Src:") && !automatic {
        // the message is still there in full
        if !text.contains("X-Src:") && !text.contains("replaced") {
            return Err("gone".into());
        }
    }
    Ok(())
}

fn go(rep: &mut Rep, script: &str, msg: &str, s: &Setup, mime: bool, replaced: bool) {
    rep.current = format!("{script}\n{msg:?}\nenv {:?} global {:?} from {:?} name {:?} fnc {:?}", s.env, s.global, s.from, s.name, s.fnc);
    let cur = rep.current.clone();
    if !run::parses(msg.as_bytes()) {
        return rep.trivial();
    }
    let rt = run::runtime().with_max_variable_size(1 << 20).with_max_header_size(4096);
    let mut host = |ev: &Event| match ev {
        Event::Function { .. } => Input::FncResult(s.fnc.clone().into()),
        Event::DuplicateId { .. } => Input::False,
        _ => Input::True,
    };
    let tr = run::simple_with(
        script,
        msg.as_bytes(),
        &rt,
        |ctx| {
            ctx.set_envelope(Envelope::From, s.from.clone());
            ctx.set_env_variable("name2", s.env.clone());
            ctx.set_global_variable("g", s.global.clone());
            if let Some(n) = &s.name {
                ctx.set_user_full_name(n);
            }
        },
        &mut host,
    );
    let tr = match tr {
        Ok(t) => t,
        Err(e) if e.starts_with("compile error") => {
            rep.cover("refused by the compiler");
            return rep.trivial();
        }
        Err(e) => return rep.fail("run", format!("{e}\n{cur}")),
    };
    rep.ok(&cur);
    rep.sample(|| cur.clone());
    let mut sent = std::collections::BTreeMap::new();
    for i in &tr.items {
        if let Tr::Ev(Event::SendMessage { recipient, message_id, .. }) = i {
            let rc: Vec<&String> = match recipient {
                Recipient::Address(a) => vec![a],
                Recipient::Group(v) => v.iter().collect(),
                Recipient::List(_) => vec![],
            };
            for a in rc {
                rep.cover("recipient");
                if a.contains(['\r', '\n', '<', '>']) {
                    return rep.fail("recipient", format!("{a:?}\n{cur}"));
                }
            }
            sent.insert(*message_id, ());
        }
    }
    for (id, m) in &tr.msgs {
        let t = String::from_utf8_lossy(m);
        let automatic = t.contains("Auto-Submitted: auto-");
        if let Err(e) = judge(if replaced { "" } else { msg }, m, automatic, mime) {
            return rep.fail("created message", format!("{e}\n{t}\n{cur}"));
        }
        rep.cover(if t.contains("auto-notified") {
            "notification"
        } else if automatic {
            "vacation reply"
        } else if t.contains("Original-") || t.contains("message/rfc822") {
            "replaced or enclosed message"
        } else {
            "edited message"
        });
        if sent.contains_key(id) {
            rep.cover("message sent");
        }
    }
}

fn setup(r: &mut Rng) -> Setup {
    let t = |r: &mut Rng| tainted(r, H);
    let e = t(r);
    let header = format!("=?utf-8?q?v{}X-HEvil=3A_1?=", r.pick(&["=0D=0A", "=0A", "=0D", "=0D=0A=0D=0A"]));
    Setup {
        env: e,
        global: t(r),
        from: if r.chance(1, 6) { t(r).replace(['\r', '\n'], "") } else { "sender@remote.org".into() },
        name: if r.chance(1, 3) { Some(t(r)) } else { None },
        fnc: t(r),
        header,
    }
}

fn case(rep: &mut Rep, r: &mut Rng) {
    let s = setup(r);
    let msg = message(r, &s.header);
    let mut script = String::from("set \"hm\" \"\";\nset \"hf\" \"\";\nset \"hu\" \"\";\nset \"h0\" \"\";\nset \"h1\" \"\";\nset \"h2\" \"\";\nset \"b0\" \"\";\nset \"b1\" \"\";\nset \"b2\" \"\";\n");
    let mut mime = false;
    for _ in 0..1 + r.below(4) {
        let (t, m) = stmt(r, 2);
        mime |= m;
        script += &t;
        script.push('\n');
    }
    let replaced = script.contains("replace ");
    go(rep, &script, &msg, &s, mime, replaced);
}

fn directed(rep: &mut Rep) {
    let mut r = Rng::new(rep.seed);
    let s = Setup { env: format!("a\r\n{H}"), global: format!("a\n{H}"), from: "sender@remote.org".into(), name: Some(format!("a\r\n{H}")), fnc: format!("a\r{H}"), header: "=?utf-8?q?v=0D=0AX-HEvil=3A_1?=".into() };
    for v in ["${env.name2}", "${global.g}", "${header.x-src}", "${h}", "a${hex:0d 0a}X-HEvil: 1"] {
        for c in ["addheader \"X-Ok\" \"@\";", "addheader \"@\" \"x\";", "replace :subject \"@\" \"b\";", "replace :from \"@\" \"b\";", "enclose :subject \"@\" \"b\";", "enclose :headers [\"X-Ok: @\", \"@\"] \"b\";", "vacation :subject \"@\" \"b\";", "vacation :from \"@\" \"b\";", "notify :from \"@\" \"mailto:a@b.org\";", "notify :message \"@\" \"mailto:a@b.org\";", "redirect \"a@b.org@\";"] {
            let m = message(&mut r, &s.header);
            let t = format!("set \"h\" {};\n{}", quote(&format!("v\n{H}")), c.replace('@', v));
            // "@" in addresses is replaced as well: they are not wanted there
            let t = t.replace(&format!("a{v}b.org"), "a@b.org");
            go(rep, &t, &m, &s, false, c.starts_with("replace"));
        }
    }
    // a text with the separator of the parts around it
    use mail_parser::{decoders::html::html_to_text, MimeHeaders};
    for (b, sep) in [("b0", "\r\n"), ("b0", "\n"), ("=_x", "\r\n"), ("a b", "\r\n")] {
        for nested in [false, true] {
            let html = format!("<p>one</p><p>--{b}</p><p>X-BEvil: 1</p>");
            let inner = format!("--{b}{sep}Content-Type: text/html{sep}Content-Transfer-Encoding: base64{sep}{sep}{}{sep}--{b}{sep}Content-Type: text/csv{sep}{sep}1,2{sep}--{b}--{sep}", base64(html.as_bytes()));
            let body = if nested { format!("--out{sep}Content-Type: multipart/mixed; boundary=\"{b}\"{sep}{sep}{inner}{sep}--out{sep}{sep}last{sep}--out--{sep}") } else { inner };
            let msg = format!("From: a@b.org{sep}Content-Type: multipart/mixed; boundary=\"{}\"{sep}{sep}{body}", if nested { "out" } else { b });
            for text in [format!("x\r\n--{b}\r\nX-BEvil: 1\r\n\r\ny"), format!("--{b}--"), format!("x\n--out--\n--{b}"), "x\r\n--out\r\nX-BEvil: 1\r\n\r\ny".into(), "--out--".into()] {
                for (script, want) in [
                    (format!("foreverypart {{ if header :mime :subtype \"content-type\" \"html\" {{ replace {}; }} }}", quote(&text)), text.clone()),
                    (format!("set \"b\" {};\nforeverypart {{ if header :mime :subtype \"content-type\" \"html\" {{ replace \"${{b}}\"; }} }} addheader \"X-Ok\" \"1\";", quote(&text)), text.clone()),
                    ("if convert \"text/html\" \"text/plain\" \"\" { }".to_string(), html_to_text(&html)),
                ] {
                    rep.current = format!("{script}\n{msg:?}");
                    let cur = rep.current.clone();
                    let tr = match run::simple(&script, msg.as_bytes()) {
                        Ok(t) => t,
                        Err(e) => {
                            rep.fail("directed", format!("{e}\n{cur}"));
                            continue;
                        }
                    };
                    rep.ok(&cur);
                    rep.cover("separator in a text");
                    let Some(m) = tr.msgs.values().last() else {
                        rep.fail("directed", format!("no message\n{cur}"));
                        continue;
                    };
                    let p = MessageParser::new().parse(m).unwrap();
                    let n = if nested { 5 } else { 3 };
                    // readers that know the separators of all parts around
                    for (x, k) in [(b, 3), ("out", if nested { 3 } else { 0 })] {
                        let lines = m.split(|c| *c == b'\n').filter(|l| l.starts_with(format!("--{x}").as_bytes())).count();
                        if lines != k && k > 0 {
                            rep.fail("text with a separator", format!("{lines} lines begin with the separator {x:?}\n{}\n{cur}", String::from_utf8_lossy(m)));
                        }
                    }
                    let texts: Vec<String> = p.parts.iter().filter_map(|p| p.text_contents()).map(|t| t.to_string()).collect();
                    let same = |a: &str, b: &str| a.replace('\r', "").trim_end() == b.replace('\r', "").trim_end();
                    if p.parts.len() != n || !texts.iter().any(|t| same(t, &want)) || !p.parts.iter().any(|p| p.content_type().is_some_and(|c| c.subtype() == Some("csv")) && p.text_contents().is_some_and(|t| t.trim_end() == "1,2")) {
                        rep.fail("text with a separator", format!("wanted {want:?} among {n} parts, found {texts:?}\n{}\n{cur}", String::from_utf8_lossy(m)));
                    }
                }
            }
        }
    }
}
fn base64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3)
        .map(|c| {
            let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            (0..4).map(|i| if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }).collect::<String>()
        })
        .collect()
}
