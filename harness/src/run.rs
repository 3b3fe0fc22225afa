//! Runs the real compiler and runtime and records every event the host sees, with monitors for the
//! protocol that holds for every run (see `Trace::protocol`).
use sieve::compiler::grammar::Capability;
use sieve::runtime::{RuntimeError, Variable};
use sieve::{Compiler, Context, Envelope, Event, FunctionMap, Input, Runtime, Sieve};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static PANIC: RefCell<Option<String>> = const { RefCell::new(None) });

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {l}")));
    }));
}

pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tr {
    /// An event; the bytes of created messages are in `Trace::msgs`.
    Ev(Event),
    Err(String),
}

#[derive(Default, Debug)]
pub struct Trace {
    pub items: Vec<Tr>,
    pub msgs: BTreeMap<usize, Vec<u8>>,
    pub panic: Option<String>,
    pub runaway: bool,
    /// violations of the host protocol
    pub protocol: Vec<String>,
}

pub fn err_str(e: &RuntimeError) -> String {
    match e {
        RuntimeError::TooManyIncludes => "TooManyIncludes".into(),
        RuntimeError::InvalidInstruction(i) => format!("InvalidInstruction({})", i.name()),
        RuntimeError::ScriptErrorMessage(m) => format!("ScriptErrorMessage({m})"),
        RuntimeError::CapabilityNotAllowed(c) => format!("CapabilityNotAllowed({c})"),
        RuntimeError::CapabilityNotSupported(c) => format!("CapabilityNotSupported({c})"),
        RuntimeError::CPULimitReached => "CPULimitReached".into(),
    }
}

impl Trace {
    pub fn show(&self) -> String {
        let mut o = String::new();
        for i in &self.items {
            o += &show_tr(i);
            o.push('\n');
        }
        if let Some(p) = &self.panic {
            o += &format!("PANIC {p}\n");
        }
        if self.runaway {
            o += "RUNAWAY\n";
        }
        o
    }
    pub fn events(&self) -> impl Iterator<Item = &Event> {
        self.items.iter().filter_map(|i| if let Tr::Ev(e) = i { Some(e) } else { None })
    }
    pub fn errs(&self) -> Vec<&str> {
        self.items.iter().filter_map(|i| if let Tr::Err(e) = i { Some(e.as_str()) } else { None }).collect()
    }
    /// Arguments of the calls of the external function `id`.
    #[allow(dead_code)]
    pub fn calls(&self, id: u32) -> Vec<Vec<Variable>> {
        self.events()
            .filter_map(|e| match e {
                Event::Function { id: i, arguments } if *i == id => Some(arguments.clone()),
                _ => None,
            })
            .collect()
    }
    /// First arguments of `t(...)` as strings.
    pub fn marks(&self) -> Vec<String> {
        self.calls(T).iter().map(|a| a[0].to_string().into_owned()).collect()
    }
    pub fn broken(&self) -> Option<String> {
        if let Some(p) = &self.panic {
            Some(format!("panic: {p}"))
        } else if self.runaway {
            Some("the run does not end".into())
        } else {
            self.protocol.first().cloned()
        }
    }
}

pub fn show_tr(i: &Tr) -> String {
    match i {
        Tr::Ev(Event::CreatedMessage { message_id, .. }) => format!("CreatedMessage {{ message_id: {message_id} }}"),
        Tr::Ev(e) => format!("{e:?}"),
        Tr::Err(e) => format!("ERR {e}"),
    }
}

pub const T: u32 = 7;
pub const T2: u32 = 8;
pub const Q: u32 = 9;

/// `t(x)`, `t2(x, y)`: trace markers; `q(x)`: a question to the host. `up`, `cat`, `nth`: internal.
pub fn functions() -> FunctionMap {
    FunctionMap::new()
        .with_function("up", |_, v| v[0].to_string().to_ascii_uppercase().into())
        .with_function_args("cat", |_, v| format!("{}{}", v[0].to_string(), v[1].to_string()).into(), 2)
        .with_function_no_args("seven", |_, _| 7i64.into())
        .with_external_function("t", T, 1)
        .with_external_function("t2", T2, 2)
        .with_external_function("q", Q, 1)
}

pub fn compiler() -> Compiler {
    Compiler::new().register_functions(&mut functions()).with_no_capability_check(true)
}

pub fn runtime() -> Runtime {
    Runtime::new()
        .with_capability(Capability::While)
        .with_capability(Capability::Expressions)
        .with_functions(&mut functions())
        .with_valid_notification_uri("mailto")
        .with_cpu_limit(6_000)
        .with_max_redirects(5)
        .with_max_out_messages(10)
}

pub const MSG: &[u8] = b"From: Sender <sender@remote.org>\r\nTo: Me <me@example.org>\r\nSubject: Hello\r\nMessage-ID: <id1@remote.org>\r\n\r\nBody text\r\n";

pub fn std_context(ctx: &mut Context) {
    ctx.set_envelope(Envelope::From, "sender@remote.org");
    ctx.set_envelope(Envelope::To, "me@example.org");
    ctx.set_user_address("me@example.org");
}

/// Whether a reply to the event is an answer to a question (as opposed to an acknowledgement).
pub fn default_answer(ev: &Event) -> Input {
    match ev {
        Event::Function { .. } => Input::FncResult(Variable::from(1i64)),
        _ => Input::True,
    }
}

pub fn drive(ctx: &mut Context, script: Sieve, cap: usize, host: &mut dyn FnMut(&Event) -> Input) -> Trace {
    let mut tr = Trace::default();
    let mut input = Input::script("main", script);
    let mut final_seen: Option<String> = None;
    let mut err_seen = false;
    let mut ended = false;
    let mut num_end = 0;
    let mut last_created = 0;
    loop {
        let r = match no_panic(|| ctx.run(input)) {
            Ok(r) => r,
            Err(p) => {
                tr.panic = Some(p);
                return tr;
            }
        };
        match r {
            None => {
                ended = true;
                num_end += 1;
                if num_end == 4 {
                    break;
                }
                input = if num_end == 2 { Input::False } else { Input::True };
            }
            Some(Ok(ev)) => {
                if ended {
                    tr.protocol.push(format!("event {ev:?} after the end of the run"));
                    break;
                }
                let mut mid = None;
                match &ev {
                    Event::CreatedMessage { message_id, message } => {
                        if *message_id != last_created + 1 {
                            tr.protocol.push(format!("message id {message_id} created after {last_created}"));
                        }
                        last_created = *message_id;
                        tr.msgs.insert(*message_id, message.clone());
                    }
                    Event::Keep { message_id, .. }
                    | Event::FileInto { message_id, .. }
                    | Event::SendMessage { message_id, .. } => mid = Some(*message_id),
                    _ => (),
                }
                if let Some(m) = mid {
                    if m > last_created {
                        tr.protocol.push(format!("event refers to message {m} which was not created"));
                    }
                }
                if let Some(f) = &final_seen {
                    tr.protocol.push(format!("event {ev:?} after the final event {f}"));
                }
                if err_seen && !matches!(ev, Event::Keep { .. } | Event::Discard | Event::CreatedMessage { .. }) {
                    tr.protocol.push(format!("event {ev:?} after an error"));
                }
                if matches!(ev, Event::Keep { .. } | Event::Discard) {
                    final_seen = Some(format!("{ev:?}"));
                }
                input = host(&ev);
                tr.items.push(Tr::Ev(match ev {
                    Event::CreatedMessage { message_id, .. } => {
                        Event::CreatedMessage { message_id, message: Vec::new() }
                    }
                    ev => ev,
                }));
            }
            Some(Err(e)) => {
                if ended {
                    tr.protocol.push("error after the end of the run".into());
                    break;
                }
                if err_seen {
                    tr.protocol.push("a second error".into());
                }
                err_seen = true;
                tr.items.push(Tr::Err(err_str(&e)));
                input = Input::True;
            }
        }
        if tr.items.len() > cap {
            tr.runaway = true;
            break;
        }
    }
    // what a host asks in the end
    let stored = tr.items.iter().any(|i| matches!(i, Tr::Ev(Event::Keep { message_id, .. }) if *message_id > 0));
    if stored && !ctx.has_message_changed() {
        tr.protocol.push("an edited message is stored but has_message_changed says no".into());
    }
    if last_created == 0 && ctx.has_message_changed() {
        tr.protocol.push("has_message_changed without any message".into());
    }
    tr
}

pub fn compile(c: &Compiler, script: &str) -> Result<Sieve, String> {
    match no_panic(|| c.compile(script.as_bytes())) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("compile error: line {} pos {}: {:?}", e.line_num(), e.line_pos(), e.error_type())),
        Err(p) => Err(format!("compile panic: {p}")),
    }
}

/// Compiles and runs `script` over `msg` with the standard setup.
pub fn simple(script: &str, msg: &[u8]) -> Result<Trace, String> {
    simple_with(script, msg, &runtime(), |_| (), &mut default_answer)
}

pub fn simple_with(
    script: &str,
    msg: &[u8],
    rt: &Runtime,
    setup: impl FnOnce(&mut Context),
    host: &mut dyn FnMut(&Event) -> Input,
) -> Result<Trace, String> {
    let s = compile(&compiler(), script)?;
    let mut ctx = match no_panic(|| rt.filter(msg)) {
        Ok(c) => c,
        Err(p) => return Err(format!("filter panic: {p}")),
    };
    std_context(&mut ctx);
    setup(&mut ctx);
    let tr = drive(&mut ctx, s, 20_000, host);
    if let Some(b) = tr.broken() {
        return Err(format!("{b}\n{}", tr.show()));
    }
    Ok(tr)
}

/// Replaces generated message ids and boundaries (hex.hex.hex...), which differ from run to run.
pub fn canon(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        // <hex>.<hex>.<hex>
        let start = i;
        let mut groups = 0;
        let mut j = i;
        {
            loop {
                let k = j;
                while j < b.len() && b[j].is_ascii_hexdigit() {
                    j += 1;
                }
                if j - k < 8 {
                    break;
                }
                groups += 1;
                if j < b.len() && (b[j] == b'.' || b[j] == b'_') && groups < 3 {
                    j += 1;
                } else {
                    break;
                }
            }
        }
        if groups == 3 {
            o.extend_from_slice(b"GENERATED");
            i = j;
        } else {
            o.push(b[start]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

/// Also blanks the dates that the library writes into new messages.
pub fn canon_msg(m: &[u8]) -> String {
    let s = canon(&String::from_utf8_lossy(m));
    let year = ["202", "203"];
    s.split('\n').map(|l| if l.starts_with("Date: ") && year.iter().any(|y| l.contains(&format!(" {y}"))) { "Date: now" } else { l }).collect::<Vec<_>>().join("\n")
}

pub fn canon_items(items: &[Tr]) -> Vec<String> {
    items.iter().map(|i| canon(&show_tr(i))).collect()
}

/// Whether the message parser (a dependency) copes with the message: see DESIGN.md.
pub fn parses(msg: &[u8]) -> bool {
    no_panic(|| {
        let rt = Runtime::new();
        let c = rt.filter(msg);
        crate::gen::well_formed(c.message())
    })
    .unwrap_or(false)
}
