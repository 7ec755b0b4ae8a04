//! C21: the C library, loaded as a program would load it, fed by a server of ours.

use std::collections::VecDeque;
use std::ffi::{CStr, CString};
use std::io::Write;
use std::os::raw::{c_char, c_int, c_void};
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::OnceLock;

use remote::jsonrpc::ClientEvent;
use serde_json::{json, Value};

use crate::fw::*;
use crate::{ensure, ensure_eq, real};

type P = *mut c_void;

// as in a C header
#[repr(C)]
#[allow(dead_code)]
enum Event {
    Echo { message: P },
    Info { client: *const c_char, session: *const c_char },
    Menu { command: *const c_char, title: *const c_char, search: *const c_char, items: P, selected: u32 },
    Status { items: P },
    View { items: P },
    Hint { lines: P },
}
#[repr(C)]
struct TextItem {
    text: *const c_char,
    face: *const c_char,
}
#[repr(C)]
struct MenuItem {
    value: *const c_char,
    text: P,
    description: *const c_char,
}
#[repr(C)]
struct StatusItem {
    index: c_int,
    text: P,
}
#[repr(C)]
struct ViewItem {
    buffer: *const c_char,
    start: u32,
    end: u32,
    lenses: P,
}
#[repr(C)]
struct Lens {
    lines: P,
    first_line_num: u32,
}
#[repr(C)]
struct Version {
    parts: [*const c_char; 4],
}

struct Library(usize);

impl Library {
    fn get() -> &'static Library {
        static LIB: OnceLock<Library> = OnceLock::new();
        LIB.get_or_init(|| {
            real::adopt_environment();
            let path = CString::new(real::library().to_str().unwrap()).unwrap();
            let h = unsafe { libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL) };
            assert!(!h.is_null(), "dlopen {:?}", path);
            Library(h as usize)
        })
    }
    fn sym(&self, name: &str) -> usize {
        let c = CString::new(name).unwrap();
        let p = unsafe { libc::dlsym(self.0 as *mut c_void, c.as_ptr()) };
        assert!(!p.is_null(), "{} is not exported", name);
        p as usize
    }
    /// pointer -> pointer
    fn pp(&self, name: &str, p: P) -> P {
        let f: extern "C" fn(P) -> P = unsafe { std::mem::transmute(self.sym(name)) };
        f(p)
    }
    fn destroy(&self, what: &str, p: P) {
        let f: extern "C" fn(P) = unsafe { std::mem::transmute(self.sym(&format!("ced_{}_destroy", what))) };
        f(p)
    }
    fn create(&self, session: &str) -> P {
        let c = CString::new(session).unwrap();
        self.pp("ced_connection_create", c.as_ptr() as P)
    }
    fn error_length(&self) -> c_int {
        let f: extern "C" fn() -> c_int = unsafe { std::mem::transmute(self.sym("ced_last_error_length")) };
        f()
    }
    fn error_message(&self, buffer: *mut c_char, n: c_int) -> c_int {
        let f: extern "C" fn(*mut c_char, c_int) -> c_int =
            unsafe { std::mem::transmute(self.sym("ced_last_error_message")) };
        f(buffer, n)
    }
    /// All items of an iterator, which then stays at its end, and is destroyed.
    fn items(&self, what: &str, it: P) -> Result<Vec<P>, Violation> {
        ensure!(!it.is_null(), "no {} iterator", what);
        let mut out = vec![];
        loop {
            let p = self.pp(&format!("ced_{}_next_item", what), it);
            if p.is_null() {
                break;
            }
            out.push(p);
            ensure!(out.len() < 200_000, "{} iterator without end", what);
        }
        for _ in 0..2 {
            ensure!(self.pp(&format!("ced_{}_next_item", what), it).is_null(), "{} after the end marker", what);
        }
        self.destroy(&format!("{}_iterator", what), it);
        Ok(out)
    }
}

fn string(p: *const c_char) -> Result<String, Violation> {
    ensure!(!p.is_null(), "null string");
    let bytes = unsafe { CStr::from_ptr(p) }.to_bytes();
    match String::from_utf8(bytes.to_vec()) {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("undecodable string {:?}", e)),
    }
}

fn text(lib: &Library, it: P) -> Result<Value, Violation> {
    let items = lib.items("text", it)?;
    let mut out = vec![];
    for p in items {
        let t = unsafe { &*(p as *const TextItem) };
        out.push(json!({"text": string(t.text)?, "face": string(t.face)?}));
        lib.destroy("text_item", p);
    }
    Ok(Value::Array(out))
}

fn texts(lib: &Library, it: P) -> Result<Value, Violation> {
    let lines = lib.items("view_lens_line", it)?;
    lines.into_iter().map(|l| text(lib, l)).collect::<Result<Vec<_>, _>>().map(Value::Array)
}

/// What a user of the C interface makes of an event.
fn read_event(lib: &Library, p: P) -> Result<Value, Violation> {
    let ev = unsafe { &*(p as *const Event) };
    let v = match ev {
        Event::Echo { message } => json!({"echo": text(lib, *message)?}),
        Event::Info { client, session } => json!({"info": [string(*client)?, string(*session)?]}),
        Event::Menu { command, title, search, items, selected } => {
            let mut entries = vec![];
            for p in lib.items("menu", *items)? {
                let i = unsafe { &*(p as *const MenuItem) };
                let d = if i.description.is_null() { Value::Null } else { json!(string(i.description)?) };
                entries.push(json!({"value": string(i.value)?, "text": text(lib, i.text)?, "description": d}));
                lib.destroy("menu_item", p);
            }
            json!({"menu": {"command": string(*command)?, "title": string(*title)?,
                "search": string(*search)?, "entries": entries, "selected": selected}})
        }
        Event::Status { items } => {
            let mut v = vec![];
            for p in lib.items("status", *items)? {
                let i = unsafe { &*(p as *const StatusItem) };
                v.push(json!({"index": i.index, "text": text(lib, i.text)?}));
                lib.destroy("status_item", p);
            }
            json!({ "status": v })
        }
        Event::View { items } => {
            let mut v = vec![];
            for p in lib.items("view", *items)? {
                let i = unsafe { &*(p as *const ViewItem) };
                let mut lenses = vec![];
                for l in lib.items("view_lens", i.lenses)? {
                    let lens = unsafe { &*(l as *const Lens) };
                    lenses.push(json!({"first_line_num": lens.first_line_num, "lines": texts(lib, lens.lines)?}));
                    lib.destroy("view_lens", l);
                }
                v.push(json!({"buffer": string(i.buffer)?, "start": i.start, "end": i.end, "lenses": lenses}));
                lib.destroy("view_item", p);
            }
            json!({ "view": v })
        }
        Event::Hint { lines } => json!({"hint": texts(lib, *lines)?}),
    };
    lib.destroy("event", p);
    Ok(v)
}

/// The null character has no place in a C string.
fn visible(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(s.replace('\0', "\u{fffd}")),
        Value::Array(a) => Value::Array(a.iter().map(visible).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), visible(v))).collect()),
        v => v.clone(),
    }
}

#[derive(Clone)]
struct Sent {
    line: Vec<u8>,
    /// the event it is handed over as, if any
    event: Option<Value>,
    error: Option<String>,
}

fn notif(method: &str, params: Value) -> Sent {
    let line = json!({"jsonrpc": "2.0", "method": method, "params": params}).to_string().into_bytes();
    let event = match method {
        "info" => json!({"info": [params["client"], params["session"]]}),
        "hint" => json!({"hint": params["text"]}),
        "menu" => {
            let mut p = params.clone();
            p["selected"] = json!(0);
            json!({ "menu": p })
        }
        m => json!({ m: params }),
    };
    Sent { line, event: Some(visible(&event)), error: None }
}

fn ignored(line: &str) -> Sent {
    Sent { line: line.into(), event: None, error: None }
}

fn undecodable(line: &[u8]) -> Sent {
    let error = match std::str::from_utf8(line) {
        Ok(l) => l.parse::<ClientEvent>().err().expect("malformed").to_string(),
        // that of the standard library, through the decoder
        Err(_) => "stream did not contain valid UTF-8".into(),
    };
    Sent { line: line.to_vec(), event: None, error: Some(error) }
}

struct Link {
    lib: &'static Library,
    server: UnixStream,
    handle: P,
}

impl Link {
    fn new() -> Result<Link, Violation> {
        let lib = Library::get();
        let path = real::sessions().join("s");
        let _ = std::fs::remove_file(&path);
        let listener = UnixListener::bind(&path).unwrap();
        let handle = lib.create("s");
        ensure!(!handle.is_null(), "no connection");
        let (server, _) = listener.accept().unwrap();
        Ok(Link { lib, server, handle })
    }
    fn send(&mut self, s: &Sent) {
        let mut l = s.line.clone();
        l.push(b'\n');
        self.server.write_all(&l).unwrap();
    }
    fn next(&self) -> P {
        self.lib.pp("ced_connection_next_event", self.handle)
    }
    fn end(self) {
        self.lib.destroy("connection", self.handle);
    }
}

/// Takes the pending error; there has to be none.
fn drain_error(lib: &Library) {
    let n = lib.error_length();
    if n >= 0 {
        let mut b = vec![0u8; n as usize + 1];
        lib.error_message(b.as_mut_ptr() as *mut c_char, n + 1);
    }
}

/// Sends messages (all at once or one by one) and reads what is handed over for them.
fn relay(sent: &[Sent], at_once: bool, run: &mut Run) -> Result<(), Violation> {
    let mut link = Link::new()?;
    let lib = link.lib;
    drain_error(lib);
    if at_once {
        for s in sent {
            link.send(s);
        }
    }
    for s in sent {
        run.step(format!("<- {}", String::from_utf8_lossy(&s.line)));
        if !at_once {
            link.send(s);
        }
        if s.event.is_none() && s.error.is_none() {
            continue; // nothing to hand over
        }
        let p = link.next();
        match (&s.event, &s.error) {
            (Some(ev), _) => {
                ensure!(!p.is_null(), "no event for {}", String::from_utf8_lossy(&s.line));
                ensure_eq!(read_event(lib, p)?, *ev, "event");
            }
            (_, Some(err)) => {
                ensure!(p.is_null(), "event {:?} for undecodable data", read_event(lib, p)?);
                ensure_eq!(fetch(lib)?, *err, "error");
            }
            _ => unreachable!(),
        }
        ensure_eq!(lib.error_length(), -1, "pending error");
    }
    // the end of the connection
    drop(std::mem::replace(&mut link.server, UnixStream::pair().unwrap().0));
    let p = link.next();
    ensure!(p.is_null(), "event {:?} out of nothing", read_event(lib, p)?);
    ensure_eq!(lib.error_length(), -1, "pending error");
    link.end();
    Ok(())
}

fn fetch(lib: &Library) -> Result<String, Violation> {
    let n = lib.error_length();
    ensure!(n >= 0, "no error is pending");
    let mut b = vec![0xaau8; n as usize + 1];
    ensure_eq!(lib.error_message(b.as_mut_ptr() as *mut c_char, n + 1), n, "length of the message");
    ensure_eq!(b[n as usize], 0, "end of the message");
    b.pop();
    match String::from_utf8(b) {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("undecodable message {:?}", e)),
    }
}

const STRINGS: [&str; 5] = ["", "a", "é😀e\u{301}", "x\0y", "\n\t\"\\"];
const FACES: [&str; 5] = ["Default", "Error", "Match", "Prompt", "Selection"];

fn fragments(n: usize) -> Vec<Value> {
    let mut one = vec![];
    for s in STRINGS {
        for f in FACES {
            one.push(json!({"text": s, "face": f}));
        }
    }
    let mut out = vec![json!([])];
    let mut last: Vec<Vec<Value>> = vec![vec![]];
    for _ in 0..n {
        last = last
            .iter()
            .flat_map(|l| one.iter().map(move |o| l.iter().cloned().chain([o.clone()]).collect()))
            .collect();
        out.extend(last.iter().map(|l| Value::Array(l.clone())));
    }
    out
}

fn lists(items: &[Value], n: usize) -> Vec<Value> {
    let mut out = vec![];
    let k = items.len();
    for i in 0..seqs_upto(k, n as u32) {
        out.push(Value::Array(decode_upto(i, k, n as u32).into_iter().map(|j| items[j].clone()).collect()));
    }
    out
}

fn some_texts() -> Vec<Value> {
    vec![
        json!([]),
        json!([{"text": "a", "face": "Default"}]),
        json!([{"text": "é", "face": "Match"}, {"text": "", "face": "Selection"}, {"text": "z\0", "face": "Error"}]),
    ]
}

/// Every kind of message with every bounded content.
fn contents(tier: Tier) -> Vec<Sent> {
    let mut v = vec![];
    for t in fragments(2) {
        v.push(notif("echo", t));
    }
    let texts = some_texts();
    for l in lists(&texts, tier.pick(3, 5)) {
        v.push(notif("hint", json!({ "text": l })));
    }
    for a in STRINGS {
        for b in STRINGS {
            v.push(notif("info", json!({"client": a, "session": b, "cwd": "/"})));
        }
    }
    let mut entries = vec![];
    for (i, value) in ["", "v", "é\0"].iter().enumerate() {
        for d in [Value::Null, json!(""), json!("dé\0")] {
            entries.push(json!({"value": value, "text": texts[i % texts.len()], "description": d}));
        }
    }
    for l in lists(&entries, tier.pick(2, 3)) {
        v.push(notif("menu", json!({"command": "c", "title": "té", "search": "s\0", "entries": l})));
    }
    for a in STRINGS {
        for b in STRINGS {
            for c in STRINGS {
                v.push(notif("menu", json!({"command": a, "title": b, "search": c, "entries": [entries[0]]})));
            }
        }
    }
    let mut items = vec![];
    for i in [0i64, 1, -1, 7, i32::MAX as i64, i32::MIN as i64] {
        for t in &texts {
            items.push(json!({"index": i, "text": t}));
        }
    }
    for l in lists(&items, tier.pick(2, 3)) {
        v.push(notif("status", l));
    }
    let mut lenses = vec![];
    for first in [0u64, 1, u32::MAX as u64] {
        for lines in lists(&texts, 2) {
            lenses.push(json!({"first_line_num": first, "lines": lines}));
        }
    }
    for l in lists(&lenses, 2) {
        v.push(notif("view", json!([{"buffer": "b\0é", "start": 1, "end": 2, "lenses": l}])));
    }
    let mut views = vec![];
    for (s, e) in [(0u64, 0u64), (1, 3), (u32::MAX as u64, u32::MAX as u64 - 1)] {
        for (b, l) in [("", json!([])), ("b", json!([lenses[4], lenses[0]])), ("é", json!([lenses[14]]))] {
            views.push(json!({"buffer": b, "start": s, "end": e, "lenses": l}));
        }
    }
    for l in lists(&views, tier.pick(2, 4)) {
        v.push(notif("view", l));
    }
    v
}

fn mixed() -> Vec<Sent> {
    let t = some_texts();
    vec![
        notif("echo", t[2].clone()),
        notif("hint", json!({"text": [t[1], t[0], t[2]]})),
        notif("info", json!({"client": "1", "session": "s", "cwd": "/"})),
        notif("menu", json!({"command": "c", "title": "t", "search": "", "entries": [
            {"value": "v", "text": t[2], "description": null}, {"value": "w", "text": t[1], "description": "d"}]})),
        notif("status", json!([{"index": -3, "text": t[1]}, {"index": 4, "text": t[2]}])),
        notif("view", json!([{"buffer": "b", "start": 3, "end": 9, "lenses": [
            {"first_line_num": 5, "lines": [t[1], t[2], t[0]]}, {"first_line_num": 6, "lines": []}]}])),
        ignored(r#"{"jsonrpc": "2.0", "id": 1, "result": null}"#),
        ignored(r#"{"jsonrpc": "2.0", "method": "menu", "params": 1}"#),
        undecodable(b"garbage"),
        undecodable(b"{\"a\": \"b\"}"),
        undecodable(b"\xff\xfe"),
        undecodable(b"[[[[[[[[[[[[1"),
    ]
}

#[derive(Clone, Debug)]
enum Op {
    Fail(usize),
    Event,
    Ignored,
    Length,
    Elsewhere,
    Null(c_int),
    Fetch(Size),
    Refused,
}
#[derive(Clone, Copy, Debug)]
enum Size {
    Exactly(c_int),
    /// relative to the length of the message
    Around(c_int),
}

/// Error calls: the pending error against a model.
fn errors(ops: &[Op], faults: &[Sent], run: &mut Run) -> Result<(), Violation> {
    let mut link = Link::new()?;
    let lib = link.lib;
    drain_error(lib);
    let mut pending: Option<String> = None;
    for op in ops {
        run.step(format!("{:?}", op));
        match op {
            Op::Fail(k) => {
                link.send(&faults[*k]);
                ensure!(link.next().is_null(), "an event for undecodable data");
                pending = faults[*k].error.clone();
            }
            Op::Event => {
                link.send(&notif("echo", json!([])));
                let p = link.next();
                ensure!(!p.is_null(), "no event");
                read_event(lib, p)?;
            }
            Op::Ignored => link.send(&ignored(r#"{"jsonrpc": "2.0", "id": 1, "result": null}"#)),
            Op::Length => {}
            Op::Elsewhere => {
                let n = std::thread::spawn(move || {
                    let mut b = [0xaau8; 64];
                    let n = Library::get().error_message(b.as_mut_ptr() as *mut c_char, 64);
                    (n, Library::get().error_length(), b.iter().all(|c| *c == 0xaa))
                })
                .join()
                .unwrap();
                ensure_eq!(n, (0, -1, true), "error calls of another thread");
            }
            Op::Null(n) => {
                ensure_eq!(lib.error_message(std::ptr::null_mut(), *n), -1, "result for a null buffer");
            }
            Op::Fetch(size) => {
                let len = pending.as_ref().map_or(0, |p| p.len()) as c_int;
                let size = match *size {
                    Size::Exactly(n) => n,
                    Size::Around(d) => len + d,
                };
                let mut b = vec![0xaau8; size.clamp(0, 4096) as usize + 64];
                let r = lib.error_message(b.as_mut_ptr() as *mut c_char, size);
                let used = match pending.take() {
                    None => {
                        ensure_eq!(r, 0, "result without a pending error");
                        // an empty message may be written
                        usize::from(size > 0 && b[0] == 0)
                    }
                    Some(p) if size <= len => {
                        ensure_eq!(r, -2, "result for a buffer of {} for {} bytes", size, len);
                        pending = Some(p);
                        size.max(0) as usize
                    }
                    Some(p) => {
                        ensure_eq!(r, len, "result for a buffer of {} for {} bytes", size, len);
                        ensure_eq!(&b[..len as usize], p.as_bytes(), "message");
                        ensure_eq!(b[len as usize], 0, "end of the message");
                        len as usize + 1
                    }
                };
                ensure!(
                    b[used.min(size.max(0) as usize)..].iter().all(|c| *c == 0xaa),
                    "written after the end of the buffer or of the message ({} bytes for {})", size, len
                );
            }
            Op::Refused => {
                // nobody listens there
                let path = real::sessions().join("gone");
                let _ = std::fs::remove_file(&path);
                drop(UnixListener::bind(&path).unwrap());
                let expected = UnixStream::connect(&path).unwrap_err().to_string();
                ensure!(lib.create("gone").is_null(), "connected to nothing");
                let _ = std::fs::remove_file(&path);
                pending = Some(expected);
            }
        }
        let expected = pending.as_ref().map_or(-1, |p| p.len() as c_int);
        ensure_eq!(lib.error_length(), expected, "length of the last error after {:?}", op);
        run.state(&pending);
    }
    if let Some(p) = &pending {
        ensure_eq!(fetch(lib)?, *p, "last error");
    }
    ensure_eq!(lib.error_length(), -1, "pending error at the end");
    link.end();
    Ok(())
}

fn error_space(name: &str, ops: Vec<Op>, depth: u32) -> impl Space {
    let n = ops.len();
    space(name, seqs_upto(n, depth), move |i, run| {
        let faults: Vec<Sent> = mixed().into_iter().filter(|s| s.error.is_some()).collect();
        let seq: Vec<Op> = decode_upto(i, n, depth).into_iter().map(|k| ops[k].clone()).collect();
        errors(&seq, &faults, run)
    })
}

/// Every pair of error calls, many times.
fn error_pairs(ops: Vec<Op>, times: usize) -> impl Space {
    let n = ops.len();
    space("every pair of error calls many times", (n * n) as u64, move |i, run| {
        let faults: Vec<Sent> = mixed().into_iter().filter(|s| s.error.is_some()).collect();
        let (a, b) = (&ops[i as usize / n], &ops[i as usize % n]);
        let seq: Vec<Op> = (0..times).flat_map(|_| [a.clone(), b.clone()]).collect();
        errors(&seq, &faults, run)
    })
}

/// Every buffer size for every message.
fn sizes() -> impl Space {
    let faults: Vec<Sent> = mixed().into_iter().filter(|s| s.error.is_some()).collect();
    let n = faults.len() as u64;
    space("buffer sizes", n * 120, move |i, run| {
        let (k, size) = ((i % n) as usize, (i / n) as c_int - 8);
        let ops = [Op::Fail(k), Op::Fetch(Size::Exactly(size)), Op::Fetch(Size::Exactly(size))];
        errors(&ops, &faults, run)
    })
}

/// Two texts of an event read in every interleaving.
fn interleaved() -> impl Space {
    let orders: Vec<Vec<usize>> = (0..1u32 << 8)
        .filter(|m| m.count_ones() == 4)
        .map(|m| (0..8).map(|b| (m >> b & 1) as usize).collect())
        .collect();
    space("interleaved iterations", orders.len() as u64, move |i, run| {
        let mut link = Link::new()?;
        let lib = link.lib;
        let a = json!([{"text": "a0", "face": "Match"}, {"text": "a1", "face": "Default"}, {"text": "a2", "face": "Error"}]);
        let b = json!([{"text": "b0", "face": "Prompt"}, {"text": "b1", "face": "Selection"}, {"text": "b2", "face": "Default"}]);
        link.send(&notif("status", json!([{"index": 0, "text": a}, {"index": 1, "text": b}])));
        let p = link.next();
        ensure!(!p.is_null(), "no event");
        let items = match unsafe { &*(p as *const Event) } {
            Event::Status { items } => lib.items("status", *items)?,
            _ => return fail("not a status"),
        };
        ensure_eq!(items.len(), 2, "items");
        let its: Vec<P> = items.iter().map(|i| unsafe { (*(*i as *const StatusItem)).text }).collect();
        let mut at = [0usize; 2];
        let mut left: VecDeque<usize> = orders[i as usize].iter().copied().collect();
        while let Some(k) = left.pop_front() {
            run.step(format!("next of {}", k));
            let t = lib.pp("ced_text_next_item", its[k]);
            let expected = if k == 0 { &a[at[0]] } else { &b[at[1]] };
            at[k] += 1;
            if expected.is_null() {
                ensure!(t.is_null(), "item after the last");
                continue;
            }
            ensure!(!t.is_null(), "no item {} of {}", at[k], k);
            let item = unsafe { &*(t as *const TextItem) };
            ensure_eq!(json!({"text": string(item.text)?, "face": string(item.face)?}), *expected, "item");
            lib.destroy("text_item", t);
        }
        for k in 0..2 {
            lib.destroy("text_iterator", its[k]);
            lib.destroy("status_item", items[k]);
        }
        lib.destroy("event", p);
        link.end();
        Ok(())
    })
}

fn other() -> impl Space {
    space("version, silence and refusals", 4, |i, run| {
        let lib = Library::get();
        drain_error(lib);
        match i {
            0 => {
                run.step("version");
                let f: extern "C" fn() -> P = unsafe { std::mem::transmute(lib.sym("ced_version")) };
                let p = f();
                let v = unsafe { &*(p as *const Version) };
                let parts = v.parts.iter().map(|p| string(*p)).collect::<Result<Vec<_>, _>>()?;
                let toml = std::fs::read_to_string("/repo/remote-ffi/Cargo.toml").unwrap_or_default();
                let line = toml.lines().find(|l| l.starts_with("version")).unwrap_or("");
                ensure_eq!(format!("version = \"{}\"", parts[..3].join(".")), line.trim(), "version");
                lib.destroy("version", p);
            }
            1 => {
                run.step("next event of a silent server");
                let link = Link::new()?;
                ensure!(link.next().is_null(), "event out of nothing");
                ensure_eq!(lib.error_length(), -1, "pending error");
                link.end();
            }
            2 => {
                run.step("a session that cannot be started");
                let _ = std::fs::remove_file(real::sessions().join("none"));
                std::env::set_var("CED_BIN", "/nonexistent/ced");
                ensure!(lib.create("none").is_null(), "connected to nothing");
                std::env::set_var("CED_BIN", real::ced());
                let e = std::io::Error::from_raw_os_error(libc::ENOENT).to_string();
                ensure_eq!(fetch(lib)?, e, "error");
                ensure_eq!(lib.error_length(), -1, "pending error");
            }
            _ => {
                run.step("destroying nothing");
                for what in ["connection", "event", "text_item", "version", "menu_item", "menu_iterator", "view_lens_line"] {
                    lib.destroy(what, std::ptr::null_mut());
                }
            }
        }
        Ok(())
    })
}

/// Errors of sessions of all names, fetched into buffers of all sizes around theirs.
fn nameless(tier: Tier) -> impl Space {
    let most = tier.pick(24, 250);
    let parts = ["a", "é", "日", "a😀", " x"];
    space("names of sessions that cannot be started", most * parts.len() as u64, move |i, run| {
        let lib = Library::get();
        drain_error(lib);
        let name = parts[i as usize % parts.len()].repeat(1 + i as usize / parts.len());
        if name.len() > 255 {
            return Ok(()); // no name of a file
        }
        run.step(format!("create {:?} with a server that ends at once", name));
        std::env::set_var("CED_BIN", "/bin/true");
        let p = lib.create(&name);
        std::env::set_var("CED_BIN", real::ced());
        ensure!(p.is_null(), "connected to nothing");
        let len = lib.error_length();
        ensure!(len >= 0, "no error is pending");
        let mut b = vec![0xaau8; len as usize + 64];
        for size in (0..=len).rev().step_by(1 + len as usize / 40).chain([0, 1]) {
            let r = lib.error_message(b.as_mut_ptr() as *mut c_char, size);
            ensure_eq!(r, -2, "result for a buffer of {} for {} bytes", size, len);
            ensure!(b[size as usize..].iter().all(|c| *c == 0xaa), "written after a buffer of {}", size);
            ensure_eq!(lib.error_length(), len, "length of the last error");
        }
        let e = fetch(lib)?;
        ensure!(e.contains(&name), "no mention of {:?} in {:?}", name, e);
        ensure_eq!(lib.error_length(), -1, "pending error");
        run.state(&e);
        Ok(())
    })
}

/// Contents of a size: characters, fragments, lines, entries, items, lenses.
fn sized(n: usize) -> Vec<Sent> {
    let x = "é\0x".repeat(n / 3 + 1);
    let t = |s: &str| json!([{"text": s, "face": "Match"}]);
    let few = if n > 65_536 { n } else { n.min(3000) };
    let many: Vec<Value> = (0..few).map(|i| json!({"text": format!("{}", i), "face": FACES[i % 5]})).collect();
    let lines: Vec<Value> = (0..few).map(|i| if i % 3 == 0 { json!([]) } else { t(&i.to_string()) }).collect();
    let entries: Vec<Value> = (0..few)
        .map(|i| {
            let d = if i % 2 == 0 { Value::Null } else { json!(format!("d{}", i)) };
            json!({"value": format!("v{}", i), "text": t("l"), "description": d})
        })
        .collect();
    let lens = |first: usize, lines: &[Value]| json!({"first_line_num": first, "lines": lines});
    vec![
        notif("echo", t(&x)),
        notif("echo", json!(many)),
        notif("hint", json!({ "text": lines })),
        notif("info", json!({"client": x, "session": x, "cwd": ""})),
        notif("menu", json!({"command": x, "title": x, "search": x, "entries": entries})),
        notif("menu", json!({"command": "c", "title": "", "search": "", "entries": [{"value": x, "text": t(&x), "description": x}]})),
        notif("status", json!((0..few).map(|i| json!({"index": i as i64 - 5, "text": t("s")})).collect::<Vec<_>>())),
        notif("view", json!([{"buffer": x, "start": n, "end": n + 1, "lenses": [lens(n, &lines), lens(0, &[t(&x)])]}])),
        notif("view", json!([{"buffer": "b", "start": 0, "end": 0,
            "lenses": (0..few).map(|i| lens(i, &lines[..i % 3 % (few + 1)])).collect::<Vec<_>>()}])),
        notif("view", json!((0..few).map(|i| json!({"buffer": format!("b{}", i), "start": i, "end": i, "lenses": []})).collect::<Vec<_>>())),
        ignored(&format!(r#"{{"jsonrpc": "2.0", "id": 1, "result": "{}"}}"#, "r".repeat(n))),
        undecodable("[".repeat(n + 1).as_bytes()),
        undecodable("x".repeat(n + 1).as_bytes()),
        notif("echo", json!([])),
    ]
}

pub fn c21(tier: Tier) -> Check {
    let mut ns: Vec<usize> = (0..tier.pick(140, 300)).collect();
    ns.extend(crate::model::text::sizes(tier).into_iter().filter(|n| (300..40_000).contains(n)));
    // more than 16 bits count
    ns.push(65_600);
    let of_size = space("contents of all sizes", ns.len() as u64, move |i, run| relay(&sized(ns[i as usize]), false, run));
    let characters = space("every character", 0x110000 / 512, move |i, run| {
        let from = i as u32 * 512;
        let sent: Vec<Sent> = (0..8)
            .map(|b| {
                let s: String = (0..64).filter_map(|k| char::from_u32(from + b * 64 + k)).collect();
                notif("menu", json!({"command": s, "title": "", "search": "",
                    "entries": [{"value": "v", "text": [{"text": s, "face": "Error"}], "description": s}]}))
            })
            .collect();
        relay(&sent, false, run)
    });
    let numbers = space("numbers", 33, move |i, run| {
        let mut sent = vec![];
        for d in -2i64..=2 {
            let n = (1i64 << i) + d;
            let u = n.clamp(0, u32::MAX as i64);
            sent.push(notif("view", json!([{"buffer": "b", "start": u, "end": u, "lenses": [{"first_line_num": u, "lines": []}]}])));
            for k in [n, -n] {
                let k = k.clamp(i32::MIN as i64, i32::MAX as i64);
                sent.push(notif("status", json!([{"index": k, "text": []}])));
            }
        }
        relay(&sent, false, run)
    });
    let again = {
        let m = mixed();
        let n = m.len();
        let times = tier.pick(30, 300);
        space("every pair of messages many times", (n * n * 2) as u64, move |i, run| {
            let (a, b) = (&m[i as usize / 2 / n], &m[i as usize / 2 % n]);
            let seq: Vec<Sent> = (0..times).flat_map(|_| [a.clone(), b.clone()]).collect();
            relay(&seq, i % 2 == 0, run)
        })
    };
    let all = contents(tier);
    // several contents per connection, so that what is left of one would show in the next
    let group = 16;
    let groups = (all.len() + group - 1) / group;
    let contents = space("contents of every kind of event", groups as u64, move |i, run| {
        let from = i as usize * group;
        relay(&all[from..(from + group).min(all.len())], false, run)
    });
    let mixed_all = mixed();
    let n = mixed_all.len();
    let depth = tier.pick(3, 4);
    let sequences = space("sequences of messages", seqs_upto(n, depth) * 2, move |i, run| {
        let seq: Vec<Sent> = decode_upto(i / 2, n, depth).into_iter().map(|k| mixed_all[k].clone()).collect();
        relay(&seq, i % 2 == 0, run)
    });
    use Op::*;
    let ops = vec![
        Fail(0),
        Fail(3),
        Event,
        Ignored,
        Refused,
        Length,
        Elsewhere,
        Null(100),
        Fetch(Size::Exactly(0)),
        Fetch(Size::Around(0)),
        Fetch(Size::Around(1)),
        Fetch(Size::Exactly(200)),
    ];
    Check::new("C21")
        .space(other())
        .space(nameless(tier))
        .space(contents)
        .space(sequences)
        .space(error_pairs(ops.clone(), tier.pick(25, 200)))
        .space(error_space("error calls", ops, tier.pick(3, 5)))
        .space(sizes())
        .space(of_size)
        .space(characters)
        .space(numbers)
        .space(again)
        .space(interleaved())
        .assume("numbers above 32 bits are out of the reach of the C types and are not sent")
        .assume("the pending error is that of the calling thread")
}
