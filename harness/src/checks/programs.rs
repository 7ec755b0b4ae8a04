//! C19 (JSON and standalone modes) and the script mode of C20, on the real program.

use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::time::Instant;

use async_channel::unbounded;
use ced::editor::Editor;
use remote::protocol::requests::EditParams;
use serde_json::{json, Value};

use crate::fw::*;
use crate::real::{self, Program, PATIENCE};
use crate::{ensure, ensure_eq};

// ---- JSON mode

#[derive(Clone)]
enum Step {
    /// a line on standard input, and whether it is a request
    In(Vec<u8>, bool),
    /// a line of the server, and whether it is a message
    Out(Vec<u8>, bool),
}

fn shown(l: &[u8]) -> String {
    let s = String::from_utf8_lossy(l);
    match s.char_indices().nth(200) {
        Some((i, _)) => format!("{}… ({} bytes)", &s[..i], l.len()),
        None => s.into_owned(),
    }
}

impl Step {
    fn show(&self) -> String {
        match self {
            Step::In(l, _) => format!("stdin: {}", shown(l)),
            Step::Out(l, _) => format!("server: {}", shown(l)),
        }
    }
}

fn canonical(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        if o.get("params") == Some(&Value::Null) {
            o.remove("params");
        }
        if let Some(e) = o.get_mut("error").and_then(|e| e.as_object_mut()) {
            if e.get("data") == Some(&Value::Null) {
                e.remove("data");
            }
        }
    }
    v
}

fn message(bytes: &[u8]) -> Result<Value, Violation> {
    match serde_json::from_slice(bytes) {
        Ok(v) => Ok(canonical(&v)),
        Err(e) => fail(format!("not one message: {} in {}", e, shown(bytes))),
    }
}

struct Bridge {
    program: Program,
    server: UnixStream,
    requests: BufReader<UnixStream>,
}

impl Bridge {
    fn new() -> Result<Bridge, Violation> {
        let mut b = Bridge::unread()?;
        b.program.read_on();
        Ok(b)
    }

    /// Its output is not read yet.
    fn unread() -> Result<Bridge, Violation> {
        std::fs::create_dir_all(real::sessions()).unwrap();
        let path = real::sessions().join("s");
        let _ = std::fs::remove_file(&path);
        let listener = UnixListener::bind(&path).unwrap();
        let mut c = real::command(real::ced());
        c.args(["--mode=json", "--session=s"]);
        let mut program = Program::start_unread(c);
        listener.set_nonblocking(true).unwrap();
        let t = Instant::now();
        let server = loop {
            match listener.accept() {
                Ok((s, _)) => break s,
                Err(_) => {
                    if let Some(st) = program.child.try_wait().unwrap() {
                        return fail(format!("the program ended ({})", st));
                    }
                    ensure!(t.elapsed() < PATIENCE, "the program does not connect to its session");
                    std::thread::sleep(std::time::Duration::from_micros(500));
                }
            }
        };
        server.set_nonblocking(false).unwrap();
        server.set_read_timeout(Some(PATIENCE)).unwrap();
        let requests = BufReader::new(server.try_clone().unwrap());
        Ok(Bridge { program, server, requests })
    }

    fn request(&mut self) -> Result<Value, Violation> {
        let mut l = vec![];
        match self.requests.read_until(b'\n', &mut l) {
            Ok(0) => fail("the program closed its connection"),
            Ok(_) => {
                ensure_eq!(l.last(), Some(&b'\n'), "end of a request line");
                message(&l)
            }
            Err(e) => fail(format!("no request reached the server: {}", e)),
        }
    }

    fn printed(&mut self) -> Result<Value, Violation> {
        match self.program.line()? {
            Some(l) => message(l.as_bytes()),
            None => fail("standard output ended"),
        }
    }

    /// The server goes: the messages are all there, and nothing else.
    fn end(mut self) -> Result<(), Violation> {
        let _ = self.server.shutdown(std::net::Shutdown::Both);
        let rest = self.program.line()?;
        ensure!(rest.is_none(), "more on standard output than the server sent: {:?}", rest);
        Ok(())
    }
}

fn last_request() -> Vec<u8> {
    br#"{"jsonrpc":"2.0","id":"last","method":"last","params":[]}"#.to_vec()
}

fn awaited(steps: &[Step], run: &mut Run) -> Result<(), Violation> {
    let mut b = Bridge::new()?;
    let last = [Step::In(last_request(), true)];
    for s in steps.iter().chain(&last) {
        run.step(s.show());
        match s {
            Step::In(l, is_request) => {
                let mut line = l.clone();
                line.push(b'\n');
                ensure!(b.program.write(&line).is_ok(), "standard input is closed");
                if *is_request {
                    ensure_eq!(b.request()?, message(l)?, "request at the server");
                }
            }
            Step::Out(l, is_message) => {
                let mut line = l.clone();
                line.push(b'\n');
                // a message may be larger than what the socket and the pipe hold
                let mut server = b.server.try_clone().unwrap();
                let t = std::thread::spawn(move || server.write_all(&line).is_ok());
                if *is_message {
                    ensure_eq!(b.printed()?, message(l)?, "message on standard output");
                }
                ensure!(t.join().unwrap(), "the program closed its connection");
            }
        }
    }
    ensure!(b.program.quiet(), "more on standard output than the server sent");
    b.end()
}

fn at_once(steps: &[Step], run: &mut Run) -> Result<(), Violation> {
    bridged(steps, false, run)
}

/// Both directions at once, then the end of input and of the server.
fn bridged(steps: &[Step], late: bool, run: &mut Run) -> Result<(), Violation> {
    let mut b = Bridge::unread()?;
    if !late {
        b.program.read_on();
    }
    let (mut input, mut output) = (vec![], vec![]);
    let (mut requests, mut messages) = (vec![], vec![]);
    let last = [Step::In(last_request(), true)];
    for s in steps.iter().chain(&last) {
        run.step(s.show());
        let (l, good, bytes, expected) = match s {
            Step::In(l, g) => (l, g, &mut input, &mut requests),
            Step::Out(l, g) => (l, g, &mut output, &mut messages),
        };
        bytes.extend_from_slice(l);
        bytes.push(b'\n');
        if *good {
            expected.push(message(l)?);
        }
    }
    run.note("all at once, then both ends close");
    let mut stdin = b.program.take_stdin();
    let writer = std::thread::spawn(move || stdin.write_all(&input));
    let mut server = b.server.try_clone().unwrap();
    let sender = std::thread::spawn(move || server.write_all(&output));
    for r in requests {
        ensure_eq!(b.request()?, r, "request at the server");
    }
    ensure!(writer.join().unwrap().is_ok(), "standard input is closed");
    if late {
        // the program is held up by what it has printed
        std::thread::sleep(std::time::Duration::from_millis(20));
        b.program.read_on();
    }
    ensure!(sender.join().unwrap().is_ok(), "the program closed its connection");
    // the server is gone before everything is printed
    let _ = b.server.shutdown(std::net::Shutdown::Write);
    for m in messages {
        ensure_eq!(b.printed()?, m, "message on standard output");
    }
    b.end()
}

/// Strings as they may be written in JSON.
const ESCAPES: [&str; 4] = [
    r"a\/b\\/c\\\\/",
    r"\u0000\u001b\b\f\n\r\t\u000b\u007f",
    "\u{feff}\u{2028}\u{85}\u{200d}é\u{301}\u{10ffff}",
    r#"\ud83d\ude00\u00E9\"'%7B\\n\\u00e9 "#,
];

fn bridge_steps() -> Vec<Step> {
    let big = "é".repeat(150_000);
    let mut v = vec![];
    for l in [
        json!({"jsonrpc": "2.0", "id": 1, "method": "view", "params": "a b\n\u{2028}\"é"}),
        json!({"jsonrpc": "2.0", "id": "x", "method": "quit"}),
        json!({"jsonrpc": "2.0", "id": 2, "method": "keys", "params": [{"key": {"Char": "é"}}, null, 1.5]}),
        json!({"jsonrpc": "2.0", "id": 3, "method": "exec", "params": big}),
    ] {
        v.push(Step::In(l.to_string().into_bytes(), true));
    }
    for l in ESCAPES {
        v.push(Step::In(format!(r#" {{"method":"{0}","jsonrpc":"2.0" , "id":"{0}","params":["{0}"]}} "#, l).into_bytes(), true));
    }
    for l in [&b"garbage"[..], b"", b"[1]", b"{\"jsonrpc\": \"2.0\"", b"\xff\xfe"] {
        v.push(Step::In(l.to_vec(), false));
    }
    for l in [
        json!({"jsonrpc": "2.0", "method": "echo", "params": [{"text": "é\n", "face": "Error"}]}),
        json!({"jsonrpc": "2.0", "id": 1, "result": null}),
        json!({"jsonrpc": "2.0", "id": null, "error": {"code": -32700, "message": "m\n", "data": {"a": [1]}}}),
        json!({"jsonrpc": "2.0", "id": "x", "result": {"a": [null, 1.5, "\u{2028}"]}}),
        json!({"jsonrpc": "2.0", "method": "view", "params": [{"buffer": big, "start": 1, "end": 1, "lenses": []}]}),
    ] {
        v.push(Step::Out(l.to_string().into_bytes(), true));
    }
    for l in ESCAPES {
        v.push(Step::Out(format!(r#"{{"method":"{0}","jsonrpc":"2.0","params":[{{"text":"{0}","{0}":1}}]}}"#, l).into_bytes(), true));
        v.push(Step::Out(format!(r#"  {{"result":{{"{0}":"{0}"}},"jsonrpc":"2.0","id":"{0}"}} "#, l).into_bytes(), true));
    }
    for l in [&b"garbage"[..], b"{}", b"\xff"] {
        v.push(Step::Out(l.to_vec(), false));
    }
    v
}

// ---- standalone mode

fn call(id: Value, method: &str, params: Value) -> Vec<u8> {
    json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string().into_bytes()
}

fn standalone_lines() -> Vec<Vec<u8>> {
    vec![
        call(json!(1), "edit", json!({"name": "f1", "scratch": false})),
        call(json!(2), "edit", json!({"name": "é", "scratch": true})),
        call(json!("k"), "keys", json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": "l"}}])),
        call(json!(4), "exec", json!("editor:message('a\\n' .. 'é')")),
        call(json!(5), "exec", json!("error('boom')")),
        call(json!(6), "menu", json!({"command": "open", "search": ""})),
        call(json!(7), "view", json!("f1")),
        call(json!(8), "view", json!("none")),
        call(json!(9), "view-delete", Value::Null),
        call(json!(10), "unknown", json!([1])),
        b"garbage".to_vec(),
        b"".to_vec(),
        b"a\xff\xfe".to_vec(),
        b"{\"jsonrpc\": \"2.0\", \"id\": 3}".to_vec(),
        call(json!("q"), "quit", Value::Null),
    ]
}

/// The working directory of the programs and of the editor they are compared with.
fn workplace() {
    let dir = scratch().join("work");
    if !dir.exists() {
        real::adopt_environment();
        std::fs::create_dir_all(dir.join("dir")).unwrap();
        std::fs::write(dir.join("f1"), "one\ntwo é\n").unwrap();
        std::fs::write(dir.join("f2"), "three").unwrap();
        std::fs::write(dir.join("bin"), b"\xff\xfe").unwrap();
        std::env::set_current_dir(&dir).unwrap();
    }
}

/// The editor says with which arguments it was started.
fn without_arguments(v: &mut Value, args: &str) {
    match v {
        Value::String(s) => *s = s.replace(args, "<arguments>"),
        Value::Array(a) => a.iter_mut().for_each(|v| without_arguments(v, args)),
        Value::Object(o) => o.values_mut().for_each(|v| without_arguments(v, args)),
        _ => {}
    }
}

struct Reference {
    /// per line: the response and the notifications that come with it
    answers: Vec<(Option<Value>, Vec<Value>)>,
    before: Vec<Value>,
    quit: bool,
}

fn reference(files: &[&str], lines: &[Vec<u8>]) -> Reference {
    let (tx, rx) = unbounded();
    let mut editor = Editor::new("", tx);
    let args = std::env::args().collect::<Vec<_>>().join(" ");
    let drain = || {
        let mut v = vec![];
        while let Ok(m) = rx.try_recv() {
            if m.should_notify(1) {
                let mut n = serde_json::from_str(&m.message.to_string()).unwrap();
                without_arguments(&mut n, &args);
                v.push(canonical(&n));
            }
        }
        v
    };
    editor.add_client(1);
    for f in files {
        let _ = editor.command_edit(1, &EditParams { name: f.to_string(), scratch: false });
    }
    let before = drain();
    let mut answers = vec![];
    for l in lines {
        // what is no text is no request
        let r = std::str::from_utf8(l)
            .ok()
            .and_then(|l| editor.handle(1, l).ok())
            .map(|r| canonical(&serde_json::from_str(&r.to_string()).unwrap()));
        answers.push((r, drain()));
        if !editor.removed_clients().is_empty() {
            return Reference { answers, before, quit: true };
        }
    }
    Reference { answers, before, quit: false }
}

fn is_response(v: &Value) -> bool {
    v.get("method").is_none()
}

fn standalone(files: &[&str], lines: &[Vec<u8>], await_each: bool, run: &mut Run) -> Result<(), Violation> {
    alone(files, lines, await_each, false, run)
}

fn alone(
    files: &[&str],
    lines: &[Vec<u8>],
    await_each: bool,
    late: bool,
    run: &mut Run,
) -> Result<(), Violation> {
    workplace();
    let expected = reference(files, lines);
    let mut c = real::command(real::ced());
    c.arg("--mode=standalone").args(files).current_dir(scratch().join("work"));
    run.note(format!("ced --mode=standalone {}", files.join(" ")));
    let mut p = Program::start_unread(c);
    if !late {
        p.read_on();
    }
    let program = real::ced();
    let args: Vec<&str> =
        [program.to_str().unwrap(), "--mode=standalone"].iter().chain(files).copied().collect();
    let args = args.join(" ");
    let read = |p: &mut Program| -> Result<Option<Value>, Violation> {
        Ok(match p.line()? {
            Some(l) => {
                let mut v = message(l.as_bytes())?;
                without_arguments(&mut v, &args);
                Some(v)
            }
            None => None,
        })
    };
    let mut notified: Vec<Value> = vec![];
    let mut all: Vec<Value> = expected.before.clone();
    if !await_each {
        let input: Vec<u8> = lines.iter().flat_map(|l| l.iter().copied().chain([b'\n'])).collect();
        // it may have quit before reading everything
        let mut stdin = p.take_stdin();
        std::thread::spawn(move || {
            let _ = stdin.write_all(&input);
        });
        if late {
            std::thread::sleep(std::time::Duration::from_millis(20));
            p.read_on();
        }
    }
    for (l, (response, notifications)) in lines.iter().zip(&expected.answers) {
        run.step(shown(l));
        if await_each {
            let mut line = l.clone();
            line.push(b'\n');
            ensure!(p.write(&line).is_ok(), "standard input is closed");
        }
        all.extend(notifications.iter().cloned());
        let mut got = None;
        if std::str::from_utf8(l).is_err() {
            continue;
        }
        let last = expected.quit && all.len() == expected.before.len() + expected.answers.iter().map(|a| a.1.len()).sum::<usize>();
        while got.is_none() || (await_each && !last && notified.len() < all.len()) {
            match read(&mut p)? {
                Some(v) if is_response(&v) => {
                    ensure!(got.is_none(), "second response {} to {}", v, shown(l));
                    got = Some(v);
                }
                Some(v) => notified.push(v),
                None => return fail(format!("the output ends while answering {}", shown(l))),
            }
        }
        ensure_eq!(got, *response, "response to {}", shown(l));
    }
    p.close();
    while let Some(v) = read(&mut p)? {
        ensure!(!is_response(&v), "response {} to nothing", v);
        notified.push(v);
    }
    ensure_eq!(notified, all, "notifications");
    let (status, errors) = p.finish()?;
    ensure!(status.success(), "the program ends with {}: {}", status, errors);
    Ok(())
}

/// Lines of a size for the bridge.
fn sized_steps(n: usize, kind: usize) -> Vec<Step> {
    text_steps(&["x", "é", "\n\"", "日本"][kind % 4].repeat(n), n)
}

/// Messages of all kinds with a text.
fn text_steps(x: &str, n: usize) -> Vec<Step> {
    let req = |id: Value, m: &str, p: Value| Step::In(call(id, m, p), true);
    let msg = |v: Value| Step::Out(v.to_string().into_bytes(), true);
    vec![
        req(json!(1), "exec", json!(x)),
        msg(json!({"jsonrpc": "2.0", "method": "echo", "params": [{"text": x, "face": "Default"}]})),
        Step::In(x.replace('\n', " ").into_bytes(), false),
        req(json!(x), "view", json!([])),
        msg(json!({"jsonrpc": "2.0", "id": x, "result": null})),
        Step::Out(x.replace('\n', " ").into_bytes(), false),
        req(json!(2), &format!("m{}", x), Value::Null),
        msg(json!({"jsonrpc": "2.0", "id": 1, "error": {"code": 1, "message": x, "data": x}})),
        msg(json!({"jsonrpc": "2.0", "id": 2, "result": vec![1; n]})),
        req(json!(3), "keys", json!(vec!["k"; n])),
    ]
}

/// Many messages of some kind in each direction.
fn many_steps(n: usize, kind: usize) -> Vec<Step> {
    (0..n)
        .flat_map(|k| {
            let pad = "p".repeat([0, 1, 40, 700][kind % 4] * (1 + k % 3));
            [
                Step::In(call(json!(k), "exec", json!(pad)), true),
                Step::Out(
                    json!({"jsonrpc": "2.0", "method": "echo", "params": [{"text": format!("{}{}", pad, k), "face": "Error"}]})
                        .to_string()
                        .into_bytes(),
                    true,
                ),
                Step::Out(json!({"jsonrpc": "2.0", "id": k, "result": pad}).to_string().into_bytes(), true),
            ]
        })
        .collect()
}

fn few_sizes(tier: Tier, below: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match tier {
        Tier::Quick => (0..8).collect(),
        Tier::Thorough => (0..300).collect(),
    };
    v.extend(crate::model::text::sizes(tier).into_iter().filter(|n| *n > 8 && *n < below));
    v
}

/// Lines of a size for the standalone mode.
fn sized_lines(n: usize, kind: usize) -> Vec<Vec<u8>> {
    let x = ["x", "é ", "\n\"", "日本"][kind % 4].repeat(n);
    vec![
        call(json!(1), "edit", json!({"name": format!("s{}", "s".repeat(n.min(4000))), "scratch": true})),
        call(json!(x), "exec", json!(format!("--{}", x.replace('\n', " ")))),
        x.replace('\n', " ").into_bytes(),
        call(json!(2), "exec", json!(format!("editor:scratch(1, 'b', string.rep('ab\\n', {}))", n.min(10_000)))),
        call(json!(3), "exec", json!(format!("error(string.rep('e', {}))", n))),
        call(json!(4), "exec", json!(format!("for i=1,{} do editor:message(1, 'm' .. i) end", n.min(2000)))),
        call(json!(5), "menu", json!({"command": "view_select", "search": x.chars().take(20_000).collect::<String>()})),
        call(json!("q"), "quit", Value::Null),
    ]
}

pub fn c19(tier: Tier) -> Check {
    let sizes = few_sizes(tier, 200_000);
    let mut few = few_sizes(tier, 10_000);
    few.extend([100_001, (1 << 20) + 7]);
    let counts: Vec<usize> = match tier {
        Tier::Quick => (0..40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600, 1100]).collect(),
        Tier::Thorough => (0..300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 5000]).collect(),
    };
    let counts2 = counts.clone();
    let sized = space("lines of all sizes through the bridge", (sizes.len() * 12) as u64, move |i, run| {
        let (n, kind) = (sizes[i as usize / 12], i as usize % 12);
        let mut steps = sized_steps(n, kind);
        if kind / 4 == 2 {
            // through a client which reads late
            bridged(&steps, true, run)
        } else if kind / 4 == 1 {
            steps.reverse();
            at_once(&steps, run)
        } else {
            awaited(&steps, run)
        }
    });
    let many = space("many messages through the bridge", (counts.len() * 8) as u64, move |i, run| {
        let (n, kind) = (counts[i as usize / 8], i as usize % 8);
        bridged(&many_steps(n, kind), kind >= 4, run)
    });
    let sized_alone = space("standalone lines of all sizes", (few.len() * 12) as u64, move |i, run| {
        let (n, kind) = (few[i as usize / 12], i as usize % 12);
        alone(&[], &sized_lines(n, kind), kind < 4, kind >= 8, run)
    });
    let many_alone = space("many standalone lines", (counts2.len() * 4) as u64, move |i, run| {
        let (n, kind) = (counts2[i as usize / 4].min(600), i as usize % 4);
        let mut lines = standalone_lines();
        lines.pop();
        let rotate = n % lines.len();
        lines.rotate_left(rotate);
        let mut lines: Vec<Vec<u8>> = lines.into_iter().cycle().take(n).collect();
        if kind % 2 == 0 {
            lines.push(call(json!("q"), "quit", Value::Null));
        }
        let files = ["f1", "f2", "none"].iter().copied().cycle().take(n.min(40)).collect::<Vec<_>>();
        alone(if kind == 3 { &files } else { &[] }, &lines, kind == 0, kind == 1, run)
    });
    let steps = bridge_steps();
    let n = steps.len();
    let d = tier.pick(2, 3);
    let bridge = space("messages through the bridge", seqs_upto(n, d) * 2, move |i, run| {
        let seq: Vec<Step> = decode_upto(i / 2, n, d).into_iter().map(|k| steps[k].clone()).collect();
        if i % 2 == 0 {
            awaited(&seq, run)
        } else {
            at_once(&seq, run)
        }
    });
    // texts of all kinds, a message with each
    let chars = crate::model::text::characters();
    let each = space("every character through the bridge and to the standalone mode", chars.len() as u64 * 3, move |i, run| {
        let c = chars[i as usize / 3].to_string();
        let texts: Vec<String> = ["c", "cc", "xc", "cx", "xcx"].iter().map(|p| p.replace('c', &c)).collect();
        if i % 3 == 2 {
            let mut lines = vec![];
            for t in &texts {
                lines.extend([
                    call(json!(1), "edit", json!({"name": t, "scratch": true})),
                    call(json!(t), "exec", json!(format!("editor:message(1, {})", crate::model::editor::lua_str(t)))),
                    call(json!(2), "view", json!(t)),
                    call(json!(3), &format!("m{}", t), json!([t])),
                ]);
            }
            lines.push(call(json!("q"), "quit", Value::Null));
            return alone(&[], &lines, true, false, run);
        }
        let mut steps: Vec<Step> = texts.iter().flat_map(|t| text_steps(t, 1)).collect();
        // not a message whatever the character
        steps.retain(|s| !matches!(s, Step::In(_, false) | Step::Out(_, false)));
        steps.extend([Step::In(format!("v{}", c.replace('\n', "")).into_bytes(), false), Step::Out(format!("v{}", c.replace('\n', "")).into_bytes(), false)]);
        steps.push(Step::In(call(json!(7), "last", json!([c])), true));
        if i % 3 == 0 {
            awaited(&steps, run)
        } else {
            at_once(&steps, run)
        }
    });
    // many messages of both sides in every order of directions
    let long = space("long exchanges", 1 << 7, move |i, run| {
        let steps = bridge_steps();
        let (ins, outs): (Vec<Step>, Vec<Step>) =
            steps.into_iter().partition(|s| matches!(s, Step::In(..)));
        let seq: Vec<Step> = (0..6)
            .flat_map(|b| {
                let from = if i >> b & 1 == 0 { &ins } else { &outs };
                (0..5).map(move |k| from[(b as usize * 5 + k) % from.len()].clone()).collect::<Vec<_>>()
            })
            .collect();
        if i >> 6 & 1 == 0 {
            awaited(&seq, run)
        } else {
            at_once(&seq, run)
        }
    });
    let lines = standalone_lines();
    let m = lines.len();
    let d = tier.pick(2, 3);
    let alone_space = space("standalone lines", seqs_upto(m, d) * 2, move |i, run| {
        let seq: Vec<Vec<u8>> = decode_upto(i / 2, m, d).into_iter().map(|k| lines[k].clone()).collect();
        standalone(&[], &seq, i % 2 == 0, run)
    });
    let files: Vec<Vec<&str>> = {
        let f = ["f1", "f2", "none", "dir", "bin"];
        (0..seqs_upto(5, 2)).map(|i| decode_upto(i, 5, 2).into_iter().map(|k| f[k]).collect()).collect()
    };
    let lines = standalone_lines();
    let k = files.len() as u64;
    let opened = space("standalone with files", k * (m as u64 + 1) * 2, move |i, run| {
        let (f, l) = (&files[((i / 2) % k) as usize], (i / 2 / k) as usize);
        let seq: Vec<Vec<u8>> = lines.get(l).cloned().into_iter().collect();
        standalone(f, &seq, i % 2 == 0, run)
    });
    Check::new("C19")
        .space(bridge)
        .space(each)
        .space(long)
        .space(alone_space)
        .space(opened)
        .space(sized)
        .space(many)
        .space(sized_alone)
        .space(many_alone)
        .assume("the end of JSON mode at the end of its input is not specified: it ends with its server")
        .assume("the answers of standalone mode are those of the editor itself, which C01 to C10 decide")
}

// ---- script mode

fn scripts() -> Vec<(&'static str, Option<&'static [u8]>)> {
    vec![
        ("a", Some(b"x = (x or '') .. 'a' print(x)")),
        ("b", Some(b"x = (x or '') .. 'b' print(x) editor:edit(1, 'a', false)")),
        ("empty", Some(b"")),
        ("boom", Some(b"print('before') error('boom!')")),
        ("syntax", Some(b"print('no' ((")),
        ("nobuffer", Some(b"print('before') editor:edit(1, 'none', false)")),
        ("missing", None),
        ("", None),
        ("undecodable", Some(b"print('\xff')")),
        ("-", Some(b"")),
    ]
}

/// What script mode prints, and which script stops it.
fn outcome(names: &[&str], stdin: &str) -> (Vec<String>, Option<String>) {
    let (mut x, mut out) = (String::new(), vec![]);
    let mut stdin = stdin.to_owned();
    for n in names {
        match *n {
            "a" | "b" => {
                x += n;
                out.push(x.clone());
            }
            "empty" => {}
            "-" => {
                if !std::mem::take(&mut stdin).is_empty() {
                    x += "i";
                    out.push(x.clone());
                }
            }
            "boom" | "nobuffer" => {
                out.push("before".into());
                return (out, Some(n.to_string()));
            }
            _ => return (out, Some(n.to_string())),
        }
    }
    (out, None)
}

/// Contents of scripts, what they print, and whether they go through.
const CONTENTS: &[(&[u8], &[&str], bool)] = &[
    (b"", &[], true),
    (b"\n\n\n", &[], true),
    (b"# print(1)", &[], false),
    (b"#!/usr/bin/ced\nprint(1)", &[], false),
    (b"\n#\nprint(1)", &[], false),
    (b"\xef\xbb\xbfprint(1)", &[], false),
    (b"\xffprint(1)", &[], false),
    (b"print(1)\nprint('\xff')", &[], false),
    (b"print(1)\r\nprint(2)\r\n", &["1", "2"], true),
    (b"-- print(0)\rprint(1)", &["1"], true),
    (b"--[[ print(0)\nprint(0) ]] print(1)", &["1"], true),
    (b"print(1) return 2", &["1"], true),
    (b"print(1) return error", &["1"], true),
    (b"print(1) return print(2)", &["1", "2"], true),
    (b"do print(1) return false end print(0)", &["1"], true),
    (b"return nil", &[], true),
    (b"=1", &[], false),
    (b"1", &[], false),
    (b"print(1)) print(2)", &[], false),
    (b"print(1) error()", &["1"], false),
    (b"print(1) error(nil)", &["1"], false),
    (b"print(1) error({})", &["1"], false),
    (b"print(1) error('')", &["1"], false),
    (b"print(1) pcall(error, 'x') print(2)", &["1", "2"], true),
    (b"print(1) assert(false)", &["1"], false),
    (b"print(#'\xc3\xa9\t  x', '\xc3\xa9\t  x')", &["6\té\t  x"], true),
    (b"print([[ a\n  b]])", &[" a", "  b"], true),
    (b"print(env.session .. '|' .. env.client)", &["|1"], true),
    (b"print('a'); ;; print('b')", &["a", "b"], true),
    (b"goto e print(0) ::e:: print(1)", &["1"], true),
    (b"print('%d %s {} \\'x\\' \"q\"')", &["%d %s {} 'x' \"q\""], true),
    (b"editor:nope()", &[], false),
    (b"print(1) editor:edit(1, '', false)", &["1"], false),
    (b"print(type(editor:get_context(1).view), print == nil)", &["table\tfalse"], true),
];

pub fn contents_of_scripts() -> impl Space {
    space("contents of scripts, from files and from standard input", CONTENTS.len() as u64 * 3, |i, run| {
        workplace();
        let dir = scratch().join("scripts3");
        std::fs::create_dir_all(&dir).unwrap();
        let ((content, printed, good), kind) = (CONTENTS[i as usize / 3], i as usize % 3);
        for (n, c) in [("first", &b"print('first')"[..]), ("it", content), ("last", b"print('last')")] {
            std::fs::write(dir.join(n), c).unwrap();
        }
        let names: &[&str] = match kind {
            0 => &["first", "it", "last"],
            1 => &["first", "-", "last"],
            _ => &["-"],
        };
        let mut c = real::command(real::ced());
        c.args(["--mode=script", "--"]).args(names).current_dir(&dir);
        run.step(format!("ced --mode=script {} with {}", names.join(" "), shown(content)));
        let mut p = Program::start(c);
        if kind > 0 {
            // it may have ended by then
            let _ = p.write(content);
        }
        p.close();
        let mut got = vec![];
        while let Some(l) = p.line()? {
            got.push(l);
        }
        let mut expected: Vec<&str> = printed.to_vec();
        if kind < 2 {
            expected.insert(0, "first");
            if good {
                expected.push("last");
            }
        }
        ensure_eq!(got, expected, "output of the scripts");
        let (status, errors) = p.finish()?;
        if good {
            ensure!(status.success(), "{}: {}", status, errors);
        } else {
            ensure_eq!(status.code(), Some(1), "exit status ({})", errors);
        }
        run.state(&i);
        Ok(())
    })
}

/// Many scripts, long ones, under all kinds of names; the last may fail.
pub fn many_scripts(tier: Tier) -> impl Space {
    let most = tier.pick(50, 200);
    space("many scripts, long scripts, odd names", most * 4 + ODD_SCRIPTS.len() as u64 * 2, move |i, run| {
        workplace();
        let dir = scratch().join("scripts2");
        std::fs::create_dir_all(&dir).unwrap();
        let mut names: Vec<String> = vec![];
        let mut expected: Vec<String> = vec![];
        let mut culprit = None;
        let add = |names: &mut Vec<String>, name: String, content: String| {
            std::fs::write(dir.join(&name), content).unwrap();
            names.push(name);
        };
        if i >= most * 4 {
            let (name, boom) = (ODD_SCRIPTS[(i - most * 4) as usize / 2], i % 2 == 1);
            add(&mut names, "first".into(), "x = 1 print('first')".into());
            add(&mut names, name.into(), format!("print('in', x) {}", if boom { "error('it')" } else { "" }));
            add(&mut names, "second".into(), "print('second')".into());
            expected.extend(["first".into(), "in\t1".into()]);
            if boom {
                culprit = Some(name.to_owned());
            } else {
                expected.push("second".into());
            }
        } else {
            let (n, kind) = (i as usize / 4, i as usize % 4);
            match kind {
                // as many scripts, in one editor, each of which sees what the one before did
                0 | 1 => {
                    for k in 0..n {
                        add(
                            &mut names,
                            format!("n{}", k),
                            format!(
                                "n = (n or 0) + 1 print('{} ' .. n) editor:scratch(1, 'b{}', 'text') \
                                 for b in pairs(editor:get_context(1).selections) do print(b) end",
                                k, k
                            ),
                        );
                        expected.push(format!("{} {}", k, k + 1));
                        expected.push(format!("b{}", k));
                    }
                    if kind == 1 {
                        add(&mut names, "bad".into(), "print('bad') editor:edit(1, 'none', false)".into());
                        add(&mut names, "never".into(), "print('never')".into());
                        expected.push("bad".into());
                        culprit = Some("bad".into());
                    }
                }
                // as many lines of one script, as long lines
                2 => {
                    let mut src = String::new();
                    for k in 0..n * 20 {
                        src += &format!("print({}) -- {}\n", k, "é".repeat(n));
                        expected.push(k.to_string());
                    }
                    add(&mut names, "long".into(), src + "error(string.rep('e', 70000))");
                    culprit = Some("long".into());
                }
                // the same one as often
                _ => {
                    add(&mut names, "same".into(), "n = (n or 0) + 1 print(n)".into());
                    names = vec!["same".into(); n];
                    expected.extend((1..=n).map(|k| k.to_string()));
                }
            }
        }
        let mut c = real::command(real::ced());
        c.args(["--mode=script", "--"]).args(&names).current_dir(&dir);
        run.step(format!("ced --mode=script {}", shown(names.join(" ").as_bytes())));
        let mut p = Program::start(c);
        p.close();
        let mut got = vec![];
        while let Some(l) = p.line()? {
            got.push(l);
        }
        ensure_eq!(got, expected, "output of the scripts");
        let (status, errors) = p.finish()?;
        match culprit {
            None => ensure!(status.success(), "{}: {}", status, errors),
            Some(name) => {
                ensure_eq!(status.code(), Some(1), "exit status ({})", errors);
                ensure!(errors.contains(&name), "no mention of {} in {:?}", name, errors);
            }
        }
        run.state(&(i, got.len()));
        Ok(())
    })
}

const ODD_SCRIPTS: [&str; 24] = [
    "s~", "s.lua~", "#s#", "s.bak", "s.LUA", "s.orig", "s.luac", "1", "~", "=s", "a b", "é", "日本.lua", "--x", "-x", "*", ".s", "x.txt", "{}", "'q'", "%s", "a\tb", "init", "nil",
];

pub fn script_mode(tier: Tier) -> impl Space {
    let all = scripts();
    let n = all.len();
    let d = tier.pick(3, 4);
    space("script mode", seqs_upto(n, d), move |i, run| {
        workplace();
        let dir = scratch().join("scripts");
        if !dir.exists() {
            std::fs::create_dir_all(&dir).unwrap();
            for (name, content) in scripts() {
                if let Some(c) = content {
                    std::fs::write(dir.join(name), c).unwrap();
                }
            }
        }
        let names: Vec<&str> = decode_upto(i, n, d).into_iter().map(|k| all[k].0).collect();
        let stdin = "x = (x or '') .. 'i' print(x)";
        let mut c = real::command(real::ced());
        c.args(["--mode=script", "--"]).args(&names).current_dir(&dir);
        run.step(format!("ced --mode=script {}", names.join(" ")));
        let mut p = Program::start(c);
        let _ = p.write(stdin.as_bytes());
        p.close();
        let (lines, culprit) = outcome(&names, stdin);
        let mut got = vec![];
        while let Some(l) = p.line()? {
            got.push(l);
        }
        ensure_eq!(got, lines, "output of the scripts");
        let (status, errors) = p.finish()?;
        match culprit {
            None => ensure!(status.success(), "{}: {}", status, errors),
            Some(name) => {
                ensure_eq!(status.code(), Some(1), "exit status ({})", errors);
                ensure!(errors.contains(&name), "no mention of {} in {:?}", name, errors);
            }
        }
        run.state(&got);
        Ok(())
    })
}
