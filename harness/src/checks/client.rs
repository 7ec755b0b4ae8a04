//! C17: the client library, driven by a server of ours on a real socket, against a model of what
//! its user should read.

use std::future::Future;
use std::io::{Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use futures_lite::{future, Stream};
use remote::protocol::{Key, KeyEvent};
use remote::{Connection, ConnectionEvent, ConnectionMode, Session};
use serde_json::{json, Value};

use crate::fw::*;
use crate::{ensure, ensure_eq};

#[derive(Clone, Debug)]
pub enum Step {
    /// a line of the server
    Line(Vec<u8>),
    Next,
    Previous,
    Cancel,
    Select,
    Ask(&'static str),
}
use Step::*;

#[derive(Clone, Default)]
struct Model {
    client: String,
    session: String,
    echo: Value,
    status: Value,
    view: Value,
    menu: Value,
    next_id: i32,
}

fn text_ok(v: &Value) -> bool {
    v.as_array().map_or(false, |a| {
        a.iter().all(|f| {
            f["text"].is_string()
                && ["Default", "Error", "Match", "Prompt", "Selection"]
                    .iter()
                    .any(|face| f["face"] == *face)
        })
    })
}

fn each(v: &Value, f: impl Fn(&Value) -> bool) -> bool {
    v.as_array().map_or(false, |a| a.iter().all(f))
}

fn entry(v: &Value) -> Value {
    json!({"value": v["value"], "text": v["text"], "description": v["description"]})
}

impl Model {
    fn new() -> Model {
        Model { status: json!([]), view: json!([]), ..Default::default() }
    }

    fn state(&self) -> Value {
        json!({"client": self.client, "session": self.session, "echo": self.echo,
            "status": self.status, "view": self.view, "menu": self.menu})
    }

    /// What a line of the server is reported as.
    fn receive(&mut self, line: &[u8]) -> Value {
        let v: Value = match std::str::from_utf8(line).ok().and_then(|l| serde_json::from_str(l).ok()) {
            Some(v) => v,
            None => return json!("error"),
        };
        if !v["jsonrpc"].is_string() {
            return json!("error");
        }
        let method = match v["method"].as_str() {
            Some(m) => m,
            // responses are none of the state's business
            None => return json!(if v.get("id").is_some() { "noop" } else { "error" }),
        };
        let p = &v["params"];
        match method {
            "echo" if text_ok(p) => {
                self.echo = p.clone();
                json!({ "echo": p })
            }
            "hint" if each(&p["text"], text_ok) => json!({"hint": p["text"]}),
            "info" if p["client"].is_string() && p["session"].is_string() && p["cwd"].is_string() => {
                self.client = p["client"].as_str().unwrap().into();
                self.session = p["session"].as_str().unwrap().into();
                json!({"info": [self.client, self.session]})
            }
            "menu"
                if p["command"].is_string()
                    && p["title"].is_string()
                    && p["search"].is_string()
                    && each(&p["entries"], |e| e["value"].is_string() && text_ok(&e["text"])) =>
            {
                let entries: Vec<Value> = p["entries"].as_array().unwrap().iter().map(entry).collect();
                self.menu = json!({"command": p["command"], "title": p["title"],
                    "search": p["search"], "entries": entries, "selected": 0});
                self.echo = Value::Null;
                json!({ "menu": self.menu })
            }
            "status" if each(p, |i| i["index"].is_i64() && text_ok(&i["text"])) => {
                self.status = p.clone();
                json!({ "status": p })
            }
            "view"
                if each(p, |i| {
                    i["buffer"].is_string()
                        && i["start"].is_u64()
                        && i["end"].is_u64()
                        && each(&i["lenses"], |l| l["first_line_num"].is_u64() && each(&l["lines"], text_ok))
                }) =>
            {
                self.view = p.clone();
                json!({ "view": p })
            }
            _ => json!("noop"),
        }
    }

    fn request(&mut self, method: &str, params: Value) -> Value {
        let id = self.next_id;
        self.next_id += 1;
        json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params})
    }

    /// What an action writes on the wire.
    fn act(&mut self, step: &Step) -> Vec<Value> {
        let selected = self.menu["selected"].as_u64().unwrap_or(0) as usize;
        let entries = self.menu["entries"].as_array().cloned().unwrap_or_default();
        match step {
            Next if !self.menu.is_null() && selected + 1 < entries.len() => {
                self.menu["selected"] = json!(selected + 1);
                vec![]
            }
            Previous if !self.menu.is_null() && selected > 0 => {
                self.menu["selected"] = json!(selected - 1);
                vec![]
            }
            Cancel => {
                self.menu = Value::Null;
                vec![]
            }
            Select => match entries.get(selected) {
                Some(e) => {
                    // a prompt has an entry without value
                    let choice = if e["value"] == "" { &self.menu["search"] } else { &e["value"] };
                    let p = json!({"command": self.menu["command"], "choice": choice});
                    self.menu = Value::Null;
                    vec![self.request("menu-select", p)]
                }
                None => vec![],
            },
            Ask("quit") => vec![self.request("quit", Value::Null)],
            Ask("edit") => vec![self.request("edit", json!({"name": "é\n", "scratch": true}))],
            Ask("menu") => vec![self.request("menu", json!({"command": "open", "search": "a b"}))],
            Ask("keys") => vec![self.request(
                "keys",
                json!([{"ctrl": true, "alt": false, "shift": false, "key": {"Char": "x"}},
                       {"ctrl": false, "alt": false, "shift": false, "key": "Escape"}]),
            )],
            Ask("exec") => vec![self.request("exec", json!("a\n\"é"))],
            _ => vec![],
        }
    }
}

fn act(c: &mut Connection, step: &Step) {
    match step {
        Next => c.action_menu_select_next(),
        Previous => c.action_menu_select_previous(),
        Cancel => c.action_menu_cancel(),
        Select => c.menu_select(),
        Ask("quit") => c.quit(),
        Ask("edit") => c.edit("é\n".into(), true),
        Ask("menu") => c.menu("open", "a b"),
        Ask("keys") => c.keys(vec![
            KeyEvent { ctrl: true, key: Key::Char('x'), ..Default::default() },
            KeyEvent::from(Key::Escape),
        ]),
        Ask("exec") => c.exec("a\n\"é"),
        other => panic!("{:?}", other),
    }
}

fn to_value<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}

fn menu_value(m: &remote::Menu) -> Value {
    json!({"command": m.command, "title": m.title, "search": m.search,
        "entries": m.entries.iter().map(|e| entry(&to_value(e))).collect::<Vec<_>>(),
        "selected": m.selected})
}

fn state_value(c: &Connection) -> Value {
    let s = c.state();
    json!({"client": s.client, "session": s.session, "echo": to_value(&s.echo),
        "status": to_value(&s.status), "view": to_value(&s.view),
        "menu": s.menu.as_ref().map(menu_value)})
}

fn event_value(e: &ConnectionEvent) -> Value {
    match e {
        ConnectionEvent::ConnErr(_) => json!("error"),
        ConnectionEvent::Noop => json!("noop"),
        ConnectionEvent::Echo(t) => json!({"echo": to_value(t)}),
        ConnectionEvent::Hint(h) => json!({"hint": to_value(&h.text)}),
        ConnectionEvent::Info(c, s) => json!({"info": [c, s]}),
        ConnectionEvent::Menu(m) => json!({"menu": menu_value(m)}),
        ConnectionEvent::Status(s) => json!({"status": to_value(s)}),
        ConnectionEvent::View(v) => json!({"view": to_value(v)}),
    }
}

struct Link<'a> {
    server: UnixStream,
    connection: Connection,
    events: Pin<Box<dyn Stream<Item = ConnectionEvent> + 'a>>,
    requests: Pin<Box<dyn Future<Output = ()> + 'a>>,
    wire: Vec<u8>,
}

impl<'a> Link<'a> {
    fn new() -> Link<'a> {
        let path = scratch().join("server");
        let _ = std::fs::remove_file(&path);
        let listener = UnixListener::bind(&path).unwrap();
        let connection = Connection::new(Session { mode: ConnectionMode::Socket(path) });
        let (events, requests) = future::block_on(connection.connect()).expect("connect");
        let (server, _) = listener.accept().unwrap();
        server.set_nonblocking(true).unwrap();
        Link {
            server,
            connection,
            events: Box::pin(events),
            requests: Box::pin(requests),
            wire: vec![],
        }
    }

    /// The events there are, and whether the connection ended.
    fn events(&mut self) -> (Vec<ConnectionEvent>, bool) {
        let mut cx = Context::from_waker(Waker::noop());
        let mut out = vec![];
        loop {
            match self.events.as_mut().poll_next(&mut cx) {
                Poll::Ready(Some(e)) => out.push(e),
                Poll::Ready(None) => return (out, true),
                Poll::Pending => return (out, false),
            }
        }
    }

    /// What the server received since last asked.
    fn written(&mut self) -> Result<Vec<Value>, Violation> {
        let mut cx = Context::from_waker(Waker::noop());
        let mut buf = [0u8; 4096];
        // a socket holds only so much at once
        loop {
            ensure!(self.requests.as_mut().poll(&mut cx).is_pending(), "requests are not sent anymore");
            let before = self.wire.len();
            while let Ok(n) = self.server.read(&mut buf) {
                if n == 0 {
                    return fail("the connection was closed");
                }
                self.wire.extend_from_slice(&buf[..n]);
            }
            if self.wire.len() == before {
                break;
            }
        }
        let mut out = vec![];
        let wire = std::mem::take(&mut self.wire);
        for line in wire.split_inclusive(|b| *b == b'\n') {
            if !line.ends_with(b"\n") {
                self.wire = line.to_vec();
                break;
            }
            match serde_json::from_slice(line) {
                Ok(v) => out.push(v),
                Err(_) => return fail(format!("broken request {:?}", String::from_utf8_lossy(line))),
            }
        }
        ensure!(self.wire.is_empty(), "unfinished request {:?}", String::from_utf8_lossy(&self.wire));
        Ok(out)
    }
}

fn shown(s: &Step) -> String {
    match s {
        Line(l) => format!("<- {}", String::from_utf8_lossy(l)),
        s => format!("{:?}", s),
    }
}

fn drive(steps: &[Step], run: &mut Run) -> Result<(), Violation> {
    let mut link = Link::new();
    let mut m = Model::new();
    for s in steps {
        run.step(shown(s));
        match s {
            Line(l) => {
                let mut bytes = l.clone();
                bytes.push(b'\n');
                link.server.write_all(&bytes).unwrap();
                let expected = m.receive(l);
                let (got, ended) = link.events();
                let got: Vec<Value> = got.iter().map(event_value).collect();
                ensure_eq!(got, vec![expected], "events for {}", shown(s));
                ensure!(!ended, "the events end after {}", shown(s));
            }
            s => {
                let expected = m.act(s);
                act(&mut link.connection, s);
                ensure_eq!(link.written()?, expected, "requests sent for {}", shown(s));
            }
        }
        ensure_eq!(state_value(&link.connection), m.state(), "state after {}", shown(s));
        run.state(&m.state().to_string());
    }
    ensure_eq!(link.written()?, Vec::<Value>::new(), "requests sent for nothing");
    let (got, ended) = link.events();
    ensure!(got.is_empty() && !ended, "events without a message: {:?}", got);
    drop(link.server);
    Ok(())
}

fn text(s: &str, face: &str) -> Value {
    json!([{"text": s, "face": face}])
}

fn notif(method: &str, params: Value) -> Step {
    Line(json!({"jsonrpc": "2.0", "method": method, "params": params}).to_string().into_bytes())
}

fn menu(values: &[&str], search: &str) -> Step {
    let entries: Vec<Value> = values
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let mut e = json!({"value": v, "text": text(&format!("l{}", i), "Match"), "description": null});
            if i == 1 {
                e["description"] = json!("d");
            }
            e
        })
        .collect();
    notif("menu", json!({"command": "c", "title": "t", "search": search, "entries": entries}))
}

fn view(n: usize) -> Step {
    let items: Vec<Value> = (0..n)
        .map(|i| {
            json!({"buffer": format!("b{}", i), "start": 1, "end": i + 1,
                "lenses": [{"first_line_num": i, "lines": [text("é", "Selection"), []]}]})
        })
        .collect();
    notif("view", json!(items))
}

fn server_lines() -> Vec<Step> {
    let mut v = vec![
        notif("echo", text("hé\n", "Error")),
        notif("echo", json!([])),
        notif("hint", json!({"text": [text("a", "Default"), []]})),
        notif("info", json!({"client": "1", "session": "s", "cwd": "/"})),
        notif("info", json!({"client": "2@é", "session": "", "cwd": ""})),
        menu(&["v0", "v1", "v2"], "x"),
        menu(&[], "y"),
        menu(&[""], "typed"),
        notif("status", json!([{"index": -1, "text": text("s", "Default")}])),
        notif("status", json!([])),
        view(2),
        view(0),
    ];
    v.push(Line(br#"{"jsonrpc": "2.0", "id": 1, "result": null}"#.to_vec()));
    v
}

fn odd_lines() -> Vec<Step> {
    let mut v = vec![
        Line(br#"{"jsonrpc": "2.0", "id": 1, "error": {"code": -1, "message": "m"}}"#.to_vec()),
        Line(br#"{"jsonrpc": "2.0"}"#.to_vec()),
        Line(b"".to_vec()),
        Line(b"garbage".to_vec()),
        Line(b"\xff\xfe".to_vec()),
        Line(b"[1]".to_vec()),
        notif("unknown", json!([1])),
    ];
    for m in ["echo", "hint", "info", "menu", "status", "view"] {
        v.push(notif(m, Value::Null));
        v.push(notif(m, json!({"text": 1})));
        v.push(notif(m, json!([{"text": "a"}])));
        v.push(notif(m, json!("x")));
        v.push(Line(format!("{{\"jsonrpc\": \"2.0\", \"method\": \"{}\"}}", m).into_bytes()));
    }
    v
}

fn all_actions() -> Vec<Step> {
    vec![Next, Previous, Cancel, Select, Ask("quit"), Ask("edit"), Ask("menu"), Ask("keys"), Ask("exec")]
}

fn sequences(name: &str, alphabet: Vec<Step>, depth: u32) -> impl Space {
    let n = alphabet.len();
    space(name, seqs(n, depth), move |i, run| {
        let steps: Vec<Step> = decode_seq(i, n, depth).into_iter().map(|k| alphabet[k].clone()).collect();
        drive(&steps, run)
    })
}

/// Messages arriving in parts cut anywhere, or several at once.
fn parts(name: &str, step: u64) -> impl Space {
    let lines: Vec<Step> =
        vec![notif("echo", text("é😀", "Error")), Line(b"\xff".to_vec()), menu(&["a", ""], "ê"), view(1)];
    let mut bytes = vec![];
    for l in &lines {
        if let Line(l) = l {
            bytes.extend_from_slice(l);
            bytes.push(b'\n');
        }
    }
    let n = bytes.len() as u64;
    let cuts: Vec<(u64, u64)> = (0..=n)
        .flat_map(|a| (a..=n).map(move |b| (a, b)))
        .filter(|(a, b)| a == b || (a % step == 0 && b % step == 0))
        .collect();
    space(name, cuts.len() as u64, move |i, run| {
        let (a, b) = cuts[i as usize];
        let (a, b) = (a as usize, b as usize);
        let mut link = Link::new();
        let mut m = Model::new();
        let mut fed = 0;
        for part in [&bytes[..a], &bytes[a..b], &bytes[b..]] {
            run.step(format!("<- {:?}", String::from_utf8_lossy(part)));
            link.server.write_all(part).unwrap();
            let before = bytes[..fed].iter().filter(|b| **b == b'\n').count();
            fed += part.len();
            let after = bytes[..fed].iter().filter(|b| **b == b'\n').count();
            let expected: Vec<Value> = lines[before..after]
                .iter()
                .map(|l| match l {
                    Line(l) => m.receive(l),
                    _ => unreachable!(),
                })
                .collect();
            let (got, ended) = link.events();
            ensure_eq!(got.iter().map(event_value).collect::<Vec<_>>(), expected, "events");
            ensure!(!ended, "the events end");
            ensure_eq!(state_value(&link.connection), m.state(), "state");
            run.state(&(a, b, fed));
        }
        // the server is gone
        drop(std::mem::replace(&mut link.server, UnixStream::pair().unwrap().0));
        let (got, ended) = link.events();
        ensure!(got.is_empty() && ended, "after the end of the connection: {:?}, ended {}", got, ended);
        ensure_eq!(state_value(&link.connection), m.state(), "state after the end");
        Ok(())
    })
}

/// A menu of `n` entries of values and labels of some length, with a search.
fn long_menu(n: usize, len: usize) -> Step {
    let values: Vec<String> = (0..n).map(|i| format!("{}{}", "v".repeat(len), i)).collect();
    menu(&values.iter().map(|v| v.as_str()).collect::<Vec<_>>(), "x")
}

/// Menus of many entries: to each entry and back by some, then it is chosen.
fn many_entries(n: usize, k: usize, run: &mut Run) -> Result<(), Violation> {
    let mut steps = vec![long_menu(n, k % 3)];
    steps.extend(vec![Next; k]);
    steps.extend(vec![Previous; [0, 1, k / 2, k, k + 2][k % 5]]);
    steps.extend(vec![Next; [0, 2, n][n % 3]]);
    steps.extend([Select, Select, Next]);
    drive(&steps, run)
}

/// Messages of a size, in lines, fragments, entries, bytes.
fn of_size(n: usize, kind: usize) -> Vec<Step> {
    let long = "é\n\"".repeat(n / 3 + 1);
    let fragments = |n: usize| -> Value {
        json!((0..n).map(|i| json!({"text": format!("{}", i), "face": "Prompt"})).collect::<Vec<_>>())
    };
    let few = n.min(1500);
    match kind {
        0 => vec![notif("echo", text(&long, "Error"))],
        1 => vec![notif("echo", fragments(few))],
        2 => vec![notif("hint", json!({"text": vec![text("a", "Default"); few]})), notif("hint", json!({"text": [text(&long, "Match")]}))],
        3 => vec![notif("info", json!({"client": long, "session": long, "cwd": "/"}))],
        4 => vec![
            long_menu(few, 3),
            Next,
            notif("menu", json!({"command": long, "title": long, "search": long, "entries": [{"value": long, "text": text(&long, "Match"), "description": long}]})),
            Select,
        ],
        5 => vec![notif("status", json!((0..few).map(|i| json!({"index": i as i64 - 7, "text": fragments(i % 3)})).collect::<Vec<_>>()))],
        6 => vec![view(few), notif("view", json!([{"buffer": long, "start": n, "end": n, "lenses": [{"first_line_num": n, "lines": [text(&long, "Selection")]}]}]))],
        _ => vec![
            notif("view", json!([{"buffer": "b", "start": 1, "end": few, "lenses": [{"first_line_num": 1, "lines": vec![text("ab", "Default"); few]}]}])),
            Line("x".repeat(n).into_bytes()),
            Line(format!("{}{}{}", " ".repeat(n), r#"{"jsonrpc": "2.0", "method": "echo", "params": []}"#, " ".repeat(n)).into_bytes()),
            Line(format!(r#"{{"jsonrpc": "2.0", "id": 1, "result": "{}"}}"#, "r".repeat(n)).into_bytes()),
        ],
    }
}

/// Messages of all kinds with a text.
fn with_text(t: &str) -> Vec<Step> {
    let menu = |entries: Value| notif("menu", json!({"command": t, "title": t, "search": format!("{}?", t), "entries": entries}));
    let entry = json!({"value": t, "text": text(t, "Match"), "description": t});
    let parts = json!([{"text": t, "face": "Error"}, {"text": "x", "face": "Default"}, {"text": t, "face": "Prompt"}]);
    vec![
        notif("echo", text(t, "Default")),
        notif("echo", parts.clone()),
        notif("hint", json!({"text": [parts, [], text(t, "Match")]})),
        notif("info", json!({"client": t, "session": t, "cwd": t})),
        notif("status", json!([{"index": 1, "text": text(t, "Default")}])),
        notif("view", json!([{"buffer": t, "start": 1, "end": 2, "lenses": [{"first_line_num": 1, "lines": [text(t, "Selection"), []]}]}])),
        menu(json!([entry, {"value": "b", "text": [], "description": null}, entry])),
        Next,
        Next,
        Select,
        menu(json!([])),
        Select,
        menu(json!([entry])),
        Cancel,
    ]
}

/// Many messages at once, and many requests before they are sent.
fn at_once(n: usize, run: &mut Run) -> Result<(), Violation> {
    let mut link = Link::new();
    let mut m = Model::new();
    let lines: Vec<Step> = server_lines().into_iter().chain(odd_lines()).cycle().skip(n * 7).take(n).collect();
    let mut bytes = vec![];
    let mut expected = vec![];
    run.note(format!("{} messages at once", n));
    for l in &lines {
        if let Line(l) = l {
            bytes.extend_from_slice(l);
            bytes.push(b'\n');
            expected.push(m.receive(l));
        }
    }
    let mut got = vec![];
    let mut rest = &bytes[..];
    while !rest.is_empty() {
        // a socket holds only so much at once
        let written = link.server.write(rest).unwrap_or(0);
        rest = &rest[written..];
        let (events, ended) = link.events();
        ensure!(!ended, "the events end");
        ensure!(written > 0 || !events.is_empty(), "messages are not received anymore");
        got.extend(events.iter().map(event_value));
    }
    ensure_eq!(got, expected, "events");
    ensure_eq!(state_value(&link.connection), m.state(), "state");
    run.note(format!("{} requests at once", n));
    let asks = [Ask("edit"), Ask("menu"), Ask("keys"), Ask("exec"), Select];
    let mut expected = vec![];
    for k in 0..n {
        let s = &asks[k % asks.len()];
        expected.extend(m.act(s));
        act(&mut link.connection, s);
    }
    ensure_eq!(link.written()?, expected, "requests sent");
    run.state(&n);
    run.transitions += 2 * n as u64;
    Ok(())
}

const COMMANDS: [&str; 10] =
    ["", "open", "scratch", "exec", "view_select", "view_add", "view_remove", "view_delete", "quit", "other"];

pub fn c17(tier: Tier) -> Check {
    let around = crate::model::text::around();
    let most: Vec<Step> = server_lines()
        .into_iter()
        .chain(odd_lines().into_iter().step_by(4))
        .chain([menu(&["w"], "x"), Next, Previous, Cancel, Select, Ask("menu"), Ask("keys")])
        .collect();
    let nm = most.len();
    let times = tier.pick(20, 150);
    let mut sizes: Vec<usize> = (0..tier.pick(70, 300)).collect();
    sizes.extend(crate::model::text::sizes(tier).into_iter().filter(|n| (300..30_000).contains(n)));
    let entries = tier.pick(36, 120);
    let usual: Vec<Step> =
        server_lines().into_iter().chain([Next, Previous, Cancel, Select]).collect();
    let menus = vec![
        menu(&["v0", "v1", "v2"], "x"),
        menu(&["w"], "x"),
        menu(&[], "y"),
        menu(&["", "z"], "typed é"),
        Next,
        Previous,
        Cancel,
        Select,
    ];
    let everything: Vec<Step> =
        server_lines().into_iter().chain(odd_lines()).chain(all_actions()).collect();
    let lines: Vec<Step> = server_lines().into_iter().chain(odd_lines().into_iter().step_by(3)).collect();
    let nl = lines.len();
    let counts: Vec<usize> = (0..tier.pick(130, 400)).chain([255, 256, 257, 999, 1000, 1001, 1023, 1025, 4097]).collect();
    Check::new("C17")
        .space(sequences("messages and menu actions", usual, tier.pick(4, 5)))
        .space(sequences("menu actions", menus, tier.pick(6, 7)))
        .space(sequences("any messages and actions", everything, 3))
        .space(space("every pair of messages and actions, many times", (nm * nm) as u64, move |i, run| {
            let (a, b) = (&most[i as usize / nm], &most[i as usize % nm]);
            let steps: Vec<Step> = std::iter::once(menu(&["v0", "v1", "v2", "v3", "v4"], "x"))
                .chain((0..times).flat_map(|_| [a.clone(), b.clone()]))
                .collect();
            drive(&steps, run)
        }))
        .space(space("menus of every command while messages come", (COMMANDS.len() * nl * nl) as u64, move |i, run| {
            let (c, k) = (i as usize / nl / nl, i as usize % (nl * nl));
            let entry = |v: &str| json!({"value": v, "text": text(v, "Match"), "description": null});
            let m = notif(
                "menu",
                json!({"command": COMMANDS[c], "title": COMMANDS[(c + 1) % COMMANDS.len()], "search": "typed",
                    "entries": if c % 2 == 0 { vec![entry("a"), entry("view_select"), entry("")] } else { vec![entry("")] }}),
            );
            drive(&[m, lines[k / nl].clone(), Next, lines[k % nl].clone(), Select, Select], run)
        }))
        .space(space("menus of many entries", entries * entries, move |i, run| {
            many_entries((i / entries) as usize, (i % entries) as usize, run)
        }))
        .space(space("messages of all sizes", (sizes.len() * 8) as u64, move |i, run| {
            drive(&of_size(sizes[i as usize / 8], i as usize % 8), run)
        }))
        .space(space("every character", around.len() as u64, move |i, run| drive(&with_text(&around[i as usize]), run)))
        .space(space("many messages and requests at once", counts.len() as u64, move |i, run| at_once(counts[i as usize], run)))
        .space(parts("messages in parts", tier.pick(7, 1)))
}
