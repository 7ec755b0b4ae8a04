//! C13 (messages), C14 (keys), C18 (recency map), C23 (short names): value grids and operation
//! sequences, exhaustively.

use std::collections::{HashMap, HashSet};
use std::path::PathBuf;

use ced::editor::{Buffer, BufferSource};
use ced::stackmap::StackMap;
use remote::jsonrpc::{ClientEvent, Error, Id, Notification, Request, Response};
use remote::protocol::notifications;
use remote::protocol::requests::{self, Request as _};
use remote::protocol::{Face, Key, KeyEvent, Text, TextFragment};
use serde_json::{json, Map, Value};

use crate::fw::*;
use crate::{ensure, ensure_eq};

type JNotification = Notification;
type JRequest = Request;

// ---- C13

const STRINGS: &[&str] = &["", "a", "é😀", "a\nb", "\"\\/", "\0\u{7f}", "\u{2028}\r", "{}", "null", "1"];

fn atoms(tier: Tier) -> Vec<Value> {
    let mut v = vec![
        json!(null),
        json!(true),
        json!(false),
        json!(0),
        json!(-1),
        json!(i64::MIN),
        json!(u64::MAX),
        json!(1.5),
        json!(1e300),
        json!(-0.1),
    ];
    v.extend(STRINGS[..tier.pick(7, 10)].iter().map(|s| json!(s)));
    v
}

/// All nested values up to a depth: lists and objects of up to two of the values below.
fn values(tier: Tier) -> Vec<Value> {
    let atoms = atoms(tier);
    let nest = |inner: &[Value]| {
        let mut v = vec![json!([]), json!({})];
        for a in inner {
            v.push(json!([a]));
            v.push(json!({ "k": a }));
            v.push(json!({ "": a }));
            v.push(json!({ "k\n\"é": a }));
        }
        for a in inner {
            for b in inner {
                v.push(json!([a, b]));
                v.push(json!({"method": a, "id": b}));
                v.push(json!({"result": a, "error": b}));
            }
        }
        v
    };
    let one = nest(&atoms);
    let few: Vec<Value> = one.iter().step_by(tier.pick(41, 13)).cloned().collect();
    let two = nest(&few);
    [atoms, one, two].concat()
}

fn ids() -> Vec<Id> {
    let mut v: Vec<Id> = [0, 1, -1, 42, i32::MAX, i32::MIN].iter().filter_map(|n| serde_json::from_value(json!(n)).ok()).collect();
    v.extend(STRINGS.iter().map(|s| Id::String(s.to_string())));
    v.push(Id::Null);
    v
}

fn id_value(id: &Id) -> Value {
    match id {
        Id::Number(n) => json!(n),
        Id::String(s) => json!(s),
        Id::Null => Value::Null,
    }
}

fn one_line(text: &str) -> Result<(), Violation> {
    ensure!(
        !text.contains('\n') && !text.contains('\r'),
        "the encoding {:?} takes several lines",
        text
    );
    Ok(())
}

/// Without the members that mean the same when null as when missing.
fn canonical(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        if o.get("params") == Some(&Value::Null) {
            o.remove("params");
        }
        if let Some(e) = o.get_mut("error").and_then(|e| e.as_object_mut()) {
            if e.get("data") == Some(&Value::Null) {
                e.remove("data");
            }
        }
    }
    v
}

fn json_of(text: &str) -> Result<Value, Violation> {
    match serde_json::from_str(text) {
        Ok(v) => Ok(v),
        Err(e) => fail(format!("the encoding {:?} is no JSON: {}", text, e)),
    }
}

macro_rules! parsed {
    ($t:ty, $text:expr) => {
        match $text.parse::<$t>() {
            Ok(v) => v,
            Err(e) => {
                return fail(format!("{} refuses {:?}: {}", stringify!($t), $text, e));
            }
        }
    };
}

/// The same message with its members in another order and blanks between them.
fn reordered(v: &Value) -> String {
    let o = v.as_object().unwrap();
    let members: Vec<String> = o
        .iter()
        .rev()
        .map(|(k, v)| format!(" {} :\t{} ", json!(k), v))
        .collect();
    format!(" {{{}}} ", members.join(","))
}

fn some(v: Value) -> Option<Value> {
    if v.is_null() {
        None
    } else {
        Some(v)
    }
}

fn check_request(id: &Id, method: &str, params: Option<Value>) -> Result<(), Violation> {
    let r = Request::new::<Value, _, _>(id.clone(), method, params.clone()).unwrap();
    let text = r.to_string();
    one_line(&text)?;
    let v = json_of(&text)?;
    let mut expected = json!({"jsonrpc": "2.0", "id": id_value(id), "method": method});
    if let Some(p) = &params {
        expected["params"] = p.clone();
    }
    ensure_eq!(v, expected, "encoding of a request");
    for form in [text.clone(), reordered(&v)] {
        let back = parsed!(Request, form);
        ensure_eq!(back.id, *id, "id of {:?}", form);
        ensure_eq!(back.method, method, "method of {:?}", form);
        let p: Option<Value> = match back.params::<Value>() {
            Ok(p) => p,
            Err(e) => return fail(format!("parameters of {:?}: {}", form, e)),
        };
        ensure_eq!(p.and_then(some), params.clone().and_then(some), "parameters of {:?}", form);
        ensure_eq!(canonical(&json_of(&back.to_string())?), canonical(&v), "encoding again");
    }
    Ok(())
}

fn check_notification(method: &str, params: Option<Value>) -> Result<(), Violation> {
    let n = Notification::new::<Value, _, _>(method, params.clone()).unwrap();
    let text = n.to_string();
    one_line(&text)?;
    let v = json_of(&text)?;
    for form in [text.clone(), reordered(&v)] {
        let back = parsed!(Notification, form);
        ensure_eq!(back.method, method, "method of {:?}", form);
        let p = back.params::<Value>().unwrap_or(Some(json!("refused")));
        ensure_eq!(p.and_then(some), params.clone().and_then(some), "parameters of {:?}", form);
        if params != Some(Value::Null) {
            ensure_eq!(back, n, "decoding {:?}", form);
        }
        let ev = parsed!(ClientEvent, form);
        ensure!(ev.is_notification() && !ev.is_response(), "{:?} is taken for a response", form);
        ensure_eq!(canonical(&json_of(&ev.to_string())?), canonical(&v), "event encoded again");
        one_line(&ev.to_string())?;
    }
    Ok(())
}

/// Reads the result of a response as everything it may be read as.
fn read_result(r: &Response) -> Result<Result<Value, Value>, Violation> {
    let how = |e: String| fail(format!("reading the result of {} crashed: {}", r, e));
    if let Err(e) = guarded(|| r.result::<Value>().is_ok()) {
        return how(e);
    }
    if let Err(e) = guarded(|| r.result::<()>().is_ok()) {
        return how(e);
    }
    if let Err(e) = guarded(|| r.result::<String>().is_ok()) {
        return how(e);
    }
    if let Err(e) = guarded(|| r.result::<Vec<i32>>().is_ok()) {
        return how(e);
    }
    if let Err(e) = guarded(|| r.result::<Option<Text>>().is_ok()) {
        return how(e);
    }
    match r.result::<Value>() {
        Ok(Ok(v)) => Ok(Ok(v)),
        Ok(Err(e)) => Ok(Err(json_of(&e.to_string())?)),
        Err(e) => fail(format!("the result of {} is unreadable: {}", r, e)),
    }
}

fn check_response(r: Response, id: &Id, expected: Result<Value, Value>) -> Result<(), Violation> {
    let text = r.to_string();
    one_line(&text)?;
    let v = json_of(&text)?;
    let mut whole = json!({"jsonrpc": "2.0", "id": id_value(id)});
    match &expected {
        Ok(v) => whole["result"] = v.clone(),
        Err(e) => whole["error"] = e.clone(),
    }
    ensure_eq!(canonical(&v), canonical(&whole), "encoding of a response");
    for form in [text.clone(), reordered(&v)] {
        let direct = parsed!(Response, form);
        let ev = parsed!(ClientEvent, form);
        ensure!(ev.is_response() && !ev.is_notification(), "{:?} is taken for a notification", form);
        one_line(&ev.to_string())?;
        ensure_eq!(canonical(&json_of(&ev.to_string())?), canonical(&v), "event encoded again");
        let through = match ev {
            ClientEvent::Response(r) => r,
            _ => unreachable!(),
        };
        for back in [&r, &direct, &through] {
            let _ = read_result(back)?;
            ensure_eq!(back.id, *id, "id of {:?}", form);
            let got = match back.result::<Value>() {
                Ok(Ok(v)) => Ok(v),
                Ok(Err(e)) => {
                    one_line(&e.to_string())?;
                    let data = e.data::<Value>().unwrap_or(Some(json!("refused")));
                    let v = json_of(&e.to_string())?;
                    ensure_eq!(data.and_then(some), some(v["data"].clone()), "error data of {:?}", form);
                    Err(v)
                }
                Err(e) => return fail(format!("result of {:?}: {}", form, e)),
            };
            let plain = |r: &Result<Value, Value>| match r {
                Ok(v) => json!({ "result": v }),
                Err(e) => canonical(&json!({ "error": e })),
            };
            ensure_eq!(plain(&got), plain(&expected), "result of {:?}", form);
            ensure_eq!(canonical(&json_of(&back.to_string())?), canonical(&v), "encoding again");
        }
    }
    Ok(())
}

fn error_json(code: i32, message: &str, data: Option<Value>) -> Value {
    let mut v = json!({"code": code, "message": message});
    if let Some(d) = data {
        v["data"] = d;
    }
    v
}

/// What a received line is, by the definition of the protocol.
#[derive(Debug, PartialEq)]
enum Class {
    Notification,
    Response,
    Refused,
}

fn classify(v: &Value) -> Class {
    let o = match v.as_object() {
        Some(o) => o,
        None => return Class::Refused,
    };
    if !o.get("jsonrpc").map_or(false, |j| j.is_string()) {
        return Class::Refused;
    }
    if o.get("method").map_or(false, |m| m.is_string()) {
        return Class::Notification;
    }
    let id_ok = match o.get("id") {
        Some(Value::Null) | Some(Value::String(_)) => true,
        Some(Value::Number(n)) => n.as_i64().map_or(false, |n| i32::try_from(n).is_ok()),
        _ => false,
    };
    let error_ok = match o.get("error") {
        None | Some(Value::Null) => true,
        Some(Value::Object(e)) => {
            e.get("code").and_then(|c| c.as_i64()).map_or(false, |c| i32::try_from(c).is_ok())
                && e.get("message").map_or(false, |m| m.is_string())
        }
        _ => false,
    };
    if id_ok && error_ok {
        Class::Response
    } else {
        Class::Refused
    }
}

fn check_received(line: &str, sure: bool) -> Result<(), Violation> {
    let ev = match guarded(|| line.parse::<ClientEvent>()) {
        Ok(ev) => ev,
        Err(e) => return fail(format!("receiving {:?} crashed: {}", line, e)),
    };
    if let Err(e) = guarded(|| (line.parse::<Request>().is_ok(), line.parse::<Response>().is_ok())) {
        return fail(format!("receiving {:?} crashed: {}", line, e));
    }
    let got = match &ev {
        Ok(ClientEvent::Notification(n)) => {
            if let Err(e) = guarded(|| {
                let _ = n.params::<Text>().is_ok();
                let _ = n.params::<notifications::ViewParams>().is_ok();
                let _ = n.params::<()>().is_ok();
            }) {
                return fail(format!("reading the parameters of {:?} crashed: {}", line, e));
            }
            Class::Notification
        }
        Ok(ClientEvent::Response(r)) => {
            let got = read_result(r)?;
            // an error is never taken for a success, whatever else there is
            if let Ok(v) = serde_json::from_str::<Value>(line) {
                let expected = if v["error"].is_null() { None } else { Some(&v["error"]["message"]) };
                ensure_eq!(got.as_ref().err().map(|e| &e["message"]), expected, "result of {:?}", line);
                if expected.is_none() {
                    ensure_eq!(got, Ok(v["result"].clone()), "result of {:?}", line);
                }
            }
            Class::Response
        }
        Err(_) => Class::Refused,
    };
    if sure {
        let expected = serde_json::from_str(line).map_or(Class::Refused, |v| classify(&v));
        ensure_eq!(got, expected, "{:?} is taken for", line);
    }
    Ok(())
}

fn texts() -> Vec<Text> {
    let faces = [Face::Default, Face::Error, Face::Match, Face::Prompt, Face::Selection];
    let mut out: Vec<Text> = vec![Text::from(vec![])];
    for f in &faces {
        for s in STRINGS {
            out.push(Text::from(vec![TextFragment { text: s.to_string(), face: f.clone() }]));
        }
        for g in &faces {
            out.push(Text::from(vec![
                TextFragment { text: "a\n".into(), face: f.clone() },
                TextFragment { text: "é\"".into(), face: g.clone() },
            ]));
        }
    }
    out
}

fn typed<T>(n: Notification, method: &str, params: Value, what: impl std::fmt::Debug) -> Result<(), Violation>
where
    T: serde::de::DeserializeOwned + serde::Serialize,
{
    let text = n.to_string();
    one_line(&text)?;
    let v = json_of(&text)?;
    ensure_eq!(v["method"], json!(method), "method of {:?}", what);
    ensure_eq!(v["params"], params, "encoded parameters of {:?}", what);
    match parsed!(ClientEvent, text) {
        ClientEvent::Notification(back) => {
            ensure_eq!(back, n, "decoding {:?}", text);
            let p = match back.params::<T>() {
                Ok(Some(p)) => p,
                other => {
                    return fail(format!("parameters of {:?}: {:?}", text, other.map(|o| o.is_some())))
                }
            };
            ensure_eq!(serde_json::to_value(&p).unwrap(), v["params"], "parameters of {:?}", what);
        }
        _ => return fail(format!("{:?} is not taken for a notification", text)),
    }
    Ok(())
}

/// A notification of each kind around one text.
fn check_typed(t: &Text, s: &str, n: usize) -> Result<(), Violation> {
    use notifications::*;
    let plain: String = t.iter().map(|f| f.text.as_str()).collect();
    let tj: Value = t.iter().map(|f| json!({"text": f.text, "face": format!("{:?}", f.face)})).collect();
    typed::<Text>(Echo::new(t.clone()), "echo", tj.clone(), t)?;
    let echo = parsed!(JNotification, Echo::new(t.clone()).to_string());
    ensure_eq!(echo.params::<Text>().ok(), Some(Some(t.clone())), "echoed text");
    let hint = || HintParams { text: vec![t.clone(); n] };
    typed::<HintParams>(Hint::new(hint()), "hint", json!({"text": vec![tj.clone(); n]}), t)?;
    let info = InfoParams { client: s.into(), session: plain.clone(), cwd: s.into() };
    typed::<InfoParams>(Info::new(info), "info", json!({"client": s, "session": plain, "cwd": s}), s)?;
    for description in [None, Some(s.to_owned())] {
        let menu = MenuParams {
            command: s.into(),
            title: plain.clone(),
            search: s.into(),
            entries: vec![
                MenuParamsEntry { value: s.into(), text: t.clone(), description: description.clone() };
                n
            ],
        };
        let entry = json!({"value": s, "text": tj, "description": description});
        let expected = json!({"command": s, "title": plain, "search": s, "entries": vec![entry; n]});
        typed::<MenuParams>(Menu::new(menu), "menu", expected, t)?;
    }
    let status: StatusParams =
        (0..n).map(|i| StatusParamsItem { index: i as isize - 1, text: t.clone() }).collect();
    let expected = (0..n).map(|i| json!({"index": i as isize - 1, "text": tj})).collect();
    typed::<StatusParams>(Status::new(status), "status", expected, t)?;
    let view: ViewParams = (0..n)
        .map(|i| ViewParamsItem {
            buffer: s.into(),
            start: i,
            end: usize::MAX - i,
            lenses: vec![ViewParamsLens { lines: vec![t.clone(); i + 1], first_line_num: i }; i],
        })
        .collect();
    let expected = (0..n)
        .map(|i| {
            let lens = json!({"first_line_num": i, "lines": vec![tj.clone(); i + 1]});
            json!({"buffer": s, "start": i, "end": usize::MAX - i, "lenses": vec![lens; i]})
        })
        .collect();
    typed::<ViewParams>(View::new(view), "view", expected, t)?;
    Ok(())
}

fn check_typed_requests(id: &Id, a: &str, b: &str) -> Result<(), Violation> {
    use requests::*;
    let same = |r: JRequest, method: &str, params: Value| -> Result<(), Violation> {
        let text = r.to_string();
        one_line(&text)?;
        let back = parsed!(JRequest, text);
        ensure_eq!(back.id, *id, "id of {:?}", text);
        ensure_eq!(back.method, method, "method of {:?}", text);
        ensure_eq!(
            back.params::<Value>().unwrap().unwrap_or(Value::Null),
            params,
            "parameters of {:?}",
            text
        );
        Ok(())
    };
    same(Quit::new_noarg(id.clone()), "quit", Value::Null)?;
    for scratch in [true, false] {
        let p = EditParams { name: a.into(), scratch };
        same(Edit::new(id.clone(), p), "edit", json!({"name": a, "scratch": scratch}))?;
    }
    same(View::new(id.clone(), a.to_owned()), "view", json!(a))?;
    same(ViewDelete::new_noarg(id.clone()), "view-delete", Value::Null)?;
    same(ViewAdd::new(id.clone(), a.to_owned()), "view-add", json!(a))?;
    same(ViewRemove::new(id.clone(), a.to_owned()), "view-remove", json!(a))?;
    let p = MenuParams { command: a.into(), search: b.into() };
    same(Menu::new(id.clone(), p), "menu", json!({"command": a, "search": b}))?;
    let p = MenuSelectParams { command: a.into(), choice: b.into() };
    same(MenuSelect::new(id.clone(), p), "menu-select", json!({"command": a, "choice": b}))?;
    same(Exec::new(id.clone(), a.to_owned()), "exec", json!(a))?;
    Ok(())
}

/// One message of every kind around one string and one value.
fn check_all_kinds(s: &str, v: &Value) -> Result<(), Violation> {
    let id = Id::String(s.to_owned());
    check_request(&id, s, Some(v.clone()))?;
    check_request(&Id::Number(-7), s, None)?;
    check_notification(s, Some(v.clone()))?;
    check_response(Response::new(id.clone(), Ok(v.clone())).unwrap(), &id, Ok(v.clone()))?;
    let e = Error::new::<Value, _>(-7, s.to_owned(), Some(v.clone())).unwrap();
    let expected = Err(error_json(-7, s, Some(v.clone())));
    check_response(Response::new::<Value>(id.clone(), Err(e)).unwrap(), &id, expected)?;
    let t = Text::from(vec![TextFragment { text: s.to_owned(), face: Face::Prompt }]);
    check_typed(&t, s, 2)?;
    check_typed_requests(&id, s, "x")
}

/// Values of one size: long strings and lists, wide objects, deep ones.
fn sized_value(n: usize, kind: usize) -> Value {
    match kind {
        0 => json!("x".repeat(n)),
        1 => json!("é\n\"\u{1}".repeat(n)),
        2 => Value::Array((0..n).map(|i| json!(i)).collect()),
        3 => Value::Object((0..n).map(|i| (format!("k{}", i), json!(i % 3 == 0))).collect()),
        _ => {
            let mut v = json!(n);
            for i in 0..n.min(100) {
                v = if i % 2 == kind % 2 { json!([v]) } else { json!({ "result": v }) };
            }
            v
        }
    }
}

pub fn c13(tier: Tier) -> Check {
    let sizes: Vec<usize> = (0..tier.pick(140, 600)).chain(crate::model::text::sizes(tier).into_iter().filter(|n| *n > 140)).collect();
    let nsizes = sizes.len() as u64;
    let vals = values(tier);
    let nv = vals.len() as u64;
    let v1 = vals.clone();
    let v2 = vals.clone();
    let v3 = vals.clone();
    let v4 = vals;

    // members left out, or of another kind
    let shapes: Vec<Value> = vec![
        json!({"jsonrpc": "2.0", "id": 1, "method": "m", "params": ["a"]}),
        json!({"jsonrpc": "2.0", "method": "m", "params": {"a": null}}),
        json!({"jsonrpc": "2.0", "method": "m"}),
        json!({"jsonrpc": "2.0", "id": "x", "result": null}),
        json!({"jsonrpc": "2.0", "id": 1, "result": [1, "é"]}),
        json!({"jsonrpc": "2.0", "id": null, "error": {"code": -1, "message": "m", "data": [1]}}),
        json!({"jsonrpc": "2.0", "id": 1, "result": 1, "error": {"code": 1, "message": ""}}),
        json!({"jsonrpc": "2.0", "id": 1, "result": null, "error": null}),
    ];
    let kinds: Vec<Value> = vec![
        json!(null),
        json!(true),
        json!(1),
        json!(5000000000u64),
        json!(1.5),
        json!("s"),
        json!([]),
        json!([1]),
        json!({}),
        json!({"code": 1}),
        json!({"code": 1, "message": "m"}),
        json!({"code": 1.5, "message": "m"}),
        json!({"code": 1, "message": 2, "data": 3}),
    ];
    let mut received: Vec<Value> = vec![];
    for s in &shapes {
        let o = s.as_object().unwrap();
        let names: Vec<String> = o.keys().cloned().collect();
        for mask in 0..(1u32 << names.len()) {
            let mut m: Map<String, Value> = o.clone();
            for (i, n) in names.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    m.remove(n);
                }
            }
            received.push(Value::Object(m.clone()));
            for n in ["jsonrpc", "id", "method", "params", "result", "error", "extra"] {
                for k in &kinds {
                    let mut m = m.clone();
                    m.insert(n.to_owned(), k.clone());
                    received.push(Value::Object(m));
                }
            }
        }
    }
    for k in &kinds {
        received.push(k.clone());
    }
    let received: Vec<String> = {
        let set: HashSet<String> = received.iter().map(|v| v.to_string()).collect();
        let mut v: Vec<String> = set.into_iter().collect();
        v.sort();
        v
    };
    let nr = received.len() as u64;

    let all_texts = texts();
    let nt = all_texts.len() as u64;
    let bytes: &[&[u8]] = &[b"{", b"}", b"\"", b":", b",", b"[", b"1", b"a", b"\xff", b" ", b"\\", b"null"];
    let depth = tier.pick(4, 6);

    Check::new("C13")
        .space(space("requests", nv, move |i, run| {
            let p = &v1[i as usize];
            run.step(format!("requests with {}", p));
            for id in ids() {
                check_request(&id, "m", Some(p.clone()))?;
            }
            for m in STRINGS {
                check_request(&Id::Number(1), m, Some(p.clone()))?;
                check_request(&Id::Null, m, None)?;
            }
            run.count("messages", 37);
            Ok(())
        }))
        .space(space("notifications", nv, move |i, run| {
            let p = &v2[i as usize];
            run.step(format!("notifications with {}", p));
            for m in STRINGS {
                check_notification(m, Some(p.clone()))?;
                check_notification(m, None)?;
            }
            run.count("messages", 20);
            Ok(())
        }))
        .space(space("responses", nv, move |i, run| {
            let v = &v3[i as usize];
            run.step(format!("responses with {}", v));
            for id in ids() {
                check_response(Response::new(id.clone(), Ok(v.clone())).unwrap(), &id, Ok(v.clone()))?;
                let r = Response::success(id.clone(), Some(v.clone())).unwrap();
                check_response(r, &id, Ok(v.clone()))?;
                let mut r = Response::invalid_request(id.clone(), "x");
                r.set_result(Ok(v.clone())).unwrap();
                check_response(r, &id, Ok(v.clone()))?;
                run.count("messages", 3);
            }
            Ok(())
        }))
        .space(space("errors", nv, move |i, run| {
            let v = &v4[i as usize];
            run.step(format!("errors with {}", v));
            for id in ids() {
                for (code, message) in [(0, ""), (-32603, "é\n\""), (i32::MIN, "m"), (i32::MAX, "\u{2028}")] {
                    for data in [None, Some(v.clone())] {
                        let e = Error::new::<Value, _>(code, message.to_owned(), data.clone()).unwrap();
                        let expected = Err(error_json(code, message, data));
                        let r = Response::new::<Value>(id.clone(), Err(e.clone())).unwrap();
                        check_response(r, &id, expected.clone())?;
                        let mut r = Response::new(id.clone(), Ok(1)).unwrap();
                        r.set_result::<Value>(Err(e)).unwrap();
                        check_response(r, &id, expected)?;
                        run.count("messages", 2);
                    }
                }
            }
            Ok(())
        }))
        .space(space("standard errors", STRINGS.len() as u64, move |i, run| {
            let s = STRINGS[i as usize];
            run.step(format!("standard errors about {:?}", s));
            for id in ids() {
                for (r, e, code) in [
                    (Response::invalid_request(id.clone(), s), Error::invalid_request(s), -32600),
                    (Response::method_not_found(id.clone(), s), Error::method_not_found(s), -32601),
                    (Response::invalid_params(id.clone(), s), Error::invalid_params(s), -32602),
                    (
                        Response::new::<()>(id.clone(), Err(Error::internal_error(s))).unwrap(),
                        Error::internal_error(s),
                        -32603,
                    ),
                ] {
                    let e = json_of(&e.to_string())?;
                    ensure_eq!(e["code"], json!(code), "code");
                    ensure_eq!(e["data"], json!(s), "data");
                    check_response(r, &id, Err(e))?;
                }
            }
            Ok(())
        }))
        .space(space("notifications of the protocol", nt, move |i, run| {
            let t = &all_texts[i as usize];
            run.step(format!("{:?}", t));
            for s in STRINGS {
                for n in 0..4 {
                    check_typed(t, s, n)?;
                }
            }
            run.count("messages", 7 * 40);
            Ok(())
        }))
        .space(space("requests of the protocol", (STRINGS.len() * STRINGS.len()) as u64, move |i, run| {
            let (a, b) = (STRINGS[i as usize / STRINGS.len()], STRINGS[i as usize % STRINGS.len()]);
            run.step(format!("{:?} {:?}", a, b));
            for id in ids() {
                check_typed_requests(&id, a, b)?;
            }
            run.count("messages", 10 * 17);
            Ok(())
        }))
        .space(space("messages of all sizes", nsizes * 6, move |i, run| {
            let (n, kind) = (sizes[i as usize / 6], i as usize % 6);
            run.note(format!("size {}, kind {}", n, kind));
            run.transitions += 1;
            let v = sized_value(n, kind);
            let s = match kind {
                0 => "x".repeat(n),
                1 => "é\n\"\u{1}".repeat(n),
                _ => "m".to_owned(),
            };
            check_all_kinds(&s, &v)?;
            if kind == 2 {
                // as many fragments, lines, entries, items and lenses
                let n = n.min(5000);
                let t = Text::from(
                    (0..n).map(|i| TextFragment { text: format!("{}", i), face: Face::Match }).collect::<Vec<_>>(),
                );
                check_typed(&t, "s", 1)?;
                if n <= 20 {
                    check_typed(&Text::from("a"), "s", n.min(20))?;
                }
            }
            Ok(())
        }))
        .space(space("every character", 0x110000 / 64, move |i, run| {
            let s: String = (0..64).filter_map(|k| char::from_u32(i as u32 * 64 + k)).collect();
            run.note(format!("characters U+{:04X}..", i * 64));
            run.transitions += 1;
            check_all_kinds(&s, &json!({ s.clone(): [s] }))
        }))
        .space(space("numbers", 65 * 8 + 600, move |i, run| {
            let mut ns: Vec<Value> = vec![];
            if i >= 65 * 8 {
                ns.push(json!(i as i64 - 65 * 8 - 300));
            } else {
                let (p, d) = (i / 8, (i % 8) as i128);
                for n in [(1i128 << p) + d - 4, -(1i128 << p) + d - 4] {
                    if let Ok(n) = i64::try_from(n) {
                        ns.push(json!(n));
                    }
                    if let Ok(n) = u64::try_from(n) {
                        ns.push(json!(n));
                    }
                }
            }
            run.transitions += 1;
            for v in &ns {
                run.note(format!("{}", v));
                check_all_kinds("m", v)?;
                check_received(&json!({"jsonrpc": "2.0", "id": v, "result": v}).to_string(), true)?;
                check_received(&json!({"jsonrpc": "2.0", "id": 1, "error": {"code": v, "message": ""}}).to_string(), true)?;
                if let Some(n) = v.as_i64().and_then(|n| i32::try_from(n).ok()) {
                    let id: Id = match serde_json::from_value(json!(n)) {
                        Ok(id) => id,
                        Err(e) => return fail(format!("{} is no identifier of a request: {}", n, e)),
                    };
                    check_request(&id, "m", Some(json!(n)))?;
                    check_response(Response::new(id.clone(), Ok(n)).unwrap(), &id, Ok(json!(n)))?;
                    let e = Error::new::<Value, _>(n, "e".to_owned(), None).unwrap();
                    check_response(Response::new::<Value>(id.clone(), Err(e)).unwrap(), &id, Err(error_json(n, "e", None)))?;
                }
            }
            Ok(())
        }))
        .space(space("received messages", nr, move |i, run| {
            let line = &received[i as usize];
            run.step(line.clone());
            check_received(line, true)?;
            let mut cut: Vec<usize> = line.char_indices().map(|(i, _)| i).collect();
            cut.remove(0);
            for c in cut {
                // nothing but a whole message is one
                check_received(&line[..c], line.starts_with('{'))?;
                check_received(&line[c..], false)?;
                run.count("messages", 2);
            }
            Ok(())
        }))
        .space(space("received bytes", seqs_upto(bytes.len(), depth), move |i, run| {
            let line: Vec<u8> =
                decode_upto(i, bytes.len(), depth).iter().flat_map(|k| bytes[*k].to_vec()).collect();
            let line = String::from_utf8_lossy(&line).into_owned();
            run.step(format!("{:?}", line));
            check_received(&line, true)
        }))
        .assume("a parameter or error data of null means the same as none (JSON-RPC 2.0 leaves them out)")
}

// ---- C14

fn named() -> Vec<(Key, &'static str)> {
    vec![
        (Key::Backspace, "bkspc"),
        (Key::Enter, "ret"),
        (Key::Escape, "esc"),
        (Key::Up, "up"),
        (Key::Down, "down"),
        (Key::Left, "left"),
        (Key::Right, "right"),
    ]
}

fn check_key(mods: u32, key: Key, text: &str, run: &mut Run) -> Result<(), Violation> {
    let ev = KeyEvent { ctrl: mods & 1 != 0, alt: mods & 2 != 0, shift: mods & 4 != 0, key };
    let mut expected = String::new();
    if ev.ctrl {
        expected += "c-";
    }
    if ev.alt {
        expected += "a-";
    }
    if ev.shift {
        expected += "s-";
    }
    expected += text;
    run.transitions += 1;
    let desc = ev.to_string();
    ensure_eq!(desc, expected, "description of {:?}", ev);
    match guarded(|| KeyEvent::from(desc.as_str())) {
        Ok(back) => ensure_eq!(back, ev, "event read from {:?}", desc),
        Err(e) => return fail(format!("reading {:?} crashed: {}", desc, e)),
    }
    let code = serde_json::to_string(&ev).unwrap();
    match serde_json::from_str::<KeyEvent>(&code) {
        Ok(back) => ensure_eq!(back, ev, "event decoded from {}", code),
        Err(e) => return fail(format!("decoding {}: {}", code, e)),
    }
    Ok(())
}

pub fn c14(tier: Tier) -> Check {
    let block = 256u32;
    let blocks = (0x110000 / block) as u64;
    Check::new("C14")
        .space(space("characters", blocks, move |i, run| {
            run.note(format!("characters U+{:04X}..", i as u32 * block));
            let mut seen: HashMap<String, char> = HashMap::new();
            for n in 0..block {
                let c = match char::from_u32(i as u32 * block + n) {
                    Some(c) => c,
                    None => continue,
                };
                if c.is_ascii_uppercase() {
                    // typed with shift
                    let ev = KeyEvent::from(c);
                    let low = c.to_ascii_lowercase();
                    let expected = KeyEvent { shift: true, key: Key::Char(low), ..Default::default() };
                    ensure_eq!(ev, expected, "event of {:?}", c);
                    ensure_eq!(ev.to_string(), format!("s-{}", low), "description of {:?}", c);
                    continue;
                }
                let ev = KeyEvent::from(c);
                let expected = KeyEvent { key: Key::Char(c), ..Default::default() };
                ensure_eq!(ev, expected, "event of {:?}", c);
                ensure_eq!(KeyEvent::from(Key::Char(c)), expected, "event of the key {:?}", c);
                let desc = Key::Char(c).to_string();
                ensure!(
                    seen.insert(desc.clone(), c).is_none(),
                    "{:?} and another key are both described as {:?}",
                    c,
                    desc
                );
                match desc.parse::<Key>() {
                    Ok(k) => ensure_eq!(k, Key::Char(c), "key read from {:?}", desc),
                    Err(_) => return fail(format!("key {:?} cannot be read from {:?}", c, desc)),
                }
                for mods in 0..8 {
                    check_key(mods, Key::Char(c), &c.to_string(), run)?;
                }
            }
            run.state(&i);
            Ok(())
        }))
        .space(space("named keys", 8, move |i, run| {
            for (key, text) in named() {
                run.note(format!("{} with modifiers {}", text, i));
                check_key(i as u32, key, text, run)?;
            }
            Ok(())
        }))
        .space(space("lists of keys", tier.pick(400, 8000), move |i, run| {
            // as sent in a request
            let all: Vec<Key> = named().into_iter().map(|(k, _)| k).chain("a-é ".chars().map(Key::Char)).collect();
            let n = all.len() * 8;
            let mut evs = vec![];
            let mut left = i as usize;
            for _ in 0..3 {
                let k = left % n;
                left /= n;
                let m = k % 8;
                evs.push(KeyEvent {
                    ctrl: m & 1 != 0,
                    alt: m & 2 != 0,
                    shift: m & 4 != 0,
                    key: serde_json::from_value(serde_json::to_value(&all[k / 8]).unwrap()).unwrap(),
                });
            }
            let text = serde_json::to_string(&evs).unwrap();
            run.step(text.clone());
            let req = requests::Keys::new(Id::Number(1), evs).to_string();
            let req = parsed!(Request, req);
            let back: Vec<KeyEvent> = match req.params() {
                Ok(Some(p)) => p,
                _ => return fail(format!("keys {} do not survive a request", text)),
            };
            ensure_eq!(serde_json::to_string(&back).unwrap(), text, "keys of a request");
            Ok(())
        }))
        .space(space("lists of keys of all lengths", tier.pick(300, 3000), move |i, run| {
            let all: Vec<Key> = named().into_iter().map(|(k, _)| k).chain("a-é 🦊".chars().map(Key::Char)).collect();
            let evs: Vec<KeyEvent> = (0..i as usize)
                .map(|k| KeyEvent {
                    ctrl: k & 1 != 0,
                    alt: k & 2 != 0,
                    shift: k & 4 != 0,
                    key: serde_json::from_value(serde_json::to_value(&all[k / 8 % all.len()]).unwrap()).unwrap(),
                })
                .collect();
            run.note(format!("{} keys", i));
            run.transitions += 1;
            let text = serde_json::to_string(&evs).unwrap();
            let req = requests::Keys::new(Id::Number(1), evs).to_string();
            let back: Vec<KeyEvent> = parsed!(Request, req)
                .params()
                .ok()
                .flatten()
                .unwrap_or_default();
            ensure_eq!(serde_json::to_string(&back).unwrap(), text, "keys of a request");
            Ok(())
        }))
        .assume("upper-case ASCII letters are not keys of their own: they are the lower-case key with shift")
}

// ---- C18

#[derive(Clone, Copy, Debug)]
enum MapOp {
    Insert(u8, u8),
    Remove(u8),
    Touch(u8),
}

fn map_ops(keys: u8) -> Vec<MapOp> {
    let mut v = vec![];
    for k in 0..keys {
        v.push(MapOp::Insert(k, 0));
        v.push(MapOp::Insert(k, 1));
        v.push(MapOp::Remove(k));
        v.push(MapOp::Touch(k));
    }
    v
}

/// Most recent first.
type ListModel = Vec<(u8, u8)>;

fn model_op(m: &mut ListModel, op: MapOp) -> (Option<u8>, bool) {
    let k = match op {
        MapOp::Insert(k, _) | MapOp::Remove(k) | MapOp::Touch(k) => k,
    };
    let at = m.iter().position(|e| e.0 == k);
    let old = at.map(|i| m.remove(i));
    match op {
        MapOp::Insert(k, v) => m.insert(0, (k, v)),
        MapOp::Touch(_) => match old {
            Some(e) => m.insert(0, e),
            None => return (None, false),
        },
        MapOp::Remove(_) => {}
    }
    (old.map(|e| e.1), true)
}

fn observe(sm: &StackMap<u8, u8>, m: &ListModel, keys: u8) -> Result<(), Violation> {
    ensure_eq!(sm.latest().copied(), m.first().map(|e| e.0), "latest key");
    ensure_eq!(sm.latest_value().copied(), m.first().map(|e| e.1), "latest value");
    ensure_eq!(sm.len(), m.len(), "number of keys");
    ensure_eq!(sm.is_empty(), m.is_empty(), "emptiness");
    for k in 0..keys {
        let v = m.iter().find(|e| e.0 == k).map(|e| e.1);
        ensure_eq!(sm.get(&k).copied(), v, "value of {}", k);
        ensure_eq!(sm.contains_key(&k), v.is_some(), "presence of {}", k);
    }
    let mut all: Vec<(u8, u8)> = sm.iter().map(|(k, v)| (*k, *v)).collect();
    let mut expected = m.clone();
    all.sort_unstable();
    expected.sort_unstable();
    ensure_eq!(all, expected, "entries");
    Ok(())
}

fn map_apply(sm: &mut StackMap<u8, u8>, m: &mut ListModel, op: MapOp) -> Result<(), Violation> {
    let (old, ok) = model_op(m, op);
    match op {
        MapOp::Insert(k, v) => ensure_eq!(sm.insert(k, v), old, "value replaced by {:?}", op),
        MapOp::Remove(k) => ensure_eq!(sm.remove(&k), old, "value removed by {:?}", op),
        MapOp::Touch(k) => ensure_eq!(sm.set_last(k).is_ok(), ok, "acceptance of {:?}", op),
    }
    Ok(())
}

pub fn c18(tier: Tier) -> Check {
    // closure of the model's states, each with a shortest history
    let keys = tier.pick(4, 5);
    let ops = map_ops(keys);
    let mut states: Vec<(ListModel, Vec<usize>)> = vec![(vec![], vec![])];
    let mut seen: HashSet<ListModel> = HashSet::new();
    seen.insert(vec![]);
    let mut at = 0;
    while at < states.len() {
        let (m, path) = states[at].clone();
        for (i, op) in ops.iter().enumerate() {
            let mut n = m.clone();
            model_op(&mut n, *op);
            if seen.insert(n.clone()) {
                let mut p = path.clone();
                p.push(i);
                states.push((n, p));
            }
        }
        at += 1;
    }
    let ns = states.len() as u64;
    let depth = tier.pick(5, 6);
    let few = map_ops(3);
    let nf = few.len();
    Check::new("C18")
        .space(space("every state and transition", ns, move |i, run| {
            let (state, path) = &states[i as usize];
            run.state(state);
            for extra in std::iter::once(None).chain(ops.iter().map(Some)) {
                let mut sm = StackMap::new();
                let mut m = vec![];
                run.trace.clear();
                for op in path.iter().map(|p| &ops[*p]).chain(extra) {
                    run.step(format!("{:?}", op));
                    map_apply(&mut sm, &mut m, *op)?;
                }
                observe(&sm, &m, keys)?;
                // the whole order shows when the latest keys go one by one
                while let Some(e) = m.first().copied() {
                    run.step(format!("{:?}", MapOp::Remove(e.0)));
                    map_apply(&mut sm, &mut m, MapOp::Remove(e.0))?;
                    observe(&sm, &m, keys)?;
                }
            }
            Ok(())
        }))
        .space(space("many keys", tier.pick(36, 100), move |i, run| many_keys(i as usize + 1, run)))
        .space(space("long histories", seqs(16, 3), move |i, run| long_histories(tier.pick(100, 2000), i, run)))
        .space(space("every sequence", seqs(nf, depth), move |i, run| {
            let mut sm = StackMap::new();
            let mut m = vec![];
            for k in decode_seq(i, nf, depth) {
                run.step(format!("{:?}", few[k]));
                map_apply(&mut sm, &mut m, few[k])?;
                observe(&sm, &m, 3)?;
            }
            run.state(&m);
            while let Some(e) = m.first().copied() {
                map_apply(&mut sm, &mut m, MapOp::Remove(e.0))?;
                observe(&sm, &m, 3)?;
            }
            Ok(())
        }))
}

/// Maps of `n` keys: everything done to each of them, then everything to each other, then all go.
fn many_keys(n: usize, run: &mut Run) -> Result<(), Violation> {
    let n8 = n as u8;
    let orders: [Vec<u8>; 3] = [
        (0..n8).collect(),
        (0..n8).rev().collect(),
        (0..n8).filter(|k| k % 2 == 0).chain((0..n8).filter(|k| k % 2 == 1)).collect(),
    ];
    let on = |k: u8| [MapOp::Insert(k, 1), MapOp::Touch(k), MapOp::Remove(k)];
    for (o, order) in orders.iter().enumerate() {
        for k in 0..n8 {
            for first in on(k) {
                // the other keys near this one and at the borders
                let mut js: Vec<u8> = vec![0, k.saturating_sub(1), k, k + 1, n8 / 2, n8 - 1];
                js.sort_unstable();
                js.dedup();
                for second in js.into_iter().flat_map(on).chain(std::iter::once(MapOp::Remove(n8))) {
                    run.trace.clear();
                    run.note(format!("{} keys in order {}, {:?}, {:?}", n, o, first, second));
                    let (mut sm, mut m) = (StackMap::new(), vec![]);
                    for k in order {
                        map_apply(&mut sm, &mut m, MapOp::Insert(*k, 0))?;
                    }
                    for op in [first, second] {
                        map_apply(&mut sm, &mut m, op)?;
                    }
                    run.transitions += 2;
                    observe(&sm, &m, n8)?;
                    while let Some(e) = m.first().copied() {
                        ensure_eq!(sm.latest().copied(), Some(e.0), "latest key");
                        map_apply(&mut sm, &mut m, MapOp::Remove(e.0))?;
                    }
                    observe(&sm, &m, n8)?;
                }
            }
        }
    }
    Ok(())
}

/// Every pattern of operations again and again.
fn long_histories(times: u32, i: u64, run: &mut Run) -> Result<(), Violation> {
    let ops = map_ops(4);
    let pattern: Vec<MapOp> = decode_seq(i, ops.len(), 3).iter().map(|k| ops[*k]).collect();
    let (mut sm, mut m) = (StackMap::new(), vec![]);
    for k in 0..4 {
        map_apply(&mut sm, &mut m, MapOp::Insert(k, 0))?;
    }
    run.note(format!("{:?} up to {} times", pattern, times));
    for _ in 0..times {
        for op in &pattern {
            map_apply(&mut sm, &mut m, *op)?;
            ensure_eq!(sm.latest().copied(), m.first().map(|e| e.0), "latest key");
            ensure_eq!(sm.len(), m.len(), "number of keys");
            run.transitions += 1;
        }
    }
    observe(&sm, &m, 4)?;
    while let Some(e) = m.first().copied() {
        map_apply(&mut sm, &mut m, MapOp::Remove(e.0))?;
        observe(&sm, &m, 4)?;
    }
    Ok(())
}

// ---- C23

fn parts(path: &str) -> Vec<&str> {
    path.split('/').filter(|p| !p.is_empty()).collect()
}

fn short_name(all: &[BufferSource], idx: usize) -> String {
    let path = match &all[idx] {
        BufferSource::Scratch(name) => return name.clone(),
        BufferSource::File(p) => p.to_str().unwrap(),
    };
    let mine = parts(path);
    let others: Vec<Vec<&str>> = all
        .iter()
        .filter_map(|s| match s {
            BufferSource::File(p) if p.to_str().unwrap() != path => Some(parts(p.to_str().unwrap())),
            _ => None,
        })
        .collect();
    for n in 1..=mine.len() {
        let tail = &mine[mine.len() - n..];
        if !others.iter().any(|o| o.ends_with(tail)) {
            return tail.join("/");
        }
    }
    path.to_owned()
}

fn check_names(sources: &[BufferSource], run: &mut Run) -> Result<(), Violation> {
    run.step(format!("{:?}", sources));
    let mut names: HashMap<String, &BufferSource> = HashMap::new();
    for (i, s) in sources.iter().enumerate() {
        let mut buffer = Buffer::new_scratch("x".into(), String::new());
        buffer.source = s.clone();
        let name = match guarded(|| buffer.shortest_name(sources)) {
            Ok(n) => n,
            Err(e) => return fail(format!("naming {:?} among {:?} crashed: {}", s, sources, e)),
        };
        ensure_eq!(name, short_name(sources, i), "name of {:?}", s);
        if matches!(s, BufferSource::File(_)) {
            if let Some(o) = names.insert(name.clone(), s) {
                ensure!(o == s, "{:?} and {:?} are both named {:?}", o, s, name);
            }
        }
    }
    Ok(())
}

pub fn c23(tier: Tier) -> Check {
    let comps: &[&str] = &["a", "b"];
    let mut abs: Vec<BufferSource> = vec![];
    for d in 1..=3u32 {
        for i in 0..seqs(comps.len(), d) {
            let p: Vec<&str> = decode_seq(i, comps.len(), d).iter().map(|k| comps[*k]).collect();
            abs.push(BufferSource::File(PathBuf::from(format!("/{}", p.join("/")))));
        }
    }
    let mut mixed: Vec<BufferSource> = vec![];
    let words: &[&str] = &["a", "é", "a b", "aa", "x.a"];
    for d in 1..=2u32 {
        for i in 0..seqs(words.len(), d) {
            let p: Vec<&str> = decode_seq(i, words.len(), d).iter().map(|k| words[*k]).collect();
            mixed.push(BufferSource::File(PathBuf::from(format!("/{}", p.join("/")))));
        }
    }
    mixed.push(BufferSource::Scratch("a".into()));
    mixed.push(BufferSource::Scratch("*s*".into()));
    mixed.push(BufferSource::Scratch(String::new()));
    let long = {
        let mut v = vec![];
        let d = tier.pick(4, 5);
        for i in 0..seqs(2, d) {
            let p: Vec<&str> = decode_seq(i, 2, d).iter().map(|k| comps[*k]).collect();
            v.push(BufferSource::File(PathBuf::from(format!("/{}", p.join("/")))));
            v.push(BufferSource::File(PathBuf::from(format!("/{}", p[1..].join("/")))));
        }
        v
    };
    let sets = |name: &str, all: Vec<BufferSource>, n: u32| {
        let len = seqs_upto(all.len(), n);
        space(name, len, move |i, run| {
            let sources: Vec<BufferSource> =
                decode_upto(i, all.len(), n).iter().map(|k| all[*k].clone()).collect();
            check_names(&sources, run)
        })
    };
    // every set of short paths, in two orders
    let every: Vec<BufferSource> = abs.clone();
    let ne = 1u64 << every.len();
    // paths of all depths which are the same but for one part
    let file = |p: &[&str]| BufferSource::File(PathBuf::from(format!("/{}", p.join("/"))));
    let deepest = tier.pick(40, 150);
    let families = move |n: usize, run: &mut Run| -> Result<(), Violation> {
        let base: Vec<String> = (0..n).map(|i| ["a", "b", "dir", "é"][i % 4].to_owned()).collect();
        let mut all = vec![];
        for at in 0..n {
            let mut p: Vec<&str> = base.iter().map(|s| s.as_str()).collect();
            all.push(file(&p));
            p[at] = "other";
            let changed = file(&p);
            check_names(&[all[0].clone(), changed.clone()], run)?;
            check_names(&[changed.clone(), file(&p[..n - 1 + (n == 1) as usize]), all[0].clone()], run)?;
            check_names(&[file(&p[at..]), changed.clone()], run)?;
            all.push(changed);
        }
        all.sort_by_key(|s| format!("{:?}", s));
        all.dedup();
        check_names(&all, run)?;
        all.reverse();
        check_names(&all, run)
    };
    let many = move |n: usize, run: &mut Run| -> Result<(), Violation> {
        let named: Vec<BufferSource> = (0..n).map(|i| file(&["d", &format!("{}", i), "f"])).collect();
        check_names(&named, run)?;
        let other: Vec<BufferSource> = (0..n).map(|i| file(&["d", "f", &format!("{}", i)])).collect();
        check_names(&other, run)?;
        let nested: Vec<BufferSource> = (0..n).map(|i| file(&vec!["d"; i + 1])).collect();
        check_names(&nested, run)?;
        let long = "x".repeat(n);
        check_names(&[file(&["a", &long]), file(&["b", &long]), file(&[&long]), file(&[&long[1..].replace('x', "xé")])][..3 + (n > 1) as usize], run)?;
        let mixed: Vec<BufferSource> = (0..n)
            .map(|i| match i % 3 {
                0 => BufferSource::Scratch(format!("*{}*", i)),
                1 => file(&["d", &format!("{}", i / 6), "f"]),
                _ => file(&["e", &format!("{}", i / 6), "f"]),
            })
            .collect();
        check_names(&mixed, run)
    };
    let odd: Vec<BufferSource> = ["f", "F", " f", "f ", ".f", "..f", "f.", "~", "\\f", "a\\f", "f:1", "*f*", "é", "e\u{301}", "f\n", "\u{feff}f", "日本"]
        .iter()
        .flat_map(|n| [file(&[n]), file(&["d", n]), file(&[n, "f"])])
        .collect();
    let chars: Vec<char> = crate::model::text::characters().into_iter().filter(|c| !"/\0".contains(*c)).collect();
    let every_char = space("every character", chars.len() as u64, move |i, run| {
        let c = chars[i as usize].to_string();
        for p in ["c", "cc", "xc", "cx", "xcx"] {
            let n = p.replace('c', &c);
            if n == "." || n == ".." {
                continue;
            }
            let files = [file(&[&n]), file(&["d", &n]), file(&[&n, "f"]), file(&["d", &n, "f"]), file(&["e", &n]), file(&["f"])];
            let s = BufferSource::Scratch(n.clone());
            for k in 0..64u32 {
                let mut set: Vec<BufferSource> = (0..6).filter(|j| k >> j & 1 == 1).map(|j| files[j].clone()).collect();
                check_names(&set, run)?;
                set.push(s.clone());
                set.reverse();
                check_names(&set, run)?;
            }
        }
        run.state(&i);
        Ok(())
    });
    Check::new("C23")
        .space(every_char)
        .space(sets("odd names", odd, tier.pick(2, 3)))
        .space(space("every set of short paths", ne, move |i, run| {
            let mut set: Vec<BufferSource> =
                every.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, s)| s.clone()).collect();
            check_names(&set, run)?;
            set.reverse();
            check_names(&set, run)
        }))
        .space(space("paths of all depths", deepest, move |i, run| families(i as usize + 1, run)))
        .space(space("many paths, and long names", tier.pick(120, 400), move |i, run| many(i as usize + 1, run)))
        .space(sets("absolute paths", abs, 4))
        .space(sets("paths and scratch buffers", mixed, tier.pick(3, 4)))
        .space(sets("deep paths", long, tier.pick(2, 3)))
        .assume("paths of open files are absolute and normalised, as opening a file makes them")
}
