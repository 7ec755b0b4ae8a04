//! Drives a real editor with the operations of the model and compares everything it answers,
//! notifies and holds with what the model says.

use std::collections::BTreeMap;
use std::fs;

use async_channel::Receiver;
use ced::editor::Editor;
use ced::server::BroadcastMessage;
use remote::jsonrpc::Request;
use serde_json::{json, Value};

use crate::fw::{fail, scratch, Run, Violation};
use crate::model::editor::*;
use crate::model::text::{lines, positions};
use crate::{ensure, ensure_eq};

/// What is compared.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Aspects(pub u32);

impl Aspects {
    /// responses
    pub const RESP: Aspects = Aspects(1);
    /// notifications other than views
    pub const NOTES: Aspects = Aspects(2);
    /// current views and selections
    pub const CONTEXTS: Aspects = Aspects(4);
    /// the last view notification is what asking again gives
    pub const REFRESH: Aspects = Aspects(8);
    /// the last view notification is what the model renders
    pub const RENDER: Aspects = Aspects(16);
    /// all views and buffers, and what each client selected in each
    pub const TOUR: Aspects = Aspects(32);
    pub const ALL: Aspects = Aspects(63);
    pub fn has(self, o: Aspects) -> bool {
        self.0 & o.0 != 0
    }
}

impl std::ops::BitOr for Aspects {
    type Output = Aspects;
    fn bitor(self, o: Aspects) -> Aspects {
        Aspects(self.0 | o.0)
    }
}

pub type Event = (Cid, String, Value);

pub struct Rig {
    pub editor: Editor,
    rx: Receiver<BroadcastMessage>,
    pub last_view: BTreeMap<Cid, Value>,
    next_id: i32,
}

fn write_disk(name: &str, d: &Disk) {
    let p = scratch().join(name);
    // a link itself, not what it leads to
    match fs::symlink_metadata(&p) {
        Ok(m) if m.is_dir() => {
            if *d != Disk::Dir {
                fs::remove_dir_all(&p).unwrap()
            }
        }
        // what stays a file keeps its identity
        Ok(m) if m.is_symlink() || !matches!(d, Disk::Text(_) | Disk::Undecodable) => fs::remove_file(&p).unwrap(),
        _ => {}
    }
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    match d {
        Disk::Text(t) => {
            fs::write(&p, t).unwrap();
            // all contents are of the same age, and older than the editor
            let f = fs::OpenOptions::new().append(true).open(&p).unwrap();
            f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)).unwrap();
        }
        Disk::Undecodable => fs::write(&p, b"a\xff\xfe\n").unwrap(),
        Disk::Dir => fs::create_dir_all(&p).unwrap(),
        Disk::Link(to) => std::os::unix::fs::symlink(scratch().join(to), &p).unwrap(),
        Disk::Missing => {}
    }
}

/// Brings the scratch directory to a state of the model.
pub fn reset_disk(disk: &BTreeMap<String, Disk>) {
    for e in fs::read_dir(scratch()).unwrap() {
        let e = e.unwrap();
        let name = e.file_name().into_string().unwrap();
        if !disk.contains_key(&name) {
            write_disk(&name, &Disk::Missing);
        }
    }
    for (n, d) in disk {
        write_disk(n, d);
    }
}

pub fn key_param(key: &str) -> Value {
    serde_json::to_value(remote::protocol::KeyEvent::from(key)).unwrap()
}

pub fn request(op: &Op) -> Option<(&'static str, Option<Value>)> {
    Some(match op {
        Op::Edit(_, n, s) => ("edit", Some(json!({"name": n, "scratch": s}))),
        Op::View(_, v) => ("view", Some(json!(v))),
        Op::ViewDelete(_) => ("view-delete", None),
        Op::ViewAdd(_, b) => ("view-add", Some(json!(b))),
        Op::ViewRemove(_, b) => ("view-remove", Some(json!(b))),
        Op::Menu(_, c, s) => ("menu", Some(json!({"command": c, "search": s}))),
        Op::Select(_, c, k) => ("menu-select", Some(json!({"command": c, "choice": k}))),
        Op::SelectExec(_, s) => {
            ("menu-select", Some(json!({"command": "exec", "choice": script(s)})))
        }
        Op::Keys(_, ks) => {
            ("keys", Some(Value::Array(ks.iter().map(|k| key_param(k)).collect())))
        }
        Op::Exec(_, s) => ("exec", Some(json!(script(s)))),
        Op::Quit(_) => ("quit", None),
        _ => return None,
    })
}

pub fn show(op: &Op) -> String {
    match (request(op), op.client()) {
        (Some((m, p)), Some(c)) => format!("client {}: {} {}", c, m, p.unwrap_or(Value::Null)),
        _ => format!("{:?}", op),
    }
}

/// Fragments with equal faces merged; `None` for an unexpected face.
pub fn flat(text: &Value, marked: &str) -> Option<Line> {
    let mut parts = Vec::new();
    for f in text.as_array()? {
        let face = f["face"].as_str()?;
        let m = if face == marked {
            true
        } else if face == "Default" {
            false
        } else {
            return None;
        };
        parts.push((f["text"].as_str()?.to_owned(), m));
    }
    Some(merged(parts))
}

pub fn plain(text: &Value) -> String {
    text.as_array()
        .map(|a| a.iter().map(|f| f["text"].as_str().unwrap_or("")).collect())
        .unwrap_or_default()
}

fn all_faces(text: &Value, face: &str) -> bool {
    text.as_array().map_or(false, |a| a.iter().all(|f| f["face"] == face))
}

fn check_note(note: &Note, method: &str, p: &Value) -> Result<(), String> {
    if note.method() != method {
        return Err(format!("expected a {} notification, {:?}", note.method(), note));
    }
    let no = |what: &str| Err(format!("{}, expected {:?}", what, note));
    match note {
        Note::Echo { text, error } => {
            if plain(p) != *text {
                return no("another text");
            }
            if all_faces(p, "Error") != *error {
                return no("another face");
            }
        }
        Note::Info(c) => {
            let cwd = std::env::current_dir().unwrap().display().to_string();
            if p["client"] != c.to_string() || p["session"] != SESSION || p["cwd"] != cwd {
                return no("another identity");
            }
        }
        Note::Status(items) => {
            let got: Vec<(i64, String)> = match p.as_array() {
                Some(a) => a
                    .iter()
                    .map(|i| (i["index"].as_i64().unwrap_or(-1), plain(&i["text"])))
                    .collect(),
                None => return no("no status"),
            };
            if got != *items {
                return no("another status");
            }
        }
        Note::Hint(mode) => {
            let lines: Vec<String> = match p["text"].as_array() {
                Some(a) => a.iter().map(plain).collect(),
                None => return no("no hint"),
            };
            let w = lines.first().map_or(0, |l| l.chars().count());
            if !lines.iter().all(|l| l.chars().count() == w) {
                return no("ragged hint");
            }
            let title = if *mode == Mode::MoveTo { "move to" } else { "extend to" };
            for want in [title, "h: line begin", "l: line end"] {
                if lines.iter().filter(|l| l.contains(want)).count() != 1 {
                    return no("hint without its lines");
                }
            }
            if lines.len() != 4 {
                return no("hint with other lines");
            }
        }
        Note::Lines(lines, framed) => {
            let got: Vec<String> = match p["text"].as_array() {
                Some(a) => a.iter().map(plain).collect(),
                None => return no("no hint"),
            };
            if got.len() != lines.len() + *framed as usize {
                return no("hint of another number of lines");
            }
            for (g, l) in got.iter().zip(lines) {
                if *framed && !g.contains(l.as_str()) || !*framed && g.trim_end() != l.trim_end() {
                    return no("another line in the hint");
                }
            }
        }
        Note::Menu { command, title, search, prompt, values } => {
            if p["command"] != **command || p["title"] != **title || p["search"] != **search {
                return no("another menu");
            }
            let entries = match p["entries"].as_array() {
                Some(a) => a,
                None => return no("no entries"),
            };
            let mut got = Vec::new();
            let mut order: Vec<(usize, usize)> = Vec::new();
            for e in entries {
                let value = e["value"].as_str().unwrap_or("?").to_owned();
                if !values.contains(&value) {
                    return no("an entry too many");
                }
                let label = label_of(command, &value);
                if plain(&e["text"]) != label {
                    return no("an altered label");
                }
                if *prompt {
                    if !all_faces(&e["text"], "Prompt") {
                        return no("a prompt that is none");
                    }
                } else {
                    let parts = match flat(&e["text"], "Match") {
                        Some(p) => p,
                        None => return no("a strange face"),
                    };
                    check_marks(search, &parts)?;
                    order.push(span(&parts));
                }
                got.push(value);
            }
            got.sort();
            if got != *values {
                return no("other entries");
            }
            if !search.trim().is_empty() && order.windows(2).any(|w| w[0].0 > w[1].0) {
                return no("tighter matches do not come first");
            }
        }
    }
    Ok(())
}

/// First to last marked byte.
pub fn span(parts: &Line) -> (usize, usize) {
    let mut off = 0;
    let mut first = None;
    let mut last = 0;
    for (t, m) in parts {
        if *m {
            first.get_or_insert(off);
            last = off + t.len();
        }
        off += t.len();
    }
    let first = first.unwrap_or(0);
    (last.saturating_sub(first), off)
}

/// The marked parts are the words of the search, in order (adjacent words may be merged).
pub fn check_marks(search: &str, parts: &Line) -> Result<(), String> {
    let marked: String =
        parts.iter().filter(|(_, m)| *m).map(|(t, _)| t.to_lowercase()).collect();
    let words: String = search.split_whitespace().map(|w| w.to_lowercase()).collect();
    if marked != words {
        return Err(format!("marked {:?} for the search {:?}", parts, search));
    }
    Ok(())
}

pub struct Applied {
    pub resp: Option<Value>,
    pub events: Vec<Event>,
    pub line: String,
}

impl Rig {
    pub fn new() -> Rig {
        let (tx, rx) = async_channel::unbounded();
        let editor = Editor::new(SESSION, tx);
        Rig { editor, rx, last_view: BTreeMap::new(), next_id: 0 }
    }

    /// What was sent to which of the live clients since the last time.
    pub fn drain(&mut self, live: &[Cid]) -> Vec<Event> {
        let mut events = Vec::new();
        while let Ok(bm) = self.rx.try_recv() {
            for &c in live {
                if bm.should_notify(c) {
                    let params: Value = bm.message.params().unwrap().unwrap_or(Value::Null);
                    let method = bm.message.method.clone();
                    if method == "view" {
                        self.last_view.insert(c, params.clone());
                    }
                    events.push((c, method, params));
                }
            }
        }
        events
    }

    /// `quits`: the clients it makes quit.
    pub fn perform(&mut self, op: &Op, live: &[Cid], quits: &[Cid]) -> Result<Applied, Violation> {
        let mut sent = String::new();
        let mut resp = None;
        match op {
            Op::Join(c) => self.editor.add_client(*c),
            Op::Leave(c) => self.editor.remove_client(*c),
            Op::Disk(n, d) => write_disk(n, d),
            _ => {
                self.next_id += 1;
                let c = op.client().unwrap();
                sent = match op {
                    Op::Malformed(_, line) => line.clone(),
                    Op::Unknown(_, m) => {
                        format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":{}}}", self.next_id, json!(m))
                    }
                    Op::NoParams(_, m) => {
                        json!({"jsonrpc": "2.0", "id": self.next_id, "method": m}).to_string()
                    }
                    Op::BadParams(_, m, p) => format!(
                        "{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"{}\",\"params\":{}}}",
                        self.next_id, m, p
                    ),
                    _ => {
                        let (m, p) = request(op).unwrap();
                        let mut v = json!({"jsonrpc": "2.0", "id": self.next_id, "method": m});
                        if let Some(p) = p {
                            v["params"] = p;
                        }
                        v.to_string()
                    }
                };
                match self.editor.handle(c, &sent) {
                    Ok(r) => {
                        let text = r.to_string();
                        match serde_json::from_str::<Value>(&text) {
                            Ok(v) => resp = Some(v),
                            Err(e) => return fail(format!("unreadable response {}: {}", text, e)),
                        }
                    }
                    Err(e) => return fail(format!("no response to {}: {}", sent, e)),
                }
            }
        }
        let gone = self.editor.removed_clients();
        if gone != quits {
            return fail(format!("{} lets the clients {:?} go, expected {:?}", show(op), gone, quits));
        }
        Ok(Applied { resp, events: self.drain(live), line: sent })
    }

    /// Applies an operation to the editor and to the model and compares what came back.
    pub fn apply(&mut self, m: &mut Model, op: &Op, asp: Aspects) -> Result<Applied, Violation> {
        // opaque texts are known only afterwards, and who lives then too
        let mut after = m.clone();
        after.apply(op, "");
        let live = after.ids();
        self.last_view.retain(|c, _| live.contains(c));
        let quits: Vec<Cid> = after.quitters.iter().filter(|q| !m.quitters.contains(q)).cloned().collect();
        let a = self.perform(op, &live, &quits)?;
        let opaque = match op {
            Op::Exec(..) | Op::SelectExec(..) => {
                let e = a.resp.as_ref().map(|r| r["error"]["data"].clone());
                e.and_then(|d| d.as_str().map(|s| s.to_owned())).unwrap_or_default()
            }
            Op::Malformed(_, line) => match line.parse::<Request>() {
                Err(e) => format!("{}: {}", e, line),
                Ok(_) => panic!("not malformed"),
            },
            Op::Unknown(..) => format!("unknown command: {}\n", a.line.parse::<Request>().unwrap()),
            _ => String::new(),
        };
        let out = m.apply(op, &opaque);
        if asp.has(Aspects::RESP) {
            self.check_resp(op, &out.resp, &a)?;
        }
        if asp.has(Aspects::NOTES) {
            for &c in &live {
                let want: Vec<&Note> =
                    out.notes.iter().filter(|(i, _)| *i == c).map(|(_, n)| n).collect();
                let got: Vec<&Event> =
                    a.events.iter().filter(|(i, me, _)| *i == c && me != "view").collect();
                for (n, (_, me, p)) in want.iter().zip(&got) {
                    if let Err(e) = check_note(n, me, p) {
                        return fail(format!(
                            "after {}, client {} was sent {} {}: {}",
                            show(op),
                            c,
                            me,
                            p,
                            e
                        ));
                    }
                }
                ensure!(
                    want.len() == got.len(),
                    "after {}, client {} was sent {:?}, expected {:?}",
                    show(op),
                    c,
                    got,
                    want
                );
            }
        }
        Ok(a)
    }

    fn check_resp(&self, op: &Op, want: &Resp, a: &Applied) -> Result<(), Violation> {
        let r = match (&a.resp, want) {
            (None, Resp::Nothing) => return Ok(()),
            (Some(r), _) => r,
            _ => return fail(format!("no response to {}", show(op))),
        };
        let id = match want {
            Resp::Refused(_, false) => Value::Null,
            _ => json!(self.next_id),
        };
        ensure!(r["id"] == id, "response to {} has another id: {}", show(op), r);
        ensure!(r["jsonrpc"] == "2.0", "response to {}: {}", show(op), r);
        let o = r.as_object().unwrap();
        let (has_result, has_error) = (o.contains_key("result"), o.contains_key("error"));
        ensure!(
            has_result != has_error,
            "response to {} is not either a result or an error: {}",
            show(op),
            r
        );
        match want {
            Resp::Done => ensure!(has_result, "{} was refused: {}", show(op), r),
            Resp::Refused(code, _) => {
                ensure!(has_error, "{} was carried out: {}", show(op), r);
                ensure!(
                    r["error"]["code"] == *code,
                    "{} was refused with {}, expected code {}",
                    show(op),
                    r,
                    code
                );
            }
            Resp::Nothing => {}
        }
        Ok(())
    }

    fn eval(&mut self, source: &str) -> Result<String, Violation> {
        let src = source.to_owned();
        self.editor
            .exec_lua("probe", 0, |lua| lua.load(&src).eval::<String>())
            .or_else(|e| fail(format!("probe failed: {}", e)))
    }

    /// View key and selections of clients: (view, buffer -> [(anchor, l, c, cursor, l, c, text)])
    pub fn contexts(&mut self, ids: &[Cid]) -> Result<Vec<(String, BTreeMap<String, Vec<Value>>)>, Violation> {
        let list = ids.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
        let out = self.eval(&format!(
            r#"local o = {{}}
local function num(n) o[#o+1] = tostring(n) o[#o+1] = ";" end
local function str(s) num(#s) o[#o+1] = s end
for _, id in ipairs({{{}}}) do
  local c = editor:get_context(id)
  str(c.view.key)
  local n = 0
  for _ in pairs(c.selections) do n = n + 1 end
  num(n)
  for b, sels in pairs(c.selections) do
    str(b)
    num(#sels)
    for _, s in ipairs(sels) do
      num(s.anchor.offset) num(s.anchor.pos.l) num(s.anchor.pos.c)
      num(s.cursor.offset) num(s.cursor.pos.l) num(s.cursor.pos.c)
      str(s.text)
    end
  end
end
return table.concat(o)"#,
            list
        ))?;
        let mut rest = out.as_bytes();
        fn num(rest: &mut &[u8]) -> usize {
            let i = rest.iter().position(|b| *b == b';').unwrap();
            let n = std::str::from_utf8(&rest[..i]).unwrap().parse().unwrap();
            *rest = &rest[i + 1..];
            n
        }
        fn st(rest: &mut &[u8]) -> String {
            let n = num(rest);
            let s = String::from_utf8_lossy(&rest[..n]).into_owned();
            *rest = &rest[n..];
            s
        }
        let mut all = Vec::new();
        for _ in ids {
            let key = st(&mut rest);
            let mut bufs = BTreeMap::new();
            for _ in 0..num(&mut rest) {
                let b = st(&mut rest);
                let mut sels = Vec::new();
                for _ in 0..num(&mut rest) {
                    let v: Vec<usize> = (0..6).map(|_| num(&mut rest)).collect();
                    sels.push(json!([v, st(&mut rest)]));
                }
                bufs.insert(b, sels);
            }
            all.push((key, bufs));
        }
        Ok(all)
    }

    pub fn check_contexts(&mut self, m: &Model) -> Result<(), Violation> {
        let ids = m.ids();
        let got = self.contexts(&ids)?;
        for (id, (key, bufs)) in ids.iter().zip(got) {
            let c = m.client(*id).unwrap();
            ensure_eq!(key, c.view, "view of client {}", id);
            let names: Vec<&String> = m.view(&c.view).unwrap().keys().collect();
            ensure!(
                bufs.keys().collect::<Vec<_>>() == names,
                "client {} has selections in {:?}, its view shows {:?}",
                id,
                bufs.keys(),
                names
            );
            for (b, sels) in bufs {
                ensure_eq!(sels.len(), 1, "selections of client {} in {}", id, b);
                let text = match &m.buffers[&b].text {
                    Some(t) => t,
                    None => continue,
                };
                let s = &c.sels[&c.view][&b];
                let ps = positions(text);
                let at = |o: usize| ps.iter().find(|p| p.offset == o).map(|p| (p.l, p.c)).unwrap();
                let (al, ac) = at(s.anchor);
                let (cl, cc) = at(s.cursor);
                let want =
                    json!([[s.anchor, al, ac, s.cursor, cl, cc], &text[covered(s, text)]]);
                ensure!(
                    sels[0] == want,
                    "selection of client {} in {} ({:?}) is {}, expected {} (anchor, line, column, cursor, line, column, text)",
                    id,
                    b,
                    text,
                    sels[0],
                    want
                );
            }
        }
        Ok(())
    }

    /// Compares a view notification with what the model renders.
    pub fn check_view(&self, m: &Model, id: Cid, key: &str, p: &Value) -> Result<(), Violation> {
        let view = m.view(key).unwrap();
        let items = match p.as_array() {
            Some(a) => a,
            None => return fail(format!("view of client {}: {}", id, p)),
        };
        let names: Vec<&str> = items.iter().map(|i| i["buffer"].as_str().unwrap_or("?")).collect();
        ensure!(
            names == view.keys().map(|s| s.as_str()).collect::<Vec<_>>(),
            "client {} sees {:?} of the view {}",
            id,
            names,
            key
        );
        for (item, (b, n)) in items.iter().zip(view) {
            ensure!(item["start"] == 1, "client {} sees {} from {}", id, b, item["start"]);
            let lenses = item["lenses"].as_array().cloned().unwrap_or_default();
            ensure_eq!(lenses.len(), *n, "times client {} sees {}", id, b);
            let text = match &m.buffers[b].text {
                Some(t) => t,
                None => continue,
            };
            ensure!(
                item["end"] == lines(text).len(),
                "client {} sees {} to {}, expected {}",
                id,
                b,
                item["end"],
                lines(text).len()
            );
            let sel = m.client(id).unwrap().sels.get(key).and_then(|s| s.get(b));
            let want = render(text, sel);
            for lens in &lenses {
                ensure!(lens["first_line_num"] == 1, "first line number of {}: {}", b, lens);
                let mut got = Vec::new();
                for l in lens["lines"].as_array().cloned().unwrap_or_default() {
                    match flat(&l, "Selection") {
                        Some(x) => got.push(x),
                        None => return fail(format!("line of {}: {}", b, l)),
                    }
                }
                ensure!(
                    got == want,
                    "client {} sees {} ({:?}) as {:?}, expected {:?} (highlighted or not)",
                    id,
                    b,
                    text,
                    got,
                    want
                );
            }
        }
        Ok(())
    }

    /// What every client was last sent, which needs no operation.
    pub fn check_views(&mut self, m: &Model) -> Result<(), Violation> {
        for c in m.ids() {
            let key = m.client(c).unwrap().view.clone();
            match self.last_view.get(&c).cloned() {
                Some(v) => self.check_view(m, c, &key, &v)?,
                None => return fail(format!("client {} was never sent its view", c)),
            }
        }
        Ok(())
    }

    /// Everything that can be compared without a further operation of the model.
    pub fn check_state(&mut self, m: &Model, asp: Aspects) -> Result<(), Violation> {
        let ids = m.ids();
        if asp.has(Aspects::RENDER) {
            self.check_views(m)?;
        }
        if asp.has(Aspects::CONTEXTS) {
            self.check_contexts(m)?;
        }
        if asp.has(Aspects::REFRESH) {
            self.drain(&ids);
            for &c in &ids {
                let before = match self.last_view.get(&c) {
                    Some(v) => v.clone(),
                    None => return fail(format!("client {} was never sent its view", c)),
                };
                let key = self.contexts(&[c])?[0].0.clone();
                if let Err(e) = self.editor.command_view(c, &key) {
                    return fail(format!("client {} cannot see its own view {}: {}", c, key, e));
                }
                let sent = self.drain(&ids);
                ensure!(
                    sent.iter().any(|(i, m, _)| *i == c && m == "view"),
                    "client {} asks for its view {} again and is not sent it",
                    c,
                    key
                );
                let now = &self.last_view[&c];
                ensure!(
                    before == *now,
                    "the last view client {} was sent is {}, asking again gives {}",
                    c,
                    before,
                    now
                );
            }
        }
        if asp.has(Aspects::TOUR) {
            self.tour(m)?;
        }
        Ok(())
    }

    fn menu_values(&mut self, c: Cid, command: &str, ids: &[Cid]) -> Result<Vec<String>, Violation> {
        let p = remote::protocol::requests::MenuParams { command: command.into(), search: "".into() };
        if let Err(e) = self.editor.command_menu(c, &p) {
            return fail(format!("menu {}: {}", command, e));
        }
        let ev = self.drain(ids);
        let mut v: Vec<String> = ev
            .iter()
            .filter(|(i, m, _)| *i == c && m == "menu")
            .flat_map(|(_, _, p)| p["entries"].as_array().cloned().unwrap_or_default())
            .map(|e| e["value"].as_str().unwrap_or("?").to_owned())
            .collect();
        v.sort();
        Ok(v)
    }

    /// Visits every view as every client and every buffer as one (changes the editor).
    pub fn tour(&mut self, m: &Model) -> Result<(), Violation> {
        let ids = m.ids();
        let c0 = match ids.first() {
            Some(c) => *c,
            None => return Ok(()),
        };
        self.drain(&ids);
        let buffers: Vec<String> = m.buffers.keys().cloned().collect();
        let got = self.menu_values(c0, "view_add", &ids)?;
        ensure_eq!(got, buffers, "existing buffers");
        let mut vs: Vec<String> = m.views.iter().map(|(k, _)| k.clone()).collect();
        vs.extend(buffers.iter().filter(|b| m.view(&view_key(&single(b))).is_none()).cloned());
        vs.sort();
        let got = self.menu_values(c0, "view_select", &ids)?;
        ensure_eq!(got, vs, "existing views and buffers without one");
        for &c in &ids {
            for (key, _) in &m.views {
                if let Err(e) = self.editor.command_view(c, key) {
                    return fail(format!("client {} cannot see the view {}: {}", c, key, e));
                }
                self.drain(&ids);
                let v = self.last_view[&c].clone();
                self.check_view(m, c, key, &v)?;
            }
        }
        for b in &buffers {
            let text = match &m.buffers[b].text {
                Some(t) => t,
                None => continue,
            };
            let key = view_key(&single(b));
            let id = if m.view(&key).is_some() { &key } else { b };
            let shadowed = buffers.iter().any(|o| view_key(&single(o)) == *b);
            if (m.view(b).is_some() || shadowed) && id == b {
                // a view has the very name of this buffer: it cannot be asked for
                continue;
            }
            if let Err(e) = self.editor.command_view(c0, id) {
                return fail(format!("client {} cannot see the buffer {}: {}", c0, b, e));
            }
            self.eval(&format!(
                "editor:move_to_begin({0}, false) editor:move_to_end({0}, true) return ''",
                c0
            ))?;
            let ctx = self.contexts(&[c0])?.remove(0);
            let sel = &ctx.1.get(b).map_or(Value::Null, |s| s[0].clone());
            // an unterminated last line ends with its last character
            ensure!(sel[1] == *text.as_str(), "text of {} is {}, expected {:?}", b, sel[1], text);
        }
        Ok(())
    }

    /// `editor:delete_selection` called for its result.
    pub fn delete_reporting(&mut self, m: &mut Model, c: Cid) -> Result<(), Violation> {
        let client = m.client(c).unwrap();
        let mut want = Vec::new();
        let mut opaque = 0;
        for (b, s) in &client.sels[&client.view] {
            match &m.buffers[b].text {
                Some(t) => want.push(t[covered(s, t)].to_owned()),
                None => opaque += 1,
            }
        }
        let out = self.eval(&format!(
            "local o = '' for _, t in ipairs(editor:delete_selection({})) do o = o .. #t .. ';' .. t end return o",
            c
        ))?;
        let mut rest = out.as_str();
        let mut got = Vec::new();
        while let Some((n, r)) = rest.split_once(';') {
            let n: usize = n.parse().unwrap();
            got.push(r[..n].to_owned());
            rest = &r[n..];
        }
        m.apply(&Op::Exec(c, vec![Stmt::Delete(c)]), "");
        let ids = m.ids();
        self.drain(&ids);
        ensure_eq!(got.len(), want.len() + opaque, "number of deleted texts ({:?})", got);
        want.sort();
        for w in &want {
            match got.iter().position(|g| g == w) {
                Some(i) => {
                    got.remove(i);
                }
                None => {
                    return fail(format!("deletion reports {:?}, expected {:?} among it", out, w))
                }
            }
        }
        Ok(())
    }
}

/// Runs operations from a fresh editor; everything is compared at the end, responses,
/// notifications and what the clients see (or else what they selected) after every step.
pub fn replay(
    disk: &[(&str, Disk)],
    ops: &[Op],
    asp: Aspects,
    run: &mut Run,
) -> Result<Option<(Rig, Model)>, Violation> {
    let mut m = Model::new(disk);
    reset_disk(&m.disk);
    let mut rig = Rig::new();
    rig.drain(&[]);
    for op in ops {
        if !m.enabled(op) {
            return Ok(None);
        }
        run.step(show(op));
        rig.apply(&mut m, op, asp)?;
        if asp.has(Aspects::RENDER) {
            rig.check_views(&m)?;
        } else if asp.has(Aspects::CONTEXTS) {
            rig.check_contexts(&m)?;
        }
        run.state(&m);
    }
    rig.check_state(&m, asp)?;
    Ok(Some((rig, m)))
}

