//! Reference model of the editor: what every request does to buffers, views, selections, modes
//! and menus, and what every client is told.  It shares no code with the implementation.

use std::collections::BTreeMap;

use super::text::{graphemes, lines, positions};

pub type Cid = usize;
pub const DEBUG: &str = "*debug*";
pub const SCRATCH: &str = "*scratch*";
pub const SESSION: &str = "ses";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sel {
    pub anchor: usize,
    pub cursor: usize,
    pub target: usize,
}

impl Sel {
    pub fn new() -> Sel {
        Sel { anchor: 0, cursor: 0, target: 1 }
    }
    pub fn begin(&self) -> usize {
        self.anchor.min(self.cursor)
    }
    pub fn end(&self) -> usize {
        self.anchor.max(self.cursor)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Buf {
    /// None: the debug log, whose text is not modelled
    pub text: Option<String>,
    /// text on disk when last read; None for scratch buffers
    pub synced: Option<String>,
}

/// What is on disk under a name.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Disk {
    Text(String),
    Dir,
    Undecodable,
    /// a symbolic link to another name
    Link(String),
    Missing,
}

/// Buffer names with the number of times they are shown.
pub type View = BTreeMap<String, usize>;

pub fn single(buffer: &str) -> View {
    let mut v = View::new();
    v.insert(buffer.to_owned(), 1);
    v
}

pub fn view_key(v: &View) -> String {
    let escaped = |b: &str| b.replace('\\', "\\\\").replace('{', "\\{");
    v.iter()
        .map(|(b, n)| format!("{}{{{}}}", escaped(b), vec!["*"; *n].join(",")))
        .collect::<Vec<_>>()
        .join("|")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Normal,
    Insertion,
    MoveTo,
    ExtendTo,
}

impl Mode {
    pub fn name(self) -> &'static str {
        match self {
            Mode::Normal => "N",
            Mode::Insertion => "I",
            Mode::MoveTo => "g",
            Mode::ExtendTo => "G",
        }
    }
}

/// States that differ only in the last key shown are merged (the hash leaves it out).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Client {
    pub id: Cid,
    pub view: String,
    pub sels: BTreeMap<String, BTreeMap<String, Sel>>,
    pub modes: Vec<Mode>,
    /// the last key that did something, and the mode after it
    pub shown: Option<(String, Mode)>,
    /// what scripts put in its status line: a name, and its place and text
    pub items: BTreeMap<String, (i64, String)>,
}

impl std::hash::Hash for Client {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (&self.id, &self.view, &self.sels, &self.modes, &self.items).hash(h);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mv {
    Left,
    Right,
    Up,
    Down,
    LineBegin,
    LineEnd,
    Begin,
    End,
}

pub const MOVES: [Mv; 8] =
    [Mv::Left, Mv::Right, Mv::Up, Mv::Down, Mv::LineBegin, Mv::LineEnd, Mv::Begin, Mv::End];

impl Mv {
    pub fn lua(self) -> &'static str {
        match self {
            Mv::Left => "move_left",
            Mv::Right => "move_right",
            Mv::Up => "move_up",
            Mv::Down => "move_down",
            Mv::LineBegin => "move_to_line_begin",
            Mv::LineEnd => "move_to_line_end",
            Mv::Begin => "move_to_begin",
            Mv::End => "move_to_end",
        }
    }
}

/// One statement of a script; the target client need not be the one running it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Stmt {
    Message(Cid, String),
    Error(Cid, String),
    Move(Cid, Mv, bool),
    Delete(Cid),
    Edit(Cid, String, Option<bool>),
    Scratch(Cid, String, Option<String>),
    Append(String, String),
    Context(Cid),
    Debug(String),
    Fail,
    Syntax,
    /// shows the status line
    Status(Cid),
    /// puts an item in the status line
    Item(Cid, String, i64, String),
    /// lines, and whether they are framed
    Hint(Cid, Vec<String>, bool),
    /// moves, extends, and checks what the scripting interface returns
    Assert(Cid),
    /// tells the client running the script who it is, where, as the script sees it
    Whoami,
}

pub fn lua_str(s: &str) -> String {
    let mut o = String::from("\"");
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b == b' ' {
            o.push(b as char);
        } else {
            o.push_str(&format!("\\{:03}", b));
        }
    }
    o.push('"');
    o
}

impl Stmt {
    pub fn lua(&self) -> String {
        match self {
            Stmt::Message(c, t) => format!("editor:message({}, {})", c, lua_str(t)),
            Stmt::Error(c, t) => format!("editor:error({}, {})", c, lua_str(t)),
            Stmt::Move(c, m, x) => format!("editor:{}({}, {})", m.lua(), c, x),
            Stmt::Delete(c) => format!("editor:delete_selection({})", c),
            Stmt::Edit(c, n, None) => format!("editor:edit({}, {})", c, lua_str(n)),
            Stmt::Edit(c, n, Some(s)) => format!("editor:edit({}, {}, {})", c, lua_str(n), s),
            Stmt::Scratch(c, n, None) => format!("editor:scratch({}, {})", c, lua_str(n)),
            Stmt::Scratch(c, n, Some(t)) => {
                format!("editor:scratch({}, {}, {})", c, lua_str(n), lua_str(t))
            }
            Stmt::Append(b, t) => format!("editor:append_to({}, {})", lua_str(b), lua_str(t)),
            Stmt::Context(c) => format!("local ctx = editor:get_context({}); assert(ctx.view.key)", c),
            Stmt::Debug(t) => format!("editor:debug({})", lua_str(t)),
            Stmt::Status(c) => format!("editor:push_status_line({})", c),
            Stmt::Item(c, n, i, t) => {
                format!("editor.clients[{}].status_line[{}] = {{ index = {}, text = {} }}", c, lua_str(n), i, lua_str(t))
            }
            Stmt::Hint(c, lines, framed) => format!(
                "editor:show_hint({}, {{ {} }}, {})",
                c,
                lines.iter().map(|l| lua_str(l)).collect::<Vec<_>>().join(", "),
                framed
            ),
            Stmt::Fail => "error('on purpose')".into(),
            Stmt::Whoami => "editor:message(tonumber(env.client), env.client .. '@' .. env.session)".into(),
            Stmt::Syntax => "this is not lua".into(),
            Stmt::Assert(c) => format!(
                "local d = editor:delete_selection({0}); assert(type(d) == 'table' and #d >= 1)",
                c
            ),
        }
    }
}

pub fn script(stmts: &[Stmt]) -> String {
    stmts.iter().map(|s| s.lua()).collect::<Vec<_>>().join("\n")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Edit(Cid, String, bool),
    View(Cid, String),
    ViewDelete(Cid),
    ViewAdd(Cid, String),
    ViewRemove(Cid, String),
    Menu(Cid, String, String),
    Select(Cid, String, String),
    SelectExec(Cid, Vec<Stmt>),
    Keys(Cid, Vec<String>),
    Exec(Cid, Vec<Stmt>),
    Quit(Cid),
    Leave(Cid),
    Join(Cid),
    Disk(String, Disk),
    /// not a request at all
    Malformed(Cid, String),
    /// a request of a method nobody knows
    Unknown(Cid, String),
    /// method and parameters (as JSON) of the wrong shape
    BadParams(Cid, String, String),
    /// a request without the parameters it needs
    NoParams(Cid, String),
}

impl Op {
    pub fn client(&self) -> Option<Cid> {
        use Op::*;
        Some(match self {
            Edit(c, ..) | View(c, ..) | ViewDelete(c) | ViewAdd(c, ..) | ViewRemove(c, ..)
            | Menu(c, ..) | Select(c, ..) | SelectExec(c, ..) | Keys(c, ..) | Exec(c, ..) | Quit(c)
            | Malformed(c, ..) | Unknown(c, ..) | BadParams(c, ..) | NoParams(c, ..) => *c,
            Leave(_) | Join(_) | Disk(..) => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Resp {
    /// not a request
    Nothing,
    Done,
    /// error code, and whether the id could be read
    Refused(i32, bool),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Note {
    Echo { text: String, error: bool },
    Info(Cid),
    Status(Vec<(i64, String)>),
    Hint(Mode),
    Lines(Vec<String>, bool),
    Menu { command: String, title: String, search: String, prompt: bool, values: Vec<String> },
}

impl Note {
    pub fn method(&self) -> &'static str {
        match self {
            Note::Echo { .. } => "echo",
            Note::Info(_) => "info",
            Note::Status(_) => "status",
            Note::Hint(_) | Note::Lines(..) => "hint",
            Note::Menu { .. } => "menu",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub resp: Resp,
    pub notes: Vec<(Cid, Note)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub disk: BTreeMap<String, Disk>,
    pub buffers: BTreeMap<String, Buf>,
    /// most recent first
    pub views: Vec<(String, View)>,
    /// latest joined first
    pub clients: Vec<Client>,
    /// entries of the menus shown so far (values, sorted)
    pub menus: BTreeMap<String, Vec<String>>,
    /// those who quit and have not disconnected
    pub quitters: Vec<Cid>,
}

pub const ROOT_MENU: [(&str, &str); 8] = [
    ("open", "Open file"),
    ("quit", "Quit"),
    ("scratch", "New scratch"),
    ("view_select", "Change view"),
    ("view_delete", "Delete view"),
    ("view_add", "Add to view"),
    ("view_remove", "Remove from the view."),
    ("exec", "Execute script."),
];

fn title_of(command: &str) -> Option<&'static str> {
    Some(match command {
        "" => "command",
        "open" => "file",
        "scratch" => "scratch",
        "view_select" => "view",
        "view_add" | "view_remove" => "buffer",
        "exec" => "lua",
        _ => return None,
    })
}

pub fn is_prompt(command: &str) -> bool {
    command == "scratch" || command == "exec"
}

pub fn label_of(command: &str, value: &str) -> String {
    match command {
        "" => ROOT_MENU.iter().find(|(k, _)| *k == value).unwrap().1.to_owned(),
        "scratch" => "New scratch buffer name.".into(),
        "exec" => "Lua script source.".into(),
        _ => value.to_owned(),
    }
}

fn lower(s: &str) -> String {
    s.to_lowercase()
}

/// Whether the words of a search appear in order in a label.
pub fn search_matches(search: &str, label: &str) -> bool {
    let label = lower(label);
    let mut from = 0;
    for w in search.split_whitespace() {
        match label[from..].find(&lower(w)) {
            Some(i) => from += i + lower(w).len(),
            None => return false,
        }
    }
    true
}

pub fn normalized(text: &str) -> String {
    let mut out: Vec<char> = Vec::new();
    for ch in text.chars() {
        match ch {
            '\n' => out.extend(['\\', 'n']),
            _ => {
                let ch = if ch == '\t' { ' ' } else { ch };
                if ch.is_whitespace() && out.last() == Some(&ch) {
                    continue;
                }
                out.push(ch);
            }
        }
    }
    out.into_iter().collect()
}

/// The text under a name, relative to the working directory or absolute.
fn on_disk(disk: &BTreeMap<String, Disk>, name: &str) -> Option<String> {
    let root = crate::fw::scratch_prefix();
    let relative = name.strip_prefix(&root).unwrap_or(name);
    if relative.ends_with('/') {
        return None;
    }
    let mut parts: Vec<&str> = vec![];
    for part in relative.split('/') {
        match part {
            "." | "" => {}
            ".." => drop(parts.pop()?),
            p => parts.push(p),
        }
    }
    match disk.get(&parts.join("/")) {
        Some(Disk::Text(t)) if t.ends_with('\n') => Some(t.clone()),
        Some(Disk::Text(t)) => Some(format!("{}\n", t)),
        Some(Disk::Link(to)) => on_disk(disk, to),
        _ => None,
    }
}

fn scratch_text(t: &str) -> String {
    if t.is_empty() {
        "\n".into()
    } else {
        t.into()
    }
}

/// Brings a selection back on characters of the text.
pub fn fit(sel: &mut Sel, text: &str) {
    let ps = positions(text);
    let snap = |x: usize| ps.iter().rev().find(|p| p.offset <= x).unwrap();
    sel.anchor = snap(sel.anchor).offset;
    let cur = snap(sel.cursor);
    sel.cursor = cur.offset;
    let cols = ps.iter().filter(|p| p.l == cur.l).count();
    if cols.min(sel.target) != cur.c {
        sel.target = cur.c;
    }
}

pub fn moved(sel: &Sel, text: &str, mv: Mv, extend: bool) -> Sel {
    let mut s = sel.clone();
    if text.len() == 1 {
        return s;
    }
    let ps = positions(text);
    let i = ps.iter().position(|p| p.offset == s.cursor).expect("cursor on a character");
    let at = |l: usize, c: usize| ps.iter().position(|p| (p.l, p.c) == (l, c)).unwrap();
    let cols = |l: usize| ps.iter().filter(|p| p.l == l).count();
    let last_line = ps.last().unwrap().l;
    let (l, c) = (ps[i].l, ps[i].c);
    let (j, target) = match mv {
        Mv::Left => (i.saturating_sub(1), None),
        Mv::Right => ((i + 1).min(ps.len() - 1), None),
        Mv::Up if l > 1 => (at(l - 1, s.target.min(cols(l - 1))), Some(s.target)),
        Mv::Down if l < last_line => (at(l + 1, s.target.min(cols(l + 1))), Some(s.target)),
        Mv::Up | Mv::Down => (i, Some(s.target)),
        Mv::LineBegin => (at(l, 1), Some(1)),
        Mv::LineEnd => {
            // the last character of the line, its end if it is empty
            let terminated = ps[at(l, cols(l))].ch == "\n";
            let n = if terminated { cols(l) - 1 } else { cols(l) }.max(1);
            (at(l, n), Some(n))
        }
        Mv::Begin => (0, Some(1)),
        Mv::End => (ps.len() - 1, Some(ps[ps.len() - 1].c)),
    };
    s.target = match target {
        Some(t) => t,
        // a border stops the move altogether
        None if j == i => s.target,
        None => ps[j].c,
    };
    let _ = c;
    s.cursor = ps[j].offset;
    if !extend {
        s.anchor = s.cursor;
    }
    s
}

/// Byte range of the characters a selection covers.
pub fn covered(sel: &Sel, text: &str) -> std::ops::Range<usize> {
    let ps = positions(text);
    let e = ps.iter().find(|p| p.offset == sel.end()).expect("selection ends on a character");
    sel.begin()..sel.end() + e.ch.len()
}

/// A displayed line: fragments with whether they are highlighted.
pub type Line = Vec<(String, bool)>;

pub fn merged(parts: impl IntoIterator<Item = (String, bool)>) -> Line {
    let mut out: Line = Vec::new();
    for (t, h) in parts {
        if t.is_empty() {
            continue;
        }
        match out.last_mut() {
            Some((last, lh)) if *lh == h => last.push_str(&t),
            _ => out.push((t, h)),
        }
    }
    out
}

pub fn render(text: &str, sel: Option<&Sel>) -> Vec<Line> {
    let ps = positions(text);
    lines(text)
        .iter()
        .enumerate()
        .map(|(i, raw)| {
            let terminated = ps.iter().any(|p| p.l == i + 1 && p.ch == "\n");
            // the carriage return of a line end is not displayed
            let shown = if terminated { raw.strip_suffix('\r').unwrap_or(raw) } else { raw };
            let gs = graphemes(shown);
            let mut flags = vec![false; gs.len() + 1];
            if let Some(s) = sel {
                for p in ps.iter().filter(|p| p.l == i + 1) {
                    if s.begin() <= p.offset && p.offset <= s.end() {
                        flags[(p.c - 1).min(gs.len())] = true;
                    }
                }
            }
            let blanks = std::iter::once(" ");
            merged(gs.iter().copied().chain(blanks).zip(flags).map(|(g, f)| (g.to_owned(), f)))
        })
        .collect()
}

impl Model {
    pub fn new(disk: &[(&str, Disk)]) -> Model {
        let mut view = single(DEBUG);
        view.insert(SCRATCH.into(), 1);
        let mut buffers = BTreeMap::new();
        buffers.insert(DEBUG.into(), Buf { text: None, synced: None });
        buffers.insert(SCRATCH.into(), Buf { text: Some("\n".into()), synced: None });
        Model {
            disk: disk.iter().map(|(n, d)| (n.to_string(), d.clone())).collect(),
            buffers,
            views: vec![(view_key(&view), view)],
            clients: Vec::new(),
            menus: BTreeMap::new(),
            quitters: Vec::new(),
        }
    }

    pub fn client(&self, id: Cid) -> Option<&Client> {
        self.clients.iter().find(|c| c.id == id)
    }

    fn client_mut(&mut self, id: Cid) -> &mut Client {
        self.clients.iter_mut().find(|c| c.id == id).unwrap()
    }

    pub fn ids(&self) -> Vec<Cid> {
        let mut v: Vec<Cid> = self.clients.iter().map(|c| c.id).collect();
        v.sort();
        v
    }

    pub fn view(&self, key: &str) -> Option<&View> {
        self.views.iter().find(|(k, _)| k == key).map(|(_, v)| v)
    }

    /// Requests a client may still send.
    pub fn enabled(&self, op: &Op) -> bool {
        match op {
            Op::Join(c) => {
                self.client(*c).is_none() && !self.quitters.contains(c)
            }
            Op::Leave(c) => self.client(*c).is_some() || self.quitters.contains(c),
            Op::Disk(n, d) => self.disk.get(n).unwrap_or(&Disk::Missing) != d,
            // the status line of one who quits may stay until it is gone
            Op::Exec(_, stmts) | Op::SelectExec(_, stmts)
                if stmts.iter().any(|s| {
                    matches!(s, Stmt::Status(t) | Stmt::Item(t, ..) if self.quitters.contains(t))
                }) =>
            {
                false
            }
            _ => self.client(op.client().unwrap()).is_some(),
        }
    }

    fn fit_all(&mut self, buffer: &str) {
        if let Some(text) = self.buffers.get(buffer).and_then(|b| b.text.clone()) {
            for c in &mut self.clients {
                for sels in c.sels.values_mut() {
                    if let Some(s) = sels.get_mut(buffer) {
                        fit(s, &text);
                    }
                }
            }
        }
    }

    fn append(&mut self, buffer: &str, text: &str) {
        match self.buffers.get_mut(buffer) {
            Some(b) => {
                if let Some(t) = &mut b.text {
                    t.push_str(text);
                }
            }
            None => {
                let text = Some(scratch_text(text));
                self.buffers.insert(buffer.into(), Buf { text, synced: None });
            }
        }
        self.fit_all(buffer);
    }

    fn message(&mut self, c: Cid, text: &str, out: &mut Out) {
        self.append("*messages*", &format!("{}|{}\n", c, text));
        out.notes.push((c, Note::Echo { text: text.into(), error: false }));
    }

    fn error(&mut self, c: Cid, tag: &str, text: &str, out: &mut Out) {
        let text = format!("{}: {}", tag, text);
        self.append("*errors*", &format!("{}|{}\n", c, text));
        out.notes.push((c, Note::Echo { text: normalized(&text), error: true }));
    }

    fn add_view(&mut self, view: View) {
        let key = view_key(&view);
        self.views.retain(|(k, _)| *k != key);
        for c in &mut self.clients {
            let sels = c.sels.entry(key.clone()).or_default();
            for b in view.keys() {
                sels.entry(b.clone()).or_insert_with(Sel::new);
            }
        }
        self.views.insert(0, (key, view));
    }

    fn delete_view(&mut self, key: &str) {
        let i = self.views.iter().position(|(k, _)| k == key).unwrap();
        let (_, view) = self.views.remove(i);
        for c in &mut self.clients {
            c.sels.remove(key);
        }
        for b in view.keys() {
            // the debug log always comes back
            if b != DEBUG && !self.views.iter().any(|(_, v)| v.contains_key(b)) {
                self.buffers.remove(b);
            }
        }
        if self.views.is_empty() {
            self.buffers
                .entry(SCRATCH.into())
                .or_insert_with(|| Buf { text: Some("\n".into()), synced: None });
            self.add_view(single(SCRATCH));
        }
        let latest = self.views[0].0.clone();
        for c in &mut self.clients {
            if c.view == key {
                c.view = latest.clone();
            }
        }
    }

    fn modify_view(&mut self, old: &str, new: View) {
        let key = view_key(&new);
        if key == old {
            return;
        }
        if !new.is_empty() {
            for c in &mut self.clients {
                let concerned = c.view == old || !c.sels.contains_key(&key);
                if let Some(mut sels) = c.sels.remove(old) {
                    if concerned {
                        sels.retain(|b, _| new.contains_key(b));
                        c.sels.insert(key.clone(), sels);
                    }
                }
            }
            self.add_view(new);
        }
        self.delete_view(old);
    }

    fn edit(&mut self, c: Cid, name: &str, scratch: bool) -> bool {
        if scratch {
            self.buffers
                .entry(name.into())
                .or_insert_with(|| Buf { text: Some("\n".into()), synced: None });
        } else {
            let found = on_disk(&self.disk, name);
            match self.buffers.get_mut(name) {
                Some(Buf { synced: None, .. }) => {}
                Some(b) => match found {
                    None => return false,
                    Some(t) => {
                        if b.synced.as_ref() != Some(&t) {
                            b.text = Some(t.clone());
                            b.synced = Some(t);
                            self.fit_all(name);
                        }
                    }
                },
                None => match found {
                    None => return false,
                    Some(t) => {
                        let b = Buf { text: Some(t.clone()), synced: Some(t) };
                        self.buffers.insert(name.into(), b);
                    }
                },
            }
        }
        let view = single(name);
        let key = view_key(&view);
        self.add_view(view);
        self.client_mut(c).view = key;
        true
    }

    fn show(&mut self, c: Cid, id: &str) -> bool {
        if self.view(id).is_some() {
            self.client_mut(c).view = id.into();
            true
        } else if self.buffers.contains_key(id) {
            let view = single(id);
            let key = view_key(&view);
            if self.view(&key).is_none() {
                self.add_view(view);
            }
            self.client_mut(c).view = key;
            true
        } else {
            false
        }
    }

    fn view_of(&self, c: Cid) -> View {
        self.view(&self.client(c).unwrap().view).unwrap().clone()
    }

    fn view_add(&mut self, c: Cid, b: &str) -> bool {
        if !self.buffers.contains_key(b) {
            return false;
        }
        let old = self.client(c).unwrap().view.clone();
        let mut v = self.view_of(c);
        *v.entry(b.into()).or_insert(0) += 1;
        self.modify_view(&old, v);
        true
    }

    fn view_remove(&mut self, c: Cid, b: &str) -> bool {
        if !self.buffers.contains_key(b) {
            return false;
        }
        let old = self.client(c).unwrap().view.clone();
        let mut v = self.view_of(c);
        v.remove(b);
        self.modify_view(&old, v);
        true
    }

    fn do_move(&mut self, c: Cid, mv: Mv, extend: bool) {
        let texts = self.buffers.clone();
        let client = self.client_mut(c);
        let view = client.view.clone();
        for (b, s) in client.sels.get_mut(&view).unwrap() {
            if let Some(t) = &texts[b].text {
                *s = moved(s, t, mv, extend);
            }
        }
    }

    fn delete(&mut self, c: Cid) {
        let client = self.client(c).unwrap();
        for (b, s) in client.sels[&client.view].clone() {
            let buf = self.buffers.get_mut(&b).unwrap();
            if let Some(t) = &mut buf.text {
                let r = covered(&s, t);
                t.replace_range(r, "");
                if t.is_empty() {
                    t.push('\n');
                }
            }
            self.fit_all(&b);
        }
    }

    fn entries(&self, command: &str) -> Vec<String> {
        let mut v: Vec<String> = match command {
            "" => ROOT_MENU.iter().map(|(k, _)| k.to_string()).collect(),
            "open" => self
                .disk
                .iter()
                .filter(|(_, d)| matches!(d, Disk::Text(_) | Disk::Undecodable | Disk::Link(_)))
                .map(|(n, _)| n.clone())
                .collect(),
            "view_add" | "view_remove" => self.buffers.keys().cloned().collect(),
            "view_select" => self
                .views
                .iter()
                .map(|(k, _)| k.clone())
                .chain(self.buffers.keys().filter(|b| self.view(&view_key(&single(b))).is_none()).cloned())
                .collect(),
            _ => vec![String::new()],
        };
        v.sort();
        v
    }

    fn show_menu(&mut self, c: Cid, command: &str, search: &str, out: &mut Out) -> bool {
        let title = match title_of(command) {
            Some(t) => t,
            None => return false,
        };
        if search.is_empty() {
            self.menus.insert(command.into(), self.entries(command));
        }
        let prompt = is_prompt(command);
        let values = self
            .menus
            .get(command)
            .cloned()
            .unwrap_or_default()
            .into_iter()
            .filter(|v| prompt || search_matches(search, &label_of(command, v)))
            .collect();
        out.notes.push((
            c,
            Note::Menu { command: command.into(), title: title.into(), search: search.into(), prompt, values },
        ));
        true
    }

    fn quit(&mut self, c: Cid) {
        self.clients.retain(|x| x.id != c);
        self.quitters.push(c);
    }

    fn run_script(&mut self, c: Cid, stmts: &[Stmt], opaque: &str, out: &mut Out) -> bool {
        let ok = !stmts.contains(&Stmt::Syntax)
            && stmts.iter().all(|s| match s {
                Stmt::Message(t, x) => {
                    self.message(*t, x, out);
                    true
                }
                Stmt::Error(t, x) => {
                    self.error(*t, "lua", x, out);
                    true
                }
                Stmt::Append(b, t) => {
                    self.append(b, t);
                    true
                }
                Stmt::Debug(_) => true,
                Stmt::Whoami => {
                    self.message(c, &format!("{}@{}", c, SESSION), out);
                    true
                }
                Stmt::Fail | Stmt::Syntax => false,
                Stmt::Move(t, ..) | Stmt::Delete(t) | Stmt::Edit(t, ..) | Stmt::Scratch(t, ..)
                | Stmt::Context(t) | Stmt::Assert(t) | Stmt::Status(t) | Stmt::Item(t, ..)
                    if self.client(*t).is_none() =>
                {
                    false
                }
                Stmt::Move(t, m, x) => {
                    self.do_move(*t, *m, *x);
                    true
                }
                Stmt::Delete(t) | Stmt::Assert(t) => {
                    self.delete(*t);
                    true
                }
                Stmt::Edit(t, n, s) => self.edit(*t, n, s.unwrap_or(false)),
                Stmt::Scratch(t, n, x) => {
                    let text = Some(scratch_text(x.as_deref().unwrap_or("")));
                    self.buffers.insert(n.clone(), Buf { text, synced: None });
                    self.fit_all(n);
                    self.edit(*t, n, true)
                }
                Stmt::Context(_) => true,
                Stmt::Status(t) => {
                    let note = self.status(*t);
                    out.notes.push((*t, note));
                    true
                }
                Stmt::Item(t, n, i, x) => {
                    self.client_mut(*t).items.insert(n.clone(), (*i, x.clone()));
                    true
                }
                Stmt::Hint(t, lines, framed) => {
                    out.notes.push((*t, Note::Lines(lines.clone(), *framed)));
                    true
                }
            });
        if !ok {
            self.error(c, "exec", opaque, out);
        }
        ok
    }

    fn status(&self, c: Cid) -> Note {
        let client = self.client(c).unwrap();
        let mut items: Vec<(i64, String)> = client.items.values().cloned().collect();
        if let Some((k, mode)) = &client.shown {
            items.push((80, k.to_owned()));
            items.push((90, mode.name().to_owned()));
        }
        items.push((100, format!("[{}@{}]", c, SESSION)));
        items.sort_by_key(|i| i.0);
        Note::Status(items)
    }

    fn key(&mut self, c: Cid, key: &str, out: &mut Out) {
        use Mode::*;
        let mode = *self.client(c).unwrap().modes.last().unwrap();
        let handled = match (mode, key) {
            (Normal, "i") => self.enter(c, Insertion, out),
            (Normal, "g") => self.enter(c, MoveTo, out),
            (Normal, "s-g") => self.enter(c, ExtendTo, out),
            (Normal, "h") => self.step(c, Mv::Left, false),
            (Normal, "j") => self.step(c, Mv::Down, false),
            (Normal, "k") => self.step(c, Mv::Up, false),
            (Normal, "l") => self.step(c, Mv::Right, false),
            (Normal, "s-h") => self.step(c, Mv::Left, true),
            (Normal, "s-j") => self.step(c, Mv::Down, true),
            (Normal, "s-k") => self.step(c, Mv::Up, true),
            (Normal, "s-l") => self.step(c, Mv::Right, true),
            (Normal, "m") => {
                self.message(c, "hello!", out);
                true
            }
            (Normal, "e") => {
                self.error(c, "lua", "oops!", out);
                true
            }
            (Normal, "d") => {
                self.delete(c);
                true
            }
            (Normal, _) => false,
            (Insertion, "esc") => {
                self.client_mut(c).modes.pop();
                true
            }
            (Insertion, _) => false,
            (MoveTo, k) | (ExtendTo, k) => {
                self.client_mut(c).modes.pop();
                match k {
                    "h" => self.step(c, Mv::LineBegin, mode == ExtendTo),
                    "l" => self.step(c, Mv::LineEnd, mode == ExtendTo),
                    _ => true,
                }
            }
        };
        if handled {
            let client = self.client_mut(c);
            let mode = *client.modes.last().unwrap();
            client.shown = Some((key.to_owned(), mode));
            let note = self.status(c);
            out.notes.push((c, note));
        }
    }

    fn enter(&mut self, c: Cid, mode: Mode, out: &mut Out) -> bool {
        self.client_mut(c).modes.push(mode);
        if mode != Mode::Insertion {
            out.notes.push((c, Note::Hint(mode)));
        }
        true
    }

    fn step(&mut self, c: Cid, mv: Mv, extend: bool) -> bool {
        self.do_move(c, mv, extend);
        true
    }

    /// `opaque`: the text of a script error, which only the implementation knows.
    pub fn apply(&mut self, op: &Op, opaque: &str) -> Out {
        let mut out = Out { resp: Resp::Done, notes: Vec::new() };
        let invalid = Resp::Refused(-32600, true);
        match op {
            Op::Edit(c, n, s) => {
                if !self.edit(*c, n, *s) {
                    out.resp = invalid;
                }
            }
            Op::View(c, id) => {
                if !self.show(*c, id) {
                    out.resp = invalid;
                }
            }
            Op::ViewDelete(c) => {
                let key = self.client(*c).unwrap().view.clone();
                self.delete_view(&key);
            }
            Op::ViewAdd(c, b) => {
                if !self.view_add(*c, b) {
                    out.resp = invalid;
                }
            }
            Op::ViewRemove(c, b) => {
                if !self.view_remove(*c, b) {
                    out.resp = invalid;
                }
            }
            Op::Menu(c, command, search) => {
                if !self.show_menu(*c, command, search, &mut out) {
                    out.resp = Resp::Refused(-32602, true);
                }
            }
            Op::Select(c, command, choice) => {
                let known = self.menus.get(command.as_str()).map_or(false, |es| {
                    is_prompt(command) || es.contains(choice)
                });
                if !known {
                    out.resp = Resp::Refused(-32602, true);
                } else {
                    let ok = match command.as_str() {
                        "" => {
                            match choice.as_str() {
                                "quit" => self.quit(*c),
                                "view_delete" => {
                                    let key = self.client(*c).unwrap().view.clone();
                                    self.delete_view(&key);
                                }
                                sub => {
                                    self.show_menu(*c, sub, "", &mut out);
                                }
                            }
                            true
                        }
                        "open" => self.edit(*c, choice, false),
                        "scratch" => self.edit(*c, choice, true),
                        "view_select" => self.show(*c, choice),
                        "view_add" => self.view_add(*c, choice),
                        "view_remove" => self.view_remove(*c, choice),
                        // a script of blanks does nothing, others are chosen with SelectExec
                        _ => {
                            assert!(choice.bytes().all(|b| b" \t\n\r".contains(&b)));
                            true
                        }
                    };
                    if !ok {
                        out.resp = invalid;
                    }
                }
            }
            Op::SelectExec(c, stmts) => {
                if !self.menus.contains_key("exec") {
                    out.resp = Resp::Refused(-32602, true);
                } else if !self.run_script(*c, stmts, opaque, &mut out) {
                    out.resp = Resp::Refused(1, true);
                }
            }
            Op::Keys(c, keys) => {
                for k in keys {
                    self.key(*c, k, &mut out);
                }
            }
            Op::Exec(c, stmts) => {
                if !self.run_script(*c, stmts, opaque, &mut out) {
                    out.resp = Resp::Refused(1, true);
                }
            }
            Op::Quit(c) => self.quit(*c),
            Op::Leave(c) => {
                self.clients.retain(|x| x.id != *c);
                self.quitters.retain(|x| x != c);
                out.resp = Resp::Nothing;
            }
            Op::Join(c) => {
                let client = match self.clients.first() {
                    Some(last) => Client {
                        id: *c,
                        modes: vec![Mode::Normal],
                        shown: None,
                        items: BTreeMap::new(),
                        ..last.clone()
                    },
                    None => Client {
                        id: *c,
                        view: self.views[0].0.clone(),
                        sels: self
                            .views
                            .iter()
                            .map(|(k, v)| {
                                (k.clone(), v.keys().map(|b| (b.clone(), Sel::new())).collect())
                            })
                            .collect(),
                        modes: vec![Mode::Normal],
                        shown: None,
                        items: BTreeMap::new(),
                    },
                };
                self.clients.insert(0, client);
                out.notes.push((*c, Note::Info(*c)));
                out.notes.push((*c, self.status(*c)));
                out.resp = Resp::Nothing;
            }
            Op::Disk(n, d) => {
                self.disk.insert(n.clone(), d.clone());
                out.resp = Resp::Nothing;
            }
            Op::Malformed(c, _) => {
                self.error(*c, "protocol", opaque, &mut out);
                out.resp = Resp::Refused(-32600, false);
            }
            Op::Unknown(c, _) => {
                self.error(*c, "protocol", opaque, &mut out);
                out.resp = Resp::Refused(-32601, true);
            }
            Op::BadParams(..) => out.resp = Resp::Refused(-32602, true),
            Op::NoParams(..) => out.resp = Resp::Refused(-32600, true),
        }
        out
    }
}
