//! C22: the real terminal client on a pseudo terminal, with a server of ours, against a model of
//! what it should draw.

use std::collections::VecDeque;
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::CommandExt;
use std::process::{Child, Stdio};
use std::time::{Duration, Instant};

use bstr::ByteSlice;
use serde_json::{json, Value};

use crate::fw::*;
use crate::real::{self, PATIENCE};
use crate::{ensure, ensure_eq};

fn graphemes(s: &str) -> Vec<String> {
    s.as_bytes().graphemes().map(String::from).collect()
}

// ---- a terminal, one cell per user-perceived character

#[derive(Clone, Debug, PartialEq)]
struct Cell {
    text: String,
    reversed: bool,
}

#[derive(Clone)]
struct Terminal {
    w: usize,
    h: usize,
    cells: Vec<Vec<Cell>>,
    x: usize,
    y: usize,
    wrap: bool,
    reversed: bool,
    alternate: bool,
    cursor: bool,
    pending: Vec<u8>,
    run: String,
}

impl Terminal {
    fn new(w: usize, h: usize) -> Terminal {
        let mut t = Terminal {
            w,
            h,
            cells: vec![],
            x: 0,
            y: 0,
            wrap: false,
            reversed: false,
            alternate: false,
            cursor: true,
            pending: vec![],
            run: String::new(),
        };
        t.resize(w, h);
        t
    }
    fn blank() -> Cell {
        Cell { text: " ".into(), reversed: false }
    }
    fn resize(&mut self, w: usize, h: usize) {
        self.w = w;
        self.h = h;
        self.cells = vec![vec![Self::blank(); w]; h];
        self.x = self.x.min(w - 1);
        self.y = self.y.min(h - 1);
        self.wrap = false;
    }
    fn feed(&mut self, bytes: &[u8]) {
        self.pending.extend_from_slice(bytes);
        let p = std::mem::take(&mut self.pending);
        let mut i = 0;
        while i < p.len() {
            let b = p[i];
            if b == 0x1b {
                match Self::escape(&p[i..]) {
                    Some(n) => {
                        self.flush();
                        self.control(&p[i..i + n]);
                        i += n;
                    }
                    None => break,
                }
            } else if b < 0x20 || b == 0x7f {
                self.flush();
                match b {
                    b'\r' => {
                        self.x = 0;
                        self.wrap = false
                    }
                    b'\n' => {
                        self.down();
                        self.wrap = false
                    }
                    8 => {
                        self.x = self.x.saturating_sub(1);
                        self.wrap = false
                    }
                    9 => self.x = ((self.x / 8 + 1) * 8).min(self.w - 1),
                    _ => {}
                }
                i += 1;
            } else {
                let n = match b {
                    0..=0x7f => 1,
                    0xc0..=0xdf => 2,
                    0xe0..=0xef => 3,
                    _ => 4,
                };
                if i + n > p.len() {
                    break;
                }
                self.run.push_str(&String::from_utf8_lossy(&p[i..i + n]));
                i += n;
            }
        }
        self.pending = p[i..].to_vec();
    }
    /// Length of a whole escape sequence.
    fn escape(p: &[u8]) -> Option<usize> {
        match p.get(1)? {
            b'[' => p[2..].iter().position(|b| (0x40..=0x7e).contains(b)).map(|n| n + 3),
            b']' => p.iter().position(|b| *b == 7).map(|n| n + 1),
            b'(' | b')' => p.get(2).map(|_| 3),
            _ => Some(2),
        }
    }
    fn down(&mut self) {
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            self.cells.remove(0);
            self.cells.push(vec![Self::blank(); self.w]);
        }
    }
    /// Puts the characters seen so far.
    fn flush(&mut self) {
        let run = std::mem::take(&mut self.run);
        for g in graphemes(&run) {
            if self.wrap {
                self.x = 0;
                self.down();
                self.wrap = false;
            }
            self.cells[self.y][self.x] = Cell { text: g, reversed: self.reversed };
            if self.x + 1 < self.w {
                self.x += 1;
            } else {
                self.wrap = true;
            }
        }
    }
    fn control(&mut self, s: &[u8]) {
        if s[1] != b'[' {
            return;
        }
        let last = *s.last().unwrap();
        let body = String::from_utf8_lossy(&s[2..s.len() - 1]).into_owned();
        if let Some(mode) = body.strip_prefix('?') {
            for m in mode.split(';') {
                match (m, last) {
                    ("1049", b'h') => {
                        self.alternate = true;
                        self.resize(self.w, self.h)
                    }
                    ("1049", b'l') => self.alternate = false,
                    ("25", _) => self.cursor = last == b'h',
                    _ => {}
                }
            }
            return;
        }
        let args: Vec<usize> = body.split(';').map(|a| a.parse().unwrap_or(0)).collect();
        let arg = |k: usize| args.get(k).copied().unwrap_or(0).max(1);
        let (w, h) = (self.w, self.h);
        if last != b'm' {
            self.wrap = self.wrap && matches!(last, b'K' | b'J');
        }
        match last {
            b'H' | b'f' => {
                self.y = (arg(0) - 1).min(h - 1);
                self.x = (arg(1) - 1).min(w - 1);
            }
            b'A' => self.y = self.y.saturating_sub(arg(0)),
            b'B' => self.y = (self.y + arg(0)).min(h - 1),
            b'C' => self.x = (self.x + arg(0)).min(w - 1),
            b'D' => self.x = self.x.saturating_sub(arg(0)),
            b'E' => {
                self.y = (self.y + arg(0)).min(h - 1);
                self.x = 0
            }
            b'F' => {
                self.y = self.y.saturating_sub(arg(0));
                self.x = 0
            }
            b'G' => self.x = (arg(0) - 1).min(w - 1),
            b'd' => self.y = (arg(0) - 1).min(h - 1),
            b'J' | b'K' => {
                let here = self.y * w + self.x;
                let (from, to) = match (last, args[0]) {
                    (b'J', 0) => (here, w * h),
                    (b'J', 1) => (0, here + 1),
                    (b'J', _) => (0, w * h),
                    (_, 0) => (here, (self.y + 1) * w),
                    (_, 1) => (self.y * w, here + 1),
                    _ => (self.y * w, (self.y + 1) * w),
                };
                for k in from..to {
                    self.cells[k / w][k % w] = Self::blank();
                }
            }
            b'm' => {
                for a in args {
                    match a {
                        0 | 27 => self.reversed = false,
                        7 => self.reversed = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    fn shown(&self) -> String {
        self.cells
            .iter()
            .map(|r| format!("|{}|", r.iter().map(|c| c.text.as_str()).collect::<String>()))
            .collect::<Vec<_>>()
            .join("\n")
    }
}

// ---- the model

/// What a cell should show; whether it is highlighted where that means something.
type Want = (String, Option<bool>);

#[derive(Clone)]
struct Model {
    w: usize,
    h: usize,
    screen: Vec<Vec<Want>>,
    view: Value,
    status: Value,
    echo: Value,
    menu: Option<(Value, usize)>,
    next_id: i32,
    /// control characters were drawn: what a terminal makes of them is its own business
    garbled: bool,
}

fn plain(text: &Value) -> String {
    text.as_array().unwrap().iter().map(|f| f["text"].as_str().unwrap()).collect()
}

/// The characters of a text and whether they are selected.
fn chars(text: &Value) -> Vec<(String, bool)> {
    text.as_array()
        .unwrap()
        .iter()
        .flat_map(|f| {
            let sel = f["face"] == "Selection";
            graphemes(f["text"].as_str().unwrap()).into_iter().map(move |g| (g, sel))
        })
        .collect()
}

fn width(text: &Value) -> usize {
    chars(text).len()
}

impl Model {
    fn new(w: usize, h: usize) -> Model {
        let mut m = Model {
            w,
            h,
            screen: vec![],
            view: json!([]),
            status: json!([]),
            echo: json!([]),
            menu: None,
            next_id: 0,
            garbled: false,
        };
        m.clear();
        m
    }
    fn clear(&mut self) {
        self.screen = vec![vec![(" ".into(), None); self.w]; self.h];
        self.garbled = false;
    }
    fn put(&mut self, x: usize, y: usize, cells: impl IntoIterator<Item = Want>) {
        for (k, c) in cells.into_iter().enumerate() {
            if x + k >= self.w {
                break;
            }
            if c.0.chars().any(|c| c.is_control()) {
                self.garbled = true;
            }
            self.screen[y][x + k] = c;
        }
    }
    fn text(&mut self, x: usize, y: usize, s: &str) {
        self.put(x, y, graphemes(s).into_iter().map(|g| (g, None)));
    }

    fn draw_view(&mut self) {
        self.clear();
        let mut rows: Vec<Vec<Want>> = vec![];
        for item in self.view.as_array().unwrap() {
            let title =
                format!("-[{}][{}:{}]", item["buffer"].as_str().unwrap(), item["start"], item["end"]);
            let mut row: Vec<Want> = graphemes(&title).into_iter().map(|g| (g, None)).collect();
            while row.len() < self.w {
                row.push(("-".into(), None));
            }
            rows.push(row);
            for lens in item["lenses"].as_array().unwrap() {
                for line in lens["lines"].as_array().unwrap() {
                    rows.push(chars(line).into_iter().map(|(g, s)| (g, Some(s))).collect());
                }
            }
        }
        // the last row is that of the status
        rows.truncate(self.h - 1);
        for (y, row) in rows.into_iter().enumerate() {
            self.put(0, y, row);
        }
        self.draw_status();
    }

    fn draw_status(&mut self) {
        let w = self.w;
        let echo: Vec<String> = chars(&self.echo).into_iter().map(|c| c.0).collect();
        let parts: Vec<String> =
            self.status.as_array().unwrap().iter().map(|i| plain(&i["text"])).collect();
        let status = graphemes(&parts.join("·"));
        let mut row = echo.clone();
        row.truncate(w);
        if row.len() < w {
            // the echo, at least a blank when cut, and the end of the status
            let room = w - row.len();
            if status.len() < room {
                row.extend(vec![" ".to_string(); room - status.len()]);
                row.extend(status);
            } else {
                row.push(" ".into());
                row.extend(status[status.len() - (room - 1)..].iter().cloned());
            }
        }
        let y = self.h - 1;
        self.put(0, y, row.into_iter().map(|g| (g, None)));
    }

    fn draw_hint(&mut self, lines: &Value) {
        let lines = lines.as_array().unwrap();
        let widest = lines.iter().map(width).max().unwrap_or(0);
        let x = self.w.saturating_sub(widest);
        let y = self.h.saturating_sub(lines.len());
        for (k, l) in lines.iter().enumerate().take(self.h) {
            self.put(x, y + k, chars(l).into_iter().map(|(g, _)| (g, None)));
        }
    }

    fn draw_menu(&mut self) {
        let (menu, selected) = self.menu.clone().unwrap();
        self.clear();
        let title = format!("{}:{}", menu["title"].as_str().unwrap(), menu["search"].as_str().unwrap());
        self.text(0, 0, &title);
        for (k, e) in menu["entries"].as_array().unwrap().iter().enumerate() {
            if k + 1 >= self.h {
                break;
            }
            let cells: Vec<Want> = chars(&e["text"])
                .into_iter()
                .enumerate()
                .map(|(i, (g, _))| (g, if i == 0 { Some(k == selected) } else { None }))
                .collect();
            self.put(0, k + 1, cells);
        }
    }

    fn redraw(&mut self) {
        match self.menu {
            Some(_) => self.draw_menu(),
            None => self.draw_view(),
        }
    }

    fn request(&mut self, method: &str, params: Value) -> Vec<Value> {
        let id = self.next_id;
        self.next_id += 1;
        vec![json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params})]
    }

    /// A message of the server; the requests it leads to.
    fn message(&mut self, method: &str, p: &Value) {
        match method {
            "echo" => {
                self.echo = p.clone();
                self.draw_view();
            }
            "view" => {
                self.view = p.clone();
                self.draw_view();
            }
            "status" => {
                self.status = p.clone();
                self.draw_status();
            }
            "hint" => self.draw_hint(&p["text"]),
            "menu" => {
                self.menu = Some((p.clone(), 0));
                self.echo = json!([]);
                self.draw_menu();
            }
            _ => {}
        }
    }

    fn key(&mut self, key: &Key) -> Vec<Value> {
        if let Some((menu, selected)) = self.menu.clone() {
            let entries = menu["entries"].as_array().unwrap();
            let search = menu["search"].as_str().unwrap();
            let ask = |m: &mut Model, s: String| m.request("menu", json!({"command": menu["command"], "search": s}));
            match key {
                Key::Esc => {
                    self.menu = None;
                    self.draw_view();
                }
                Key::Enter => {
                    let r = match entries.get(selected) {
                        Some(e) => {
                            self.menu = None;
                            let choice = if e["value"] == "" { &menu["search"] } else { &e["value"] };
                            self.request("menu-select", json!({"command": menu["command"], "choice": choice}))
                        }
                        None => vec![],
                    };
                    self.draw_view();
                    return r;
                }
                Key::Up | Key::Down => {
                    let s = match key {
                        Key::Up => selected.saturating_sub(1),
                        _ if selected + 1 < entries.len() => selected + 1,
                        _ => selected,
                    };
                    self.menu = Some((menu, s));
                    self.draw_menu();
                }
                Key::Backspace => {
                    let mut s = search.to_string();
                    s.pop();
                    return ask(self, s);
                }
                Key::Char(c) | Key::Ctrl(c) | Key::Alt(c) => return ask(self, format!("{}{}", search, c)),
                Key::Other(_) => {}
            }
            return vec![];
        }
        let keys = |m: &mut Model, ctrl: bool, alt: bool, c: char| {
            let k = json!([{"ctrl": ctrl, "alt": alt, "shift": c.is_uppercase(), "key": {"Char": c.to_string()}}]);
            m.request("keys", k)
        };
        match key {
            Key::Esc => self.request("keys", json!([{"ctrl": false, "alt": false, "shift": false, "key": "Escape"}])),
            Key::Ctrl('d') => self.request("exec", json!("editor:debug('coucou')")),
            Key::Ctrl('e') => self.request("exec", json!("editor:debug(undefined)")),
            Key::Ctrl('f') => self.request("menu", json!({"command": "open", "search": ""})),
            Key::Ctrl('p') => self.request("menu", json!({"command": "", "search": ""})),
            Key::Ctrl('v') => self.request("menu", json!({"command": "view_select", "search": ""})),
            Key::Ctrl(c) => keys(self, true, false, *c),
            Key::Alt(c) => keys(self, false, true, *c),
            Key::Char(c) => keys(self, false, false, *c),
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug)]
enum Key {
    Char(char),
    Ctrl(char),
    Alt(char),
    Esc,
    Enter,
    Up,
    Down,
    Backspace,
    Other(&'static [u8]),
}

impl Key {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Char(c) => c.to_string().into_bytes(),
            Key::Ctrl(c) => vec![*c as u8 - b'a' + 1],
            Key::Alt(c) => [&[0x1b][..], c.to_string().as_bytes()].concat(),
            Key::Esc => vec![0x1b],
            Key::Enter => vec![b'\r'],
            Key::Up => b"\x1b[A".to_vec(),
            Key::Down => b"\x1b[B".to_vec(),
            Key::Backspace => vec![0x7f],
            Key::Other(b) => b.to_vec(),
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    Message(&'static str, Value),
    /// undecodable data, reported to the server
    Garbage(&'static [u8]),
    Key(Key),
    Resize(usize, usize),
}

impl Step {
    fn show(&self) -> String {
        let s = match self {
            Step::Message(m, p) => format!("<- {} {}", m, p),
            s => format!("{:?}", s),
        };
        match s.char_indices().nth(300) {
            Some((i, _)) => format!("{}…", &s[..i]),
            None => s,
        }
    }
}

// ---- the client under control

struct Tui {
    child: Child,
    master: std::fs::File,
    slave: std::fs::File,
    original: libc::termios,
    server: UnixStream,
    terminal: Terminal,
    wire: Vec<u8>,
    requests: VecDeque<Value>,
    gone: bool,
    /// what the threads had done when the last key was sent: the key reaches them some time later
    before_key: Option<Vec<String>>,
}

fn set_size(fd: i32, w: usize, h: usize) {
    let s = libc::winsize { ws_row: h as u16, ws_col: w as u16, ws_xpixel: 0, ws_ypixel: 0 };
    assert_eq!(unsafe { libc::ioctl(fd, libc::TIOCSWINSZ, &s) }, 0);
}

fn attributes(fd: i32) -> libc::termios {
    unsafe {
        let mut t = std::mem::zeroed();
        assert_eq!(libc::tcgetattr(fd, &mut t), 0);
        t
    }
}

fn errors_path() -> std::path::PathBuf {
    scratch().join("errors")
}

impl Tui {
    fn start(w: usize, h: usize, files: &[&str]) -> Result<Tui, Violation> {
        real::adopt_environment();
        for f in ["log.txt", "errors"] {
            let _ = std::fs::remove_file(scratch().join(f));
        }
        let path = real::sessions().join("s");
        let _ = std::fs::remove_file(&path);
        let listener = UnixListener::bind(&path).unwrap();
        let (master, slave) = unsafe {
            let (mut m, mut s) = (0, 0);
            let size = libc::winsize { ws_row: h as u16, ws_col: w as u16, ws_xpixel: 0, ws_ypixel: 0 };
            let r = libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &size);
            assert_eq!(r, 0, "openpty");
            libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
            (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s))
        };
        let original = attributes(slave.as_raw_fd());
        let mut c = real::command(real::ced());
        c.args(["--mode=term", "--session=s"]).args(files);
        c.stdin(Stdio::from(slave.try_clone().unwrap()));
        c.stdout(Stdio::from(slave.try_clone().unwrap()));
        c.stderr(Stdio::from(std::fs::File::create(errors_path()).unwrap()));
        unsafe {
            c.pre_exec(|| {
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("start the client");
        listener.set_nonblocking(true).unwrap();
        let t = Instant::now();
        let server = loop {
            match listener.accept() {
                Ok((s, _)) => break s,
                Err(_) => {
                    if let Some(st) = child.try_wait().unwrap() {
                        return fail(format!("the client ended ({}) {}", st, Self::errors()));
                    }
                    ensure!(t.elapsed() < PATIENCE, "the client does not connect to its session");
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
        };
        server.set_nonblocking(true).unwrap();
        Ok(Tui {
            child,
            master,
            slave,
            original,
            server,
            terminal: Terminal::new(w, h),
            wire: vec![],
            requests: Default::default(),
            gone: false,
            before_key: None,
        })
    }

    fn errors() -> String {
        std::fs::read_to_string(errors_path()).unwrap_or_default()
    }

    /// Takes what the client wrote, on its terminal and to its server.
    fn take(&mut self) -> bool {
        let mut any = false;
        let mut buf = [0u8; 65536];
        while let Ok(n) = self.master.read(&mut buf) {
            if n == 0 {
                break;
            }
            self.terminal.feed(&buf[..n]);
            any = true;
        }
        while let Ok(n) = self.server.read(&mut buf) {
            if n == 0 {
                self.gone = true;
                break;
            }
            self.wire.extend_from_slice(&buf[..n]);
            any = true;
        }
        while let Some(i) = self.wire.iter().position(|b| *b == b'\n') {
            let l: Vec<u8> = self.wire.drain(..=i).collect();
            self.requests.push_back(serde_json::from_slice(&l).unwrap_or(Value::Null));
        }
        any
    }

    /// Nothing is on its way, and the client waits.
    fn idle(&mut self) -> bool {
        let mut left = 0;
        unsafe { libc::ioctl(self.server.as_raw_fd(), libc::TIOCOUTQ, &mut left) };
        let mut unread = 0;
        unsafe { libc::ioctl(self.slave.as_raw_fd(), libc::FIONREAD, &mut unread) };
        if left != 0 || unread != 0 {
            return false;
        }
        // no thread has anything to do, and none ran between the two looks
        match (self.waiting(), self.waiting()) {
            (Some(a), Some(b)) => a == b && self.before_key.as_ref() != Some(&a),
            _ => false,
        }
    }

    /// How often the threads were scheduled, when all of them wait.
    fn waiting(&self) -> Option<Vec<String>> {
        let mut times = vec![];
        for e in std::fs::read_dir(format!("/proc/{}/task", self.child.id())).ok()?.flatten() {
            let status = std::fs::read_to_string(e.path().join("status")).ok()?;
            let field = |name: &str| status.lines().find_map(|l| l.strip_prefix(name)).map(|v| v.trim().to_string());
            if !field("State:")?.starts_with('S') {
                return None;
            }
            times.push(format!(
                "{:?} {:?} {:?}",
                e.file_name(),
                field("voluntary_ctxt_switches:"),
                field("nonvoluntary_ctxt_switches:")
            ));
        }
        Some(times)
    }

    fn waiting_state(&self) -> Option<char> {
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).ok()?;
        stat.rsplit(") ").next()?.chars().next()
    }

    fn send(&mut self, bytes: &[u8]) -> Result<(), Violation> {
        let t = Instant::now();
        let mut at = 0;
        while at < bytes.len() {
            match self.server.write(&bytes[at..]) {
                Ok(n) => at += n,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    self.take();
                    ensure!(t.elapsed() < PATIENCE, "the client does not read from its server");
                    std::thread::sleep(Duration::from_micros(200));
                }
                Err(e) => return fail(format!("the client left its server: {}; {}", e, Self::errors())),
            }
        }
        Ok(())
    }

    fn alive(&mut self) -> Result<(), Violation> {
        if let Some(st) = self.child.try_wait().unwrap() {
            return fail(format!("the client ended ({}): {}", st, Self::errors()));
        }
        Ok(())
    }

    fn difference(&self, m: &Model) -> Option<String> {
        if m.garbled {
            return None;
        }
        let mut t = self.terminal.clone();
        t.flush();
        for y in 0..m.h {
            for x in 0..m.w {
                let (want, got) = (&m.screen[y][x], &t.cells[y][x]);
                if want.0 != got.text || want.1.map_or(false, |r| r != got.reversed) {
                    let rows: Vec<String> = m
                        .screen
                        .iter()
                        .map(|r| format!("|{}|", r.iter().map(|c| c.0.as_str()).collect::<String>()))
                        .collect();
                    return Some(format!(
                        "window of {}x{}, row {}, column {}: {:?}, expected {:?}\n{}\nexpected\n{}",
                        m.w, m.h, y, x, got, want, t.shown(), rows.join("\n")
                    ));
                }
            }
        }
        None
    }

    /// The screen and the requests become what they should be, and stay so.
    fn settle(&mut self, m: &Model, expected: &[Value]) -> Result<(), Violation> {
        let t = Instant::now();
        let mut pause = 100;
        loop {
            let busy = self.take();
            let good = self.difference(m).is_none() && self.requests.len() == expected.len();
            if !busy && good && self.idle() && !self.take() {
                break;
            }
            if t.elapsed() > Duration::from_secs(2) || !good {
                self.alive()?;
            }
            if t.elapsed() > PATIENCE {
                if let Some(d) = self.difference(m) {
                    return fail(d);
                }
                break;
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 3 / 2).min(5000);
        }
        if let Some(d) = self.difference(m) {
            return fail(d);
        }
        self.before_key = None;
        let got: Vec<Value> = self.requests.drain(..).collect();
        ensure_eq!(got.len(), expected.len(), "requests sent: {:?} instead of {:?}", got, expected);
        for (g, e) in got.iter().zip(expected) {
            let mut g = g.clone();
            if e["params"] == "<error>" {
                let source = g["params"].as_str().unwrap_or("");
                ensure!(source.starts_with("editor:error("), "{} instead of an error report", g);
                g["params"] = json!("<error>");
            }
            ensure_eq!(g, *e, "request sent");
        }
        ensure!(!self.gone, "the client left its server");
        self.alive()
    }

    fn apply(&mut self, m: &mut Model, s: &Step) -> Result<Vec<Value>, Violation> {
        Ok(match s {
            Step::Message(method, p) => {
                let l = json!({"jsonrpc": "2.0", "method": method, "params": p}).to_string() + "\n";
                self.send(l.as_bytes())?;
                m.message(method, p);
                vec![]
            }
            Step::Garbage(l) => {
                self.send(&[l, &b"\n"[..]].concat())?;
                m.request("exec", json!("<error>"))
            }
            Step::Key(k) => {
                self.before_key = self.waiting();
                let mut b = &k.bytes()[..];
                while !b.is_empty() {
                    match (&self.master).write(b) {
                        Ok(n) => b = &b[n..],
                        Err(_) => {
                            self.take();
                        }
                    }
                }
                m.key(k)
            }
            Step::Resize(w, h) => {
                if (m.w, m.h) != (*w, *h) {
                    self.terminal.resize(*w, *h);
                    m.w = *w;
                    m.h = *h;
                    m.redraw();
                }
                set_size(self.master.as_raw_fd(), *w, *h);
                vec![]
            }
        })
    }

    /// The client ends well, and leaves the terminal as it was.
    fn ended(&mut self) -> Result<(), Violation> {
        let t = Instant::now();
        loop {
            self.take();
            if let Some(st) = self.child.try_wait().unwrap() {
                self.take();
                ensure!(st.success(), "the client ended ({}): {}", st, Self::errors());
                break;
            }
            ensure!(t.elapsed() < PATIENCE, "the client does not end");
            std::thread::sleep(Duration::from_micros(300));
        }
        ensure!(!self.terminal.alternate, "the screen is not given back");
        ensure!(self.terminal.cursor, "the cursor stays hidden");
        let now = attributes(self.slave.as_raw_fd());
        let o = &self.original;
        ensure!(
            (now.c_iflag, now.c_oflag, now.c_cflag, now.c_lflag) == (o.c_iflag, o.c_oflag, o.c_cflag, o.c_lflag),
            "the terminal stays in raw mode"
        );
        Ok(())
    }
}

impl Drop for Tui {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn drive(w: usize, h: usize, steps: &[Step], run: &mut Run) -> Result<(), Violation> {
    let mut t = Tui::start(w, h, &[])?;
    let mut m = Model::new(w, h);
    run.note(format!("window of {}x{}", w, h));
    // the client listens to its window from now on
    let first = Step::Message("view", json!([]));
    t.apply(&mut m, &first)?;
    t.settle(&m, &[])?;
    ensure!(t.terminal.alternate && !t.terminal.cursor, "the terminal is not prepared");
    for s in steps {
        run.step(s.show());
        let expected = t.apply(&mut m, s)?;
        t.settle(&m, &expected)?;
        run.state(&(m.screen.clone(), m.menu.as_ref().map(|x| x.1), m.view.to_string()));
    }
    Ok(())
}

// ---- contents

fn text(s: &str) -> Value {
    json!([{"text": s, "face": "Default"}])
}

fn lines() -> Vec<Value> {
    vec![
        json!([]),
        text("a"),
        text("abcdefghijklmno"),
        json!([{"text": "ab", "face": "Default"}, {"text": "cde", "face": "Selection"}, {"text": "fghijk", "face": "Default"}]),
        text("日本語テキストe\u{301}à"),
        json!([{"text": "é", "face": "Selection"}, {"text": "👩‍👩‍👧x", "face": "Error"}, {"text": " ", "face": "Selection"}]),
        text(&"wörd ".repeat(60)),
    ]
}

fn item(buffer: &str, start: usize, end: usize, lenses: Vec<Value>) -> Value {
    json!({"buffer": buffer, "start": start, "end": end, "lenses": lenses})
}

fn lens(ls: &[usize]) -> Value {
    let all = lines();
    json!({"first_line_num": 1, "lines": ls.iter().map(|k| all[*k].clone()).collect::<Vec<_>>()})
}

fn views() -> Vec<Value> {
    let mut v = vec![json!([])];
    let n = lines().len();
    for k in 0..n {
        v.push(json!([item("b", 1, 1, vec![lens(&[k])])]));
        for j in 0..n {
            v.push(json!([item("é", k, j, vec![lens(&[k, j])])]));
        }
    }
    for count in [3, 4, 5, 30] {
        let many: Vec<usize> = (0..count).map(|k| k % n).collect();
        v.push(json!([item("many", 1, count, vec![lens(&many)])]));
        v.push(json!([item("x", 1, 2, vec![lens(&many[..2]), lens(&many[2..])]), item("日本", 1000, 100000, vec![lens(&[3, 4])])]));
    }
    for b in ["", "a-long-buffer-name-which-takes-a-whole-row", "日本語"] {
        v.push(json!([item(b, 0, 0, vec![]), item(b, 1, 1, vec![lens(&[])]), item(b, 9, 9, vec![lens(&[0, 3])])]));
    }
    v
}

fn statuses(parts: &[usize]) -> Value {
    let items: Vec<Value> = parts
        .iter()
        .enumerate()
        .map(|(k, n)| json!({"index": k, "text": text(&"stätus·12345678901234567890".chars().take(*n).collect::<String>())}))
        .collect();
    Value::Array(items)
}

fn echoes(n: usize) -> Value {
    let s: String = "échoABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().cycle().take(n).collect();
    match n {
        0 => json!([]),
        n if n % 3 == 0 => json!([{"text": s, "face": "Error"}]),
        n if n % 3 == 1 => text(&s),
        _ => {
            let cut = s.char_indices().nth(1).unwrap().0;
            json!([{"text": &s[..cut], "face": "Default"}, {"text": "", "face": "Match"}, {"text": &s[cut..], "face": "Selection"}])
        }
    }
}

fn menu(title: &str, search: &str, n: usize) -> Value {
    let all = lines();
    let entries: Vec<Value> = (0..n)
        .map(|k| {
            let mut t = all[(k + 1) % all.len()].clone();
            if k % 4 == 1 {
                t = json!([{"text": "ab", "face": "Match"}, {"text": "rest of it", "face": "Default"}]);
            }
            json!({"value": format!("v{}", k), "text": t, "description": null})
        })
        .collect();
    json!({"command": "c", "title": title, "search": search, "entries": entries})
}

fn prompt() -> Value {
    json!({"command": "p", "title": "prompt", "search": "typed é", "entries": [{"value": "", "text": text(""), "description": null}]})
}

fn hints(n: usize, k: usize) -> Value {
    let all = lines();
    json!({"text": (0..n).map(|i| all[(i + k) % all.len()].clone()).collect::<Vec<_>>()})
}

/// Contents one after the other in a window of each size.
fn contents(tier: Tier) -> impl Space {
    let widths: Vec<usize> = match tier {
        Tier::Quick => vec![1, 2, 3, 5, 8, 11, 16, 40],
        Tier::Thorough => (1..=24).chain([40, 80, 200]).collect(),
    };
    let heights: Vec<usize> = match tier {
        Tier::Quick => vec![1, 2, 3, 6, 24],
        Tier::Thorough => (1..=9).chain([24, 60]).collect(),
    };
    let sizes: Vec<(usize, usize)> =
        widths.iter().flat_map(|w| heights.iter().map(move |h| (*w, *h))).collect();
    let kinds = 5;
    space("contents in every window", (sizes.len() * kinds) as u64, move |i, run| {
        let (w, h) = sizes[i as usize / kinds];
        let mut steps = vec![];
        match i as usize % kinds {
            0 => {
                steps.push(Step::Message("status", statuses(&[3])));
                for v in views() {
                    steps.push(Step::Message("view", v));
                }
            }
            1 | 2 => {
                let most = (w + 3).min(22);
                for e in 0..=most {
                    if (e % 2 == 0) != (i as usize % kinds == 1) {
                        continue;
                    }
                    steps.push(Step::Message("echo", echoes(e)));
                    for s in 0..=most {
                        steps.push(Step::Message("status", statuses(&[s])));
                    }
                    steps.push(Step::Message("status", statuses(&[])));
                    steps.push(Step::Message("status", statuses(&[1, 0, 2])));
                    steps.push(Step::Message("view", views()[5].clone()));
                }
            }
            3 => {
                for n in [0, 1, 2, h.saturating_sub(1), h, h + 1, 40] {
                    for (t, s) in [("", ""), ("t", ""), ("title", "a search that is long"), ("日本語", "é")] {
                        steps.push(Step::Message("menu", menu(t, s, n)));
                    }
                    for _ in 0..n.min(5) {
                        steps.push(Step::Key(Key::Down));
                    }
                    steps.push(Step::Key(Key::Up));
                    steps.push(Step::Message("status", statuses(&[2])));
                    steps.push(Step::Key(Key::Esc));
                }
                steps.push(Step::Message("menu", prompt()));
            }
            _ => {
                steps.push(Step::Message("view", views()[20].clone()));
                for n in 0..=(h + 2).min(9) {
                    for k in 0..lines().len() {
                        steps.push(Step::Message("hint", hints(n, k)));
                    }
                    steps.push(Step::Message("echo", echoes(n)));
                }
            }
        }
        drive(w, h, &steps, run)
    })
    .confirmed(1)
}

/// Every change of window with each kind of thing on the screen.
fn resizes(tier: Tier) -> impl Space {
    let sizes: Vec<(usize, usize)> = match tier {
        Tier::Quick => vec![(1, 1), (2, 2), (5, 1), (1, 6), (9, 3), (20, 6), (80, 24)],
        Tier::Thorough => [1, 2, 3, 5, 9, 20, 80].iter().flat_map(|w| [1, 2, 3, 6, 24].iter().map(move |h| (*w, *h))).collect(),
    };
    let shown: Vec<Vec<Step>> = vec![
        vec![Step::Message("view", views()[12].clone()), Step::Message("status", statuses(&[4]))],
        vec![Step::Message("menu", menu("title", "s", 9)), Step::Key(Key::Down)],
        vec![Step::Message("view", views()[60].clone()), Step::Message("echo", echoes(7)), Step::Message("hint", hints(4, 2))],
        vec![Step::Message("menu", menu("t", "", 0))],
    ];
    let n = shown.len();
    space("windows that change", (sizes.len() * n) as u64, move |i, run| {
        let (w, h) = sizes[i as usize / n];
        let mut steps = shown[i as usize % n].clone();
        for (w2, h2) in &sizes {
            steps.push(Step::Resize(*w2, *h2));
            steps.push(Step::Resize(w, h));
        }
        drive(w, h, &steps, run)
    })
    .confirmed(1)
}

/// The sizes a count can have: all the small ones, and those around the powers of two.
fn counts(all_to: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all_to).collect();
    let mut p = 8;
    while p <= most {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([99, 100, 101, 999, 1000, 1001]);
    v.retain(|n| *n <= most + 1);
    v.sort();
    v.dedup();
    v
}

fn letters(n: usize) -> String {
    "abcdéfghij日klmnopqrstuvwxyz".chars().cycle().take(n).collect()
}

/// Windows of every width and of every height.
fn windows(tier: Tier) -> impl Space {
    let (widest, tallest) = tier.pick((140, 80), (600, 300));
    let mut sizes: Vec<(usize, usize)> = (1..=widest).map(|w| (w, 3)).collect();
    sizes.extend((1..=tallest).map(|h| (13, h)));
    sizes.extend([(255, 60), (256, 60), (257, 60), (300, 80), (512, 20), (1000, 2)]);
    space("windows of all sizes", sizes.len() as u64, move |i, run| {
        let (w, h) = sizes[i as usize];
        let all: Vec<Value> = (0..h + 2).map(|k| text(&letters((w + 2).saturating_sub(k % 4)))).collect();
        let entries: Vec<Value> =
            all.iter().map(|t| json!({"value": "v", "text": t, "description": null})).collect();
        let mut steps = vec![
            Step::Message("view", json!([item("b", 1, h, vec![json!({"first_line_num": 1, "lines": all})])])),
            Step::Message("view", json!([item(&letters(w - w.min(8)), 1, 1, vec![lens(&[4; 2])]), item(&letters(w), 1, 1, vec![])])),
        ];
        // little in much room
        for (e, t) in [("", "s"), ("e", "st"), ("", ""), ("ec", "")] {
            steps.push(Step::Message("status", json!([{"index": 0, "text": text(t)}])));
            steps.push(Step::Message("echo", text(e)));
        }
        steps.push(Step::Message("menu", menu("t", "s", 2)));
        steps.push(Step::Key(Key::Esc));
        steps.push(Step::Message("view", json!([item("b", 1, 1, vec![lens(&[3, 0])]), item("日", 2, 2, vec![lens(&[1])])])));
        steps.push(Step::Message("hint", json!({"text": [text("hint")]})));
        for n in [w.saturating_sub(2), w - 1, w, w + 1] {
            steps.push(Step::Message("status", json!([{"index": 0, "text": text(&letters(n))}])));
            steps.push(Step::Message("echo", text(&letters(n / 2))));
        }
        for n in [w.saturating_sub(2), w - 1, w, w + 1] {
            steps.push(Step::Message("echo", text(&letters(n))));
            steps.push(Step::Message("hint", json!({"text": [text(&letters(n)), text("x")]})));
        }
        for n in [h.saturating_sub(2), h - 1, h, h + 1] {
            steps.push(Step::Message("view", json!([])));
            steps.push(Step::Message("hint", json!({"text": all[..n]})));
        }
        for n in [h.saturating_sub(2), h - 1, h, h + 1] {
            let m = json!({"command": "c", "title": letters(n), "search": letters(w), "entries": entries[..n]});
            steps.push(Step::Message("menu", m));
            steps.extend(vec![Step::Key(Key::Down); n.min(4)]);
        }
        drive(w, h, &steps, run)
    })
    .confirmed(1)
}

/// Menus of all lengths, the selection moved along all of it and back.
fn long_menus(tier: Tier) -> impl Space {
    let ns = counts(tier.pick(20, 70), tier.pick(260, 2100));
    space("menus of all lengths", ns.len() as u64 * 2, move |i, run| {
        let n = ns[i as usize / 2];
        let (w, h) = [(20, 5), (11, 40)][i as usize % 2];
        let m = Step::Message("menu", menu("title", &letters(n), n));
        let down = n.min(70) + 1;
        let mut steps = vec![m.clone(), Step::Key(Key::Char('x')), Step::Key(Key::Backspace)];
        steps.extend(vec![Step::Key(Key::Down); down]);
        steps.push(Step::Resize(w, h + 3));
        steps.extend(vec![Step::Key(Key::Up); down + 1]);
        steps.push(Step::Key(Key::Down));
        steps.push(Step::Key(Key::Enter));
        steps.push(Step::Resize(w, h));
        steps.push(m.clone());
        // to the very last one, without looking in between
        drive(w, h, &steps, run)?;
        let mut t = Tui::start(w, h, &[])?;
        let mut model = Model::new(w, h);
        t.apply(&mut model, &m)?;
        t.settle(&model, &[])?;
        run.step(format!("{} times down, and enter", n + 1));
        for _ in 0..=n {
            t.apply(&mut model, &Step::Key(Key::Down))?;
            t.take();
        }
        t.settle(&model, &[])?;
        let expected = t.apply(&mut model, &Step::Key(Key::Enter))?;
        t.settle(&model, &expected)
    })
    .confirmed(1)
}

/// Views, statuses and hints of all sizes, and buffers of all numbers of lines.
fn sizes(tier: Tier) -> impl Space {
    let ns = counts(tier.pick(24, 80), tier.pick(1030, 8200));
    let kinds = 8;
    let numbers: Vec<u64> = (0..19)
        .flat_map(|p| {
            let p = 10u64.pow(p);
            [p - 1, p, p + 1]
        })
        .collect();
    space("contents of all sizes", kinds + 1, move |kind, run| {
        let mut steps = vec![Step::Message("view", views()[3].clone())];
        if kind == kinds {
            for a in &numbers {
                steps.push(Step::Message("view", json!([{"buffer": "b", "start": a, "end": a, "lenses": [{"first_line_num": a, "lines": [text("x")]}]}])));
                steps.push(Step::Message("status", json!([{"index": a, "text": text("x")}])));
            }
        }
        for n in ns.iter().copied() {
            let long = text(&letters(n));
            let parts: Vec<Value> = letters(n)
                .chars()
                .enumerate()
                .map(|(k, c)| json!({"text": c.to_string(), "face": (["Default", "Selection", "Match", "Error"][k % 4])}))
                .collect();
            steps.push(match kind {
                0 => Step::Message("view", json!([item("b", 1, 1, vec![json!({"first_line_num": 1, "lines": [long, [], long]})])])),
                1 => Step::Message("view", json!([item("b", 1, 1, vec![json!({"first_line_num": 1, "lines": [parts, long, parts]})])])),
                2 => Step::Message("view", json!([item(&letters(n), 1, n, vec![lens(&vec![1; n])]), item("last", 1, 1, vec![lens(&[2])])])),
                3 => Step::Message("view", Value::Array((0..n).map(|k| item("b", k, n, vec![lens(&[1]); k % 3])).collect())),
                4 => Step::Message("status", Value::Array((0..n).map(|k| json!({"index": k, "text": text(&letters(k % 5))})).collect())),
                5 => Step::Message("echo", Value::Array(parts)),
                6 => Step::Message("hint", json!({"text": vec![text("ab"); n]})),
                _ => Step::Message("menu", json!({"command": letters(n), "title": letters(n), "search": "", "entries": [
                    {"value": letters(n), "text": parts, "description": letters(n)},
                    {"value": "x", "text": long, "description": null},
                ]})),
            });
            if kind == 7 {
                steps.push(Step::Key(Key::Char('z')));
                steps.push(Step::Key(Key::Enter));
            }
        }
        drive(tier.pick(36, 70), 30, &steps, run)
    })
    .confirmed(1)
}

/// Every character as a key, on its own and with a modifier.
fn every_key(tier: Tier) -> impl Space {
    let most = tier.pick(0x250u32, 0x3000);
    let mut keys: Vec<Key> = vec![];
    let odd = [0x301, 0x20ac, 0x3042, 0x65e5, 0xac00, 0xfeff, 0xfffd, 0x1f600, 0x1f1eb, 0x20000, 0x10fffd];
    for c in (0x20..most).chain(odd).filter_map(char::from_u32).filter(|c| !c.is_control()) {
        keys.push(Key::Char(c));
        // alt and these starts a longer sequence
        if c.is_ascii() && c != '[' && c != 'O' {
            keys.push(Key::Alt(c));
        }
    }
    keys.retain(|k| !matches!(k, Key::Char('q') | Key::Alt('q')));
    keys.extend(('a'..='z').filter(|c| !"ijmqx".contains(*c)).map(Key::Ctrl));
    let part = 40;
    let parts = (keys.len() + part - 1) / part;
    space("every character", parts as u64 * 2, move |i, run| {
        let from = i as usize / 2 * part;
        let mut steps = vec![];
        if i % 2 == 1 {
            steps.push(Step::Message("menu", menu("title", "sé", 3)));
        }
        steps.extend(keys[from..(from + part).min(keys.len())].iter().cloned().map(Step::Key));
        drive(20, 5, &steps, run)
    })
    .confirmed(1)
}

/// Any two of the usual events, many times over.
fn repeated(tier: Tier) -> impl Space {
    let all = usual();
    let n = all.len() as u64;
    let times = tier.pick(5, 40);
    space("any two events again and again", n * n, move |i, run| {
        let pair = [all[(i / n) as usize].clone(), all[(i % n) as usize].clone()];
        let steps: Vec<Step> = pair.iter().cycle().take(2 * times).cloned().collect();
        drive(20, 5, &steps, run)
    })
    .confirmed(1)
}

fn sequences(name: &'static str, w: usize, h: usize, alphabet: Vec<Step>, depth: u32) -> impl Space {
    let n = alphabet.len();
    space(name, seqs(n, depth), move |i, run| {
        let steps: Vec<Step> = decode_seq(i, n, depth).into_iter().map(|k| alphabet[k].clone()).collect();
        drive(w, h, &steps, run)
    })
    .confirmed(1)
}

fn usual() -> Vec<Step> {
    use Step::{Garbage, Message, Resize};
    let mut v = vec![
        Message("view", views()[40].clone()),
        Message("view", json!([])),
        Message("echo", echoes(5)),
        Message("echo", json!([])),
        Message("status", statuses(&[2, 1])),
        Message("hint", hints(2, 1)),
        Message("menu", menu("title", "sé", 3)),
        Message("menu", menu("none", "", 0)),
        Message("menu", prompt()),
        Message("info", json!({"client": "1", "session": "s", "cwd": "/"})),
        Message("unknown", json!({})),
        Garbage(b"garbage"),
        Garbage(b"\xff\xfe"),
        Resize(9, 3),
        Resize(30, 7),
    ];
    for k in [
        Key::Esc,
        Key::Enter,
        Key::Up,
        Key::Down,
        Key::Backspace,
        Key::Char('a'),
        Key::Char('é'),
        Key::Char('A'),
        Key::Char('q'),
        Key::Ctrl('f'),
        Key::Ctrl('p'),
        Key::Ctrl('v'),
        Key::Ctrl('d'),
        Key::Ctrl('e'),
        Key::Alt('x'),
        Key::Other(b"\t"),
        Key::Other(b"\x1b[C"),
        Key::Other(b"\x1b[3~"),
    ] {
        v.push(Step::Key(k));
    }
    v
}

/// Control characters: what the screen looks like is up to the terminal, but the client goes on.
fn control_characters() -> impl Space {
    let odd = ["a\tb", "a\nb", "\r", "\x1b[2J", "\u{7}", "\u{85}", "a\u{200d}", "\u{301}x", "\u{202e}abc", "\0"];
    let sizes = [(1, 1), (3, 2), (20, 5)];
    space("control characters", (odd.len() * sizes.len()) as u64, move |i, run| {
        let s = odd[i as usize % odd.len()];
        let (w, h) = sizes[i as usize / odd.len()];
        let mut t = Tui::start(w, h, &[])?;
        let mut m = Model::new(w, h);
        let entry = json!({"value": s, "text": text(s), "description": s});
        for (method, p) in [
            ("view", json!([item(s, 1, 1, vec![json!({"first_line_num": 1, "lines": [text(s), text(s)]})])])),
            ("echo", text(s)),
            ("status", json!([{"index": 1, "text": text(s)}])),
            ("hint", json!({"text": [text(s)]})),
            ("menu", json!({"command": s, "title": s, "search": s, "entries": [entry]})),
        ] {
            run.step(format!("{} with {:?}", method, s));
            t.apply(&mut m, &Step::Message(method, p))?;
            m.garbled = true;
            t.settle(&m, &[])?;
        }
        // and draws well again
        for step in [Step::Key(Key::Esc), Step::Message("status", json!([])), Step::Message("echo", json!([])), Step::Message("view", views()[3].clone())] {
            run.step(step.show());
            t.apply(&mut m, &step)?;
        }
        t.settle(&m, &[])
    })
    .confirmed(1)
}

/// Many messages and keys without waiting.
fn bursts() -> impl Space {
    let all = usual();
    let n = all.len() as u64;
    space("bursts", n * 2, move |i, run| {
        let (w, h) = [(20, 6), (3, 2)][(i / n) as usize];
        let mut t = Tui::start(w, h, &[])?;
        let mut m = Model::new(w, h);
        t.apply(&mut m, &Step::Message("view", json!([])))?;
        t.settle(&m, &[])?;
        let mut expected = vec![];
        let one = &all[(i % n) as usize];
        run.step(format!("300 times {}", one.show()));
        let lone = matches!(one, Step::Key(Key::Esc));
        for k in 0..300 {
            if lone && k > 0 {
                // several in a row are one key with a modifier
                break;
            }
            expected.extend(t.apply(&mut m, one)?);
            if k % 50 == 0 {
                t.take();
            }
        }
        // what is drawn meanwhile depends on the pace, the end does not
        m.garbled = true;
        t.settle(&m, &expected)?;
        m.garbled = false;
        if m.menu.is_some() {
            t.apply(&mut m, &Step::Key(Key::Esc))?;
        }
        run.step("a view");
        t.apply(&mut m, &Step::Message("view", views()[45].clone()))?;
        t.settle(&m, &[])
    })
    .confirmed(1)
}

/// Leaving, or being left by the server, in any situation; files on the command line.
fn ends() -> impl Space {
    let before: Vec<Vec<Step>> = vec![
        vec![],
        vec![Step::Message("view", views()[12].clone())],
        vec![Step::Message("menu", menu("t", "", 3))],
        vec![Step::Message("menu", menu("t", "", 3)), Step::Key(Key::Esc)],
        vec![Step::Message("hint", hints(3, 0)), Step::Resize(4, 2)],
        vec![Step::Garbage(b"x")],
    ];
    let n = before.len() as u64;
    let ways = 8;
    space("ends", n * ways + 2, move |i, run| {
        if i >= n * ways {
            let files: &[&str] = [&["f1"][..], &["é f", "-", "f1"][..]][(i - n * ways) as usize];
            run.step(format!("files {:?}", files));
            let files: Vec<&str> = files.iter().copied().filter(|f| *f != "-").collect();
            let mut t = Tui::start(20, 5, &files)?;
            let mut m = Model::new(20, 5);
            let expected: Vec<Value> = files
                .iter()
                .flat_map(|f| m.request("edit", json!({"name": f, "scratch": false})))
                .collect();
            return t.settle(&m, &expected);
        }
        let mut t = Tui::start(20, 6, &[])?;
        let mut m = Model::new(20, 6);
        t.apply(&mut m, &Step::Message("view", json!([])))?;
        t.settle(&m, &[])?;
        for s in &before[(i / ways) as usize] {
            run.step(s.show());
            let expected = t.apply(&mut m, s)?;
            t.settle(&m, &expected)?;
        }
        if i % ways == 0 {
            if m.menu.is_some() {
                // q is a part of the search there
                let step = Step::Key(Key::Alt('q'));
                run.step(step.show());
                let expected = t.apply(&mut m, &step)?;
                t.settle(&m, &expected)?;
                t.apply(&mut m, &Step::Key(Key::Esc))?;
                t.settle(&m, &[])?;
            }
            run.step("alt-q");
            (&t.master).write_all(b"\x1bq").unwrap();
        } else if i % ways == 1 {
            run.step("the server ends");
            let _ = t.server.shutdown(std::net::Shutdown::Both);
        } else {
            // all of it is there when the client runs again
            let keys = ["", "a", "ab", "abcdefgh"][(i % ways / 2) as usize];
            let last = i % ways % 2 == 1;
            run.step(format!("at the same time: keys {:?}, the end of the server, {}", keys, if last { "a view" } else { "no view" }));
            let pid = t.child.id() as i32;
            unsafe { libc::kill(pid, libc::SIGSTOP) };
            while t.waiting_state() != Some('T') {
                std::thread::sleep(Duration::from_micros(100));
            }
            (&t.master).write_all(keys.as_bytes()).unwrap();
            if last {
                t.apply(&mut m, &Step::Message("view", views()[12].clone()))?;
            }
            let _ = t.server.shutdown(std::net::Shutdown::Both);
            let at = Instant::now();
            let mut unread = 0;
            while unread < keys.len() as i32 && at.elapsed() < Duration::from_secs(5) {
                unsafe { libc::ioctl(t.slave.as_raw_fd(), libc::FIONREAD, &mut unread) };
            }
            unsafe { libc::kill(pid, libc::SIGCONT) };
        }
        t.ended()
    })
    .confirmed(1)
}

pub fn c22(tier: Tier) -> Check {
    let menus = vec![
        Step::Message("menu", menu("title", "sé", 3)),
        Step::Message("menu", menu("none", "", 0)),
        Step::Message("menu", prompt()),
        Step::Message("view", views()[30].clone()),
        Step::Key(Key::Up),
        Step::Key(Key::Down),
        Step::Key(Key::Enter),
        Step::Key(Key::Esc),
        Step::Key(Key::Backspace),
        Step::Key(Key::Char('x')),
        Step::Resize(6, 3),
    ];
    let disturbed = vec![
        Step::Message("menu", menu("title", "sé", 3)),
        Step::Message("view", views()[30].clone()),
        Step::Message("echo", echoes(5)),
        Step::Message("hint", hints(2, 1)),
        Step::Key(Key::Down),
        Step::Key(Key::Enter),
        Step::Key(Key::Esc),
        Step::Resize(16, 6),
    ];
    Check::new("C22")
        .space(sequences("menus disturbed", 20, 5, disturbed, tier.pick(4, 5)))
        .space(contents(tier))
        .space(resizes(tier))
        .space(windows(tier))
        .space(long_menus(tier))
        .space(sizes(tier))
        .space(every_key(tier))
        .space(repeated(tier))
        .space(sequences("messages, keys and windows", 20, 5, usual(), tier.pick(2, 3)))
        .space(sequences("menus", 12, 4, menus, tier.pick(4, 5)))
        .space(control_characters())
        .space(bursts())
        .space(ends())
        .assume("the terminal shows a user-perceived character in one cell, and follows the ECMA-48 control sequences")
        .assume("ctrl-x, which makes the client panic on purpose, is not pressed")
        .assume("what the screen looks like after control characters in a text is not specified, only that the client goes on")
}
