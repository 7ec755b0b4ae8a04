//! C11: the client event loop, the client readers and the broadcast and writer tasks run on a
//! hand-driven executor, over every order of client actions and every placement of scheduler
//! steps up to a number of deviations.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::io::{self, Read, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

use async_channel::{unbounded, Receiver};
use async_executor::LocalExecutor;
use ced::editor::Editor;
use ced::server::{verif, BroadcastMessage};
use remote::ServerStream;

use crate::fw::*;
use crate::{ensure, ensure_eq};

/// What a client does.
#[derive(Clone, Debug, PartialEq)]
enum Act {
    Join,
    /// connects, with little room for what it does not read
    JoinDeaf,
    Write(Vec<u8>),
    /// ends its requests, still reading
    Shut,
    /// is gone
    Close,
}
use Act::*;

/// What the scheduler does after an action.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sched {
    Nothing,
    Read,
    ReadLoop,
    ReadLoopTick,
    Idle,
    TickOnly,
}
const FEW: &[Sched] = &[Sched::Nothing, Sched::Idle, Sched::ReadLoop];
const ALL: &[Sched] = &[
    Sched::Nothing,
    Sched::Idle,
    Sched::Read,
    Sched::ReadLoop,
    Sched::ReadLoopTick,
    Sched::TickOnly,
];

struct Client {
    peer: Option<UnixStream>,
    reader: Option<Pin<Box<dyn Future<Output = io::Result<()>>>>>,
    /// written by the client, not read by the server yet
    pending: Vec<u8>,
    eof: bool,
    deaf: bool,
    got: Vec<u8>,
    /// closed by the server
    hung_up: bool,
}

/// Events as the server should see them.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ev {
    Join(usize),
    Line(usize, String),
    Leave(usize),
}

/// What the server should do, event by event, with an editor of its own.  Histories are
/// remembered by the worker, as they come back under many schedules.
struct Oracle {
    queue: VecDeque<Ev>,
    history: Vec<Ev>,
    replayed: Option<Replayed>,
    active: Vec<usize>,
    responses: BTreeMap<usize, Vec<String>>,
    notes: BTreeMap<usize, Vec<String>>,
    ended: bool,
}

/// What an event leads to.
#[derive(Clone)]
struct Effect {
    response: Option<String>,
    quit: Vec<usize>,
    /// with the clients which have to see it
    broadcasts: Vec<(Vec<usize>, String)>,
}

thread_local! {
    static EFFECTS: RefCell<HashMap<Vec<Ev>, Effect>> = RefCell::new(HashMap::new());
}

const SESSION: &str = "mc";

/// As many clients as a run has, at most.
const CROWD: usize = 40;

/// An editor which has been through the first events of a history.
struct Replayed {
    editor: Editor,
    notes: Receiver<BroadcastMessage>,
    done: usize,
}

fn effect_of(history: &[Ev], replayed: &mut Option<Replayed>) -> Effect {
    // long ones do not come back
    let remembered = history.len() <= 100;
    if remembered {
        if let Some(e) = EFFECTS.with(|m| m.borrow().get(history).cloned()) {
            return e;
        }
    }
    let r = replayed.get_or_insert_with(|| {
        let (tx, notes) = unbounded();
        Replayed { editor: Editor::new(SESSION, tx), notes, done: 0 }
    });
    let mut effect = None;
    while r.done < history.len() {
        let mut response = None;
        let mut quit = vec![];
        match &history[r.done] {
            Ev::Join(c) => r.editor.add_client(*c),
            Ev::Line(c, line) => {
                response = Some(r.editor.handle(*c, line).expect("response").to_string());
                r.editor.removed_clients();
                // it is the request that says who quits
                let asked: Result<serde_json::Value, _> = serde_json::from_str(line);
                let chosen = serde_json::json!({"command": "", "choice": "quit"});
                if asked.map_or(false, |v| {
                    v.get("id").is_some() && (v["method"] == "quit" || v["method"] == "menu-select" && v["params"] == chosen)
                }) {
                    quit.push(*c);
                }
            }
            Ev::Leave(c) => {
                r.editor.remove_client(*c);
                r.editor.removed_clients();
            }
        }
        r.done += 1;
        let broadcasts = std::iter::from_fn(|| r.notes.try_recv().ok())
            .map(|bm: BroadcastMessage| {
                ((1..=CROWD).filter(|c| bm.should_notify(*c)).collect(), bm.message.to_string())
            })
            .collect();
        effect = Some(Effect { response, quit, broadcasts });
    }
    let effect = effect.expect("a longer history");
    if !remembered {
        return effect;
    }
    EFFECTS.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20000 {
            m.clear();
        }
        m.insert(history.to_vec(), effect.clone())
    });
    effect
}

impl Oracle {
    fn new() -> Oracle {
        Oracle {
            queue: VecDeque::new(),
            history: vec![],
            replayed: None,
            active: vec![],
            responses: BTreeMap::new(),
            notes: BTreeMap::new(),
            ended: false,
        }
    }

    fn run(&mut self) {
        while !self.ended {
            let ev = match self.queue.pop_front() {
                Some(ev) => ev,
                None => return,
            };
            if let Ev::Line(c, _) = &ev {
                if !self.active.contains(c) {
                    continue;
                }
            }
            self.history.push(ev.clone());
            let effect = effect_of(&self.history, &mut self.replayed);
            match &ev {
                Ev::Join(c) => {
                    self.active.push(*c);
                    self.responses.insert(*c, vec![]);
                    self.notes.insert(*c, vec![]);
                }
                Ev::Line(c, _) => self.responses.get_mut(c).unwrap().push(effect.response.unwrap()),
                Ev::Leave(c) => self.active.retain(|a| a != c),
            }
            for (clients, text) in effect.broadcasts {
                for c in &self.active {
                    if clients.contains(c) {
                        self.notes.get_mut(c).unwrap().push(text.clone());
                    }
                }
            }
            self.active.retain(|a| !effect.quit.contains(a));
            if matches!(ev, Ev::Leave(_)) && self.active.is_empty() {
                self.ended = true;
            }
        }
    }
}

type MainLoop<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

struct World<'a> {
    ex: Arc<LocalExecutor<'a>>,
    events: verif::Events,
    main: Option<MainLoop<'a>>,
    clients: BTreeMap<usize, Client>,
    oracle: Oracle,
    ids: BTreeMap<usize, usize>,
}

fn socket_pair(deaf: bool) -> (UnixStream, ServerStream) {
    let (peer, server) = UnixStream::pair().unwrap();
    peer.set_nonblocking(true).unwrap();
    if deaf {
        let size: libc::c_int = 4096;
        unsafe {
            libc::setsockopt(
                server.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_SNDBUF,
                &size as *const _ as *const libc::c_void,
                std::mem::size_of_val(&size) as u32,
            );
        }
    }
    let stream = async_net::unix::UnixStream::try_from(server).unwrap();
    (peer, ServerStream::Socket(stream))
}

impl<'a> World<'a> {
    fn new() -> World<'a> {
        let ex = Arc::new(LocalExecutor::new());
        let (events, main) = verif::event_loop(ex.clone(), SESSION);
        World {
            ex,
            events,
            main: Some(Box::pin(main)),
            clients: BTreeMap::new(),
            oracle: Oracle::new(),
            ids: BTreeMap::new(),
        }
    }

    fn act(&mut self, who: usize, act: &Act) {
        match act {
            Join | JoinDeaf => {
                let id = self.ids.len() + 1;
                self.ids.insert(who, id);
                let deaf = *act == JoinDeaf;
                let (peer, stream) = socket_pair(deaf);
                self.events.join(id, stream.clone());
                let reader = self.events.reader(id, stream);
                self.oracle.queue.push_back(Ev::Join(id));
                self.clients.insert(
                    id,
                    Client {
                        peer: Some(peer),
                        reader: Some(Box::pin(reader)),
                        pending: vec![],
                        eof: false,
                        deaf,
                        got: vec![],
                        hung_up: false,
                    },
                );
            }
            Write(bytes) => {
                let id = self.ids[&who];
                let c = self.clients.get_mut(&id).unwrap();
                // every client names itself in its requests
                let mut bytes = bytes.clone();
                bytes.iter_mut().filter(|b| **b == b'@').for_each(|b| *b = b'0' + id as u8);
                c.peer.as_mut().unwrap().write_all(&bytes).unwrap();
                c.pending.extend_from_slice(&bytes);
            }
            Shut => {
                let c = self.clients.get_mut(&self.ids[&who]).unwrap();
                c.peer.as_mut().unwrap().shutdown(std::net::Shutdown::Write).unwrap();
                c.eof = true;
            }
            Close => {
                let c = self.clients.get_mut(&self.ids[&who]).unwrap();
                c.peer = None;
                c.eof = true;
            }
        }
    }

    fn read(&mut self, id: usize) -> Result<(), Violation> {
        let c = self.clients.get_mut(&id).unwrap();
        let reader = match c.reader.as_mut() {
            Some(r) => r,
            None => return Ok(()),
        };
        let mut cx = Context::from_waker(Waker::noop());
        let done = reader.as_mut().poll(&mut cx).is_ready();
        while let Some(i) = c.pending.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = c.pending.drain(..=i).collect();
            let text = String::from_utf8_lossy(&line[..i]).into_owned();
            self.oracle.queue.push_back(Ev::Line(id, text));
        }
        if c.eof {
            if !c.pending.is_empty() {
                let text = String::from_utf8_lossy(&c.pending).into_owned();
                c.pending.clear();
                self.oracle.queue.push_back(Ev::Line(id, text));
            }
            self.oracle.queue.push_back(Ev::Leave(id));
        }
        ensure_eq!(done, c.eof, "reader of client {} ended", id);
        if done {
            c.reader = None;
        }
        Ok(())
    }

    fn main(&mut self) -> Result<(), Violation> {
        let main = match self.main.as_mut() {
            Some(m) => m,
            None => return Ok(()),
        };
        let mut cx = Context::from_waker(Waker::noop());
        let done = main.as_mut().poll(&mut cx) == Poll::Ready(());
        self.oracle.run();
        if done {
            ensure!(self.oracle.ended, "the server ended with clients {:?}", self.oracle.active);
            self.main = None;
        }
        Ok(())
    }

    /// Runs one step of a task, which there are only as long as the server runs.
    fn tick(&mut self) -> bool {
        self.main.is_some() && self.ex.try_tick()
    }

    fn ticks(&mut self) {
        while self.tick() {}
    }

    fn sched(&mut self, who: usize, s: Sched) -> Result<(), Violation> {
        let id = self.ids[&who];
        if s == Sched::TickOnly {
            self.tick();
            return Ok(());
        }
        if s == Sched::Nothing {
            return Ok(());
        }
        self.read(id)?;
        if s == Sched::Read {
            return Ok(());
        }
        self.main()?;
        match s {
            Sched::ReadLoopTick => {
                self.tick();
            }
            Sched::Idle => self.ticks(),
            _ => {}
        }
        Ok(())
    }

    /// Runs everything until nothing more happens.
    fn settle(&mut self) -> Result<(), Violation> {
        for id in self.clients.keys().copied().collect::<Vec<_>>() {
            if self.main.is_some() {
                self.read(id)?;
            }
        }
        for _ in 0..4 {
            self.main()?;
            self.ticks();
        }
        Ok(())
    }

    fn collect(&mut self, deaf_too: bool) {
        for c in self.clients.values_mut() {
            if c.deaf && !deaf_too {
                continue;
            }
            if let Some(p) = c.peer.as_mut() {
                let mut buf = [0u8; 65536];
                loop {
                    match p.read(&mut buf) {
                        Ok(0) => {
                            c.hung_up = true;
                            break;
                        }
                        Ok(n) => c.got.extend_from_slice(&buf[..n]),
                        Err(_) => break,
                    }
                }
            }
        }
    }

    fn check_clients(&self, deaf_too: bool) -> Result<(), Violation> {
        for (id, c) in &self.clients {
            if c.peer.is_none() || (c.deaf && !deaf_too) || !self.oracle.responses.contains_key(id) {
                continue;
            }
            let mut responses = vec![];
            let mut notes = vec![];
            if !c.got.is_empty() {
                ensure!(c.got.ends_with(b"\n"), "client {} got a partial line", id);
            }
            for l in String::from_utf8(c.got.clone()).unwrap().lines() {
                let v: serde_json::Value = match serde_json::from_str(l) {
                    Ok(v) => v,
                    Err(_) => return fail(format!("client {} got a broken line {:?}", id, l)),
                };
                if v.get("method").is_some() {
                    notes.push(l.to_owned());
                } else {
                    responses.push(l.to_owned());
                }
            }
            ensure_eq!(responses, self.oracle.responses[id], "responses to client {}", id);
            let expected = &self.oracle.notes[id];
            if self.oracle.active.contains(id) {
                ensure_eq!(&notes, expected, "notifications of client {}", id);
            } else {
                // gone: what came later does not reach it
                ensure!(
                    notes.len() <= expected.len() && notes == expected[..notes.len()],
                    "notifications of the gone client {}: {:?} are not a beginning of {:?}",
                    id,
                    notes,
                    expected
                );
            }
        }
        Ok(())
    }

    fn satisfied(&self, deaf_too: bool) -> bool {
        let size = |lines: &[String]| lines.iter().map(|l| l.len() + 1).sum::<usize>();
        for (id, c) in &self.clients {
            if c.peer.is_some()
                && (deaf_too || !c.deaf)
                && self.oracle.active.contains(id)
                && c.got.len() < size(&self.oracle.responses[id]) + size(&self.oracle.notes[id])
            {
                return false;
            }
        }
        self.check_clients(deaf_too).is_ok() && self.main.is_some() != self.oracle.ended
    }

    fn finish(&mut self) -> Result<(), Violation> {
        self.settle()?;
        self.catch_up(false)?;
        // those which did not read start to
        self.catch_up(true)?;
        // everybody leaves
        for c in self.clients.values_mut() {
            c.peer = None;
            c.eof = true;
        }
        self.settle()?;
        ensure!(self.oracle.ended, "oracle: clients {:?} left", self.oracle.active);
        self.catch_up(true)?;
        Ok(())
    }

    /// Waits for the system to report room in the sockets.
    fn catch_up(&mut self, deaf_too: bool) -> Result<(), Violation> {
        let t = Instant::now();
        loop {
            self.main()?;
            self.ticks();
            self.collect(deaf_too);
            if self.satisfied(deaf_too) {
                return Ok(());
            }
            if t.elapsed() > Duration::from_secs(10) {
                self.check_clients(deaf_too)?;
                ensure_eq!(self.main.is_none(), self.oracle.ended, "the server ended");
                return Ok(());
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
}

fn req(id: usize, method: &str, params: serde_json::Value) -> String {
    serde_json::json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string()
}

fn line(s: String) -> Vec<u8> {
    (s + "\n").into_bytes()
}

fn say(n: usize, k: usize) -> Vec<u8> {
    let id = n * 10 + k;
    line(req(id, "exec", serde_json::json!(format!("editor:message(@, 'm{}')", id))))
}

fn own(n: usize, k: usize) -> Vec<u8> {
    let id = n * 10 + k;
    line(req(id, "view", serde_json::json!("none")))
}

/// A notification too big to be sent at once.
fn big(n: usize, k: usize) -> Vec<u8> {
    let script = "editor:show_hint(@, {string.rep('x', 9000)})";
    line(req(n * 10 + k, "exec", serde_json::json!(script)))
}

fn quit(n: usize, k: usize) -> Vec<u8> {
    line(serde_json::json!({"jsonrpc": "2.0", "id": n * 10 + k, "method": "quit"}).to_string())
}

fn listen(n: usize, k: usize) -> Vec<u8> {
    line(req(n * 10 + k, "edit", serde_json::json!({"name": "*messages*", "scratch": true})))
}

const PROGRAMS: usize = 13;

fn program(p: usize, n: usize) -> Vec<Act> {
    let cat = |a: Vec<u8>, b: Vec<u8>| [a, b].concat();
    match p {
        0 => vec![Join, Write(say(n, 1)), Write(own(n, 2)), Shut],
        1 => vec![Join, Write(listen(n, 1))],
        2 => vec![Join, Write(quit(n, 1)), Write(say(n, 2)), Close],
        3 => vec![Join, Write(cat(quit(n, 1), say(n, 2)))],
        4 => vec![Join, Write(say(n, 1)), Close],
        5 => vec![Join, Close],
        6 => vec![JoinDeaf, Write(big(n, 1)), Write(say(n, 2))],
        7 => vec![JoinDeaf, Write(big(n, 1)), Close],
        8 => {
            let text = say(n, 1);
            let (a, b) = text.split_at(text.len() / 2);
            vec![Join, Write(a.to_vec()), Write(cat(b.to_vec(), own(n, 2)))]
        }
        9 => vec![Join, Write(b"garbage\n\n".to_vec()), Write(cat(b"\xff\n".to_vec(), say(n, 1)))],
        10 => {
            let mut text = say(n, 1);
            text.pop();
            vec![Join, Write(text), Shut]
        }
        11 => vec![Join, Write(cat(listen(n, 1), say(n, 2))), Write(quit(n, 3)), Shut],
        // quits by the menu
        12 => {
            let menu = req(n * 10 + 1, "menu", serde_json::json!({"command": "", "search": ""}));
            let choice = req(n * 10 + 2, "menu-select", serde_json::json!({"command": "", "choice": "quit"}));
            vec![Join, Write(cat(line(menu), line(choice))), Write(say(n, 3))]
        }
        _ => unreachable!(),
    }
}

/// All orders of the actions of the clients, each in its own order.
fn interleavings(lens: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

/// All schedules with at most `dev` steps different from the default one.
fn schedules(len: usize, steps: &[Sched], dev: usize) -> Vec<Vec<Sched>> {
    let mut out: Vec<Vec<Sched>> = vec![];
    for default in [Sched::Nothing, Sched::Idle] {
        fn go(
            at: usize,
            steps: &[Sched],
            dev: usize,
            default: Sched,
            cur: &mut Vec<Sched>,
            out: &mut Vec<Vec<Sched>>,
        ) {
            if at == cur.len() {
                out.push(cur.clone());
                return;
            }
            go(at + 1, steps, dev, default, cur, out);
            if dev > 0 {
                for s in steps {
                    if *s != default {
                        cur[at] = *s;
                        go(at + 1, steps, dev - 1, default, cur, out);
                    }
                }
                cur[at] = default;
            }
        }
        go(0, steps, dev, default, &mut vec![default; len], &mut out);
    }
    out
}

fn simulate(progs: &[Vec<Act>], order: &[usize], scheds: &[Sched], run: &mut Run) -> Result<(), Violation> {
    let mut world = World::new();
    let mut at = vec![0; progs.len()];
    for (who, sched) in order.iter().zip(scheds) {
        if world.main.is_none() {
            break;
        }
        let act = &progs[*who][at[*who]];
        at[*who] += 1;
        let shown = match act {
            Write(b) => format!("write {:?}", String::from_utf8_lossy(&b[..b.len().min(120)])),
            a => format!("{:?}", a),
        };
        run.step(format!("{}: {}; {:?}", who, shown, sched));
        world.act(*who, act);
        world.sched(*who, *sched)?;
        run.state(&(
            &at,
            world.oracle.active.clone(),
            world.oracle.queue.len(),
            world.oracle.notes.values().map(|n| n.len()).collect::<Vec<_>>(),
        ));
    }
    world.finish()
}

/// The clients run the programs `sets[i]`.
fn interleaved(
    name: &str,
    sets: Vec<Vec<usize>>,
    steps: &'static [Sched],
    dev: usize,
) -> impl Space {
    let mut bounds: Vec<(Vec<usize>, usize)> = vec![];
    for set in sets {
        let lens: Vec<usize> = set.iter().enumerate().map(|(n, p)| program(*p, n + 1).len()).collect();
        for k in 0..interleavings(&lens).len() {
            bounds.push((set.clone(), k));
        }
    }
    let len = bounds.len() as u64;
    space(name, len, move |i, run| {
        let (set, k) = &bounds[i as usize];
        let progs: Vec<_> = set.iter().enumerate().map(|(n, p)| program(*p, n + 1)).collect();
        let lens: Vec<usize> = progs.iter().map(|p| p.len()).collect();
        let order = &interleavings(&lens)[*k];
        for scheds in schedules(order.len(), steps, dev) {
            run.trace.clear();
            run.note(format!("programs {:?}, order {:?}", set, order));
            run.count("schedules", 1);
            simulate(&progs, order, &scheds, run)?;
        }
        Ok(())
    })
}

/// The requests of a client arrive in three parts, cut anywhere.
fn torn(name: &str, step: u64) -> impl Space {
    let mut text = say(1, 1);
    text.extend(b"\n\xff\xfe{}\n");
    text.extend(own(1, 2));
    text.extend("{\"méthode\": 1}".as_bytes());
    let n = text.len() as u64;
    space(name, n * n, move |i, run| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        if a > b || (step > 1 && a != b && (a as u64 % step != 0 || b as u64 % step != 0)) {
            return Ok(());
        }
        let progs = vec![
            vec![
                Join,
                Write(text[..a].to_vec()),
                Write(text[a..b].to_vec()),
                Write(text[b..].to_vec()),
                Shut,
            ],
            vec![Join, Write(listen(2, 1))],
        ];
        run.note(format!("cuts {} {}", a, b));
        for scheds in [[Sched::Read; 7], [Sched::Idle; 7]] {
            simulate(&progs, &[1, 1, 0, 0, 0, 0, 0], &scheds, run)?;
        }
        Ok(())
    })
}

/// Many clients at once, which come and go in all the ways of `orders`.
fn crowd(name: &str, max: usize) -> impl Space {
    // how many, who leaves first, and what they do before
    space(name, (max * 3 * 3) as u64, move |i, run| {
        let (n, leave, what) = (i as usize / 9 + 1, i as usize / 3 % 3, i as usize % 3);
        let progs: Vec<_> = (1..=n)
            .map(|c| {
                let mut p = vec![Join];
                p.push(match what {
                    0 => Write(say(c, 1)),
                    1 => Write(own(c, 1)),
                    _ if c % 2 == 0 => Write([listen(c, 1), own(c, 2)].concat()),
                    _ => Write(quit(c, 1)),
                });
                p.push(if c % 3 == 0 { Shut } else { Close });
                p
            })
            .collect();
        let mut order: Vec<usize> = (0..n).collect();
        order.extend(0..n);
        match leave {
            0 => order.extend(0..n),
            1 => order.extend((0..n).rev()),
            _ => {
                order.extend((0..n).filter(|c| c % 2 == 0));
                order.extend((0..n).filter(|c| c % 2 == 1));
            }
        }
        for s in [Sched::Idle, Sched::Nothing] {
            run.trace.clear();
            run.note(format!("{} clients", n));
            simulate(&progs, &order, &vec![s; order.len()], run)?;
        }
        Ok(())
    })
}

/// Requests in numbers and sizes, in one piece or many, while another client looks on.
fn conversations(tier: Tier) -> impl Space {
    let ns: Vec<usize> = crate::model::text::sizes(tier).into_iter().filter(|n| *n <= tier.pick(9000, 70_000)).collect();
    let parts = [1usize, 2, 3, 7];
    space("requests in numbers and sizes", (ns.len() * 4 * parts.len()) as u64, move |i, run| {
        let n = ns[i as usize / 4 / parts.len()];
        let (kind, k) = (i as usize / parts.len() % 4, parts[i as usize % parts.len()]);
        let mut bytes = match kind {
            // as many requests
            0 => (0..n.min(300)).flat_map(|j| if j % 2 == 0 { say(1, j) } else { own(1, j) }).collect(),
            // a request as long, its response and what it sends to others
            1 => line(req(1, "view", serde_json::json!("é".repeat(n)))),
            2 => line(req(1, "exec", serde_json::json!(format!("editor:message(2, string.rep('é', {})) editor:message(1, 'x')", n)))),
            _ => line(req(1, "exec", serde_json::json!(format!("editor:append_to('*messages*', string.rep('x\\n', {}))", n)))),
        };
        bytes.extend(say(1, 1000));
        let mut writes = vec![Join];
        writes.extend(bytes.chunks(bytes.len() / k + 1).map(|c| Write(c.to_vec())));
        writes.push(Shut);
        let progs = vec![writes, vec![Join, Write(listen(2, 1)), Write(own(2, 2))]];
        let mut order = vec![1, 1];
        order.extend(vec![0; progs[0].len()]);
        order.push(1);
        for s in [Sched::Idle, Sched::Nothing, Sched::Read] {
            run.trace.clear();
            run.note(format!("kind {}, size {}, {} parts", kind, n, k));
            simulate(&progs, &order, &vec![s; order.len()], run)?;
        }
        Ok(())
    })
}

/// More requests than usual at once, from one client or from two, while another looks on.
fn floods(tier: Tier) -> impl Space {
    let ns: Vec<usize> = crate::model::text::sizes(tier).into_iter().filter(|n| *n > 500 && *n <= tier.pick(9000, 70_000)).collect();
    space("very many requests at once", ns.len() as u64 * 3, move |i, run| {
        let (n, kind) = (ns[i as usize / 3], i % 3);
        let requests = |c: usize| -> Vec<Act> {
            let all: Vec<Vec<u8>> = (0..n).map(|j| if j % 97 == 0 { own(c, j % 10) } else { line(req(j, "keys", serde_json::json!(["l"]))) }).collect();
            let mut v = vec![Join];
            v.extend(all.chunks(500).map(|part| Write(part.concat())));
            v.push(Write(say(c, 1)));
            v
        };
        let mut progs = vec![requests(1), vec![Join, Write(listen(2, 1)), Write(own(2, 2))]];
        let mut order = vec![1, 1];
        match kind {
            0 => order.extend(vec![0; progs[0].len()]),
            _ => {
                progs.push(requests(3));
                order.extend((0..progs[0].len()).flat_map(|_| [0, 2]));
            }
        }
        order.push(1);
        // all are there before the first is handled, or they are handled as they come
        let s = if kind == 2 { Sched::Idle } else { Sched::Read };
        run.note(format!("{} requests", n));
        simulate(&progs, &order, &vec![s; order.len()], run)
    })
}

pub fn c11(tier: Tier) -> Check {
    let mut pairs = vec![];
    for a in 0..PROGRAMS {
        for b in a..PROGRAMS {
            pairs.push(vec![a, b]);
        }
    }
    let mut triples = vec![];
    for a in 0..PROGRAMS {
        for b in a..PROGRAMS {
            for c in b..PROGRAMS {
                let short = [1, 4, 7];
                if tier == Tier::Thorough || [a, b, c].iter().all(|p| short.contains(p)) {
                    triples.push(vec![a, b, c]);
                }
            }
        }
    }
    Check::new("C11")
        .space(interleaved("two clients", pairs, tier.pick(FEW, ALL), tier.pick(1, 2)))
        .space(interleaved("three clients", triples, FEW, tier.pick(0, 1)))
        .space(torn("requests in parts", tier.pick(8, 1)))
        .space(crowd("many clients", tier.pick(24, CROWD)))
        .space(conversations(tier))
        .space(floods(tier))
        .space(super::sessions::identities(tier))
        .assume("sockets of the system deliver what was written to them, in order")
}
