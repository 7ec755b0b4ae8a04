//! C12: session addresses, and the life of sessions on real processes.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::net::{SocketAddr, SocketAddrV4, TcpListener, TcpStream};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Component, Path, PathBuf};
use std::time::{Duration, Instant};

use remote::{start_daemon, ConnectionMode, Session};
use serde_json::{json, Value};

use crate::fw::*;
use crate::real::{self, Program, PATIENCE};
use crate::{ensure, ensure_eq};

// ---- addresses

/// A network address in the plain notations; None: not decided here.
fn plain_address(name: &str) -> Option<SocketAddr> {
    let (host, port) = name.strip_prefix('@')?.rsplit_once(':')?;
    if port.is_empty() || !port.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let port: u16 = port.parse().ok()?;
    let ip = match host {
        "" | "localhost" => "127.0.0.1".parse().unwrap(),
        h => h.parse().ok()?,
    };
    Some(SocketAddr::V4(SocketAddrV4::new(ip, port)))
}

/// Names that look like those of hosts are left to the resolver.
fn needs_resolver(name: &str) -> bool {
    name.starts_with('@')
        && name[1..].contains(':')
        && plain_address(name).is_none()
        && name[1..].split(':').next().map_or(false, |h| !h.is_empty())
}

fn is_file_name(name: &str) -> bool {
    !name.contains('/') && name != "." && name != ".."
}

/// Made of names only.
fn is_plain_path(name: &str) -> bool {
    !name.ends_with('/') && name.split('/').all(|c| c != "." && c != "..")
}

fn names(depth: u32) -> Vec<String> {
    let alphabet = ["a", "@", ":", "1", ".", "-", " ", "é", "=", "/", "B"];
    let mut v = words(&alphabet, depth);
    for host in ["", "127.0.0.1", "1.2.3.4", "0.0.0.0", "255.255.255.255", "localhost", "1.2.3", "a b", "@", "é"] {
        for port in ["", "0", "1", "80", "8888", "65535", "65536", "080", "-1", "+1", "x", " 1", "99999999999999999999"] {
            for prefix in ["@", "", "@@", " @", "x@"] {
                for suffix in ["", " ", ":1", "/", "\n"] {
                    v.push(format!("{}{}:{}{}", prefix, host, port, suffix));
                }
            }
        }
    }
    for s in ["-", "--", "--mode", "--list", "x\ny", "$HOME", "~", "*", "a=b", "\"q\"", "é→😃", "/tmp/ced-x", "12345"] {
        v.push(s.into());
    }
    v.retain(|n| !n.is_empty() && is_plain_path(n) && !needs_resolver(n));
    v.sort();
    v.dedup();
    v
}

fn expected_mode(name: &str) -> ConnectionMode {
    match plain_address(name) {
        Some(a) => ConnectionMode::Tcp(a),
        None => ConnectionMode::Socket(real::sessions().join(name)),
    }
}

fn stub() -> PathBuf {
    let path = scratch().join("stub");
    if !path.exists() {
        let out = scratch().join("stub.args");
        let script = format!("#!/bin/sh\nfor a in \"$@\"; do printf '%s\\0' \"$a\"; done > '{}'\necho\n", out.display());
        std::fs::write(&path, script).unwrap();
        std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    path
}

/// What the daemon of a session is told.
fn daemon_arguments() -> Vec<String> {
    let bytes = std::fs::read(scratch().join("stub.args")).unwrap_or_default();
    bytes.split(|b| *b == 0).map(|a| String::from_utf8_lossy(a).into_owned()).filter(|a| !a.is_empty()).collect()
}

/// What the program makes of its arguments.
fn session_of(args: &[String]) -> Option<String> {
    args.iter().find_map(|a| a.strip_prefix("--session=").map(String::from))
}

fn address(name: &str, run: &mut Run) -> Result<(), Violation> {
    real::adopt_environment();
    run.step(format!("session {:?}", name));
    let session = Session::from_name(name);
    ensure_eq!(session.mode, expected_mode(name), "address of {:?}", name);
    let parsed: ConnectionMode = name.parse().unwrap();
    match (&parsed, plain_address(name)) {
        (ConnectionMode::Tcp(a), Some(b)) => ensure_eq!(*a, b, "address"),
        (ConnectionMode::Socket(p), None) => ensure_eq!(p.as_path(), Path::new(name), "path"),
        (m, _) => return fail(format!("{:?} is {:?}", name, m)),
    }
    if is_file_name(name) || plain_address(name).is_some() {
        let shown = session.to_string();
        ensure_eq!(Session::from_name(&shown).mode, session.mode, "session shown as {:?}", shown);
    }
    // in the session directory it is listed under its name
    if is_file_name(name) {
        // as far as the system has addresses that long
        if let Some(p) = match &session.mode {
            ConnectionMode::Socket(p) if p.as_os_str().len() < 108 && name.len() < 256 => Some(p),
            _ => None,
        } {
            let l = UnixListener::bind(p);
            ensure!(l.is_ok(), "cannot listen at {:?}", p);
            let listed = Session::list();
            let _ = std::fs::remove_file(p);
            ensure_eq!(listed, vec![name.to_string()], "listed sessions");
        }
    }
    run.step("its daemon");
    std::env::set_var("CED_BIN", stub());
    let _ = std::fs::remove_file(scratch().join("stub.args"));
    let r = start_daemon(&session);
    std::env::set_var("CED_BIN", real::ced());
    ensure!(r.is_ok(), "start: {:?}", r);
    let mut status = 0;
    unsafe { libc::waitpid(r.unwrap() as i32, &mut status, 0) };
    let args = daemon_arguments();
    ensure!(args.iter().any(|a| a == "--mode=server"), "the daemon is started with {:?}", args);
    let told = match session_of(&args) {
        Some(s) => s,
        None => return fail(format!("the daemon is started with {:?}", args)),
    };
    ensure_eq!(Session::from_name(&told).mode, session.mode, "the session {:?} its daemon serves", told);
    Ok(())
}

fn different(all: &[String], run: &mut Run) -> Result<(), Violation> {
    real::adopt_environment();
    // names of the same session: other notations of one address or path
    let canonical = |n: &str| match plain_address(n) {
        Some(a) => format!("tcp {}", a),
        None => {
            let p = Path::new(n);
            let c: Vec<_> = p.components().filter(|c| *c != Component::CurDir).collect();
            format!("path {:?}", c)
        }
    };
    let mut seen: HashMap<String, String> = HashMap::new();
    for n in all {
        run.step(format!("{:?}", n));
        let mode = format!("{:?}", match Session::from_name(n).mode {
            ConnectionMode::Socket(p) => format!("{:?}", p.components().collect::<Vec<_>>()),
            ConnectionMode::Tcp(a) => a.to_string(),
        });
        match seen.get(&mode) {
            Some(c) => ensure_eq!(*c, canonical(n), "session with the address of {:?}", n),
            None => {
                seen.insert(mode, canonical(n));
            }
        }
    }
    Ok(())
}

/// The command line of the program, all the way to its daemon.
/// Names which begin like an argument belong to theirs.
fn session_argument(c: &mut std::process::Command, name: &str) {
    if name.starts_with('-') {
        c.arg(format!("--session={}", name));
    } else {
        c.arg("--session").arg(name);
    }
}

fn command_line(name: &str, run: &mut Run) -> Result<(), Violation> {
    real::adopt_environment();
    run.step(format!("ced --mode=daemon --session={:?}", name));
    let _ = std::fs::remove_file(scratch().join("stub.args"));
    let mut c = real::command(real::ced());
    c.arg("--mode=daemon").env("CED_BIN", stub());
    session_argument(&mut c, name);
    let mut p = Program::start(c);
    let (status, errors) = p.finish()?;
    ensure!(status.success(), "{}: {}", status, errors);
    let told = session_of(&daemon_arguments());
    ensure_eq!(
        told.as_deref().map(|t| Session::from_name(t).mode),
        Some(expected_mode(name)),
        "the session {:?} its daemon serves",
        told
    );
    Ok(())
}

// ---- processes

/// The servers running for a session argument (zombies have no arguments anymore).
fn servers(of: &str) -> Vec<i32> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc").unwrap().flatten() {
        if let Ok(pid) = e.file_name().to_string_lossy().parse::<i32>() {
            if let Ok(cmd) = std::fs::read(e.path().join("cmdline")) {
                let args: Vec<&[u8]> = cmd.split(|b| *b == 0).collect();
                if args.len() > 2
                    && args.iter().any(|a| *a == b"--mode=server")
                    && args.iter().any(|a| *a == format!("--session={}", of).as_bytes())
                    && !args[0].ends_with(b"sh")
                {
                    v.push(pid);
                }
            }
        }
    }
    v
}

fn until(what: &str, mut f: impl FnMut() -> bool) -> Result<(), Violation> {
    let t = Instant::now();
    while !f() {
        ensure!(t.elapsed() < PATIENCE, "not within {:?}: {}", PATIENCE, what);
        std::thread::sleep(Duration::from_millis(1));
    }
    Ok(())
}

fn become_subreaper() {
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1) };
}

enum Client {
    Unix(#[allow(dead_code)] BufReader<UnixStream>),
    Tcp(#[allow(dead_code)] BufReader<TcpStream>),
    Json(#[allow(dead_code)] Program),
}

fn info(line: &str) -> Option<String> {
    let v: Value = serde_json::from_str(line).ok()?;
    if v["method"] == "info" {
        v["params"]["session"].as_str().map(String::from)
    } else {
        None
    }
}

fn await_info(name: &str, mut next: impl FnMut() -> Result<Option<String>, Violation>) -> Result<(), Violation> {
    loop {
        match next()? {
            Some(l) => {
                if let Some(s) = info(&l) {
                    ensure_eq!(s, name, "session a client is told");
                    return Ok(());
                }
            }
            None => return fail(format!("a client of {:?} lost its session", name)),
        }
    }
}

fn reader_line<R: std::io::Read>(r: &mut BufReader<R>) -> Result<Option<String>, Violation> {
    let mut l = String::new();
    match r.read_line(&mut l) {
        Ok(0) => Ok(None),
        Ok(_) => Ok(Some(l)),
        Err(e) => fail(format!("nothing from the server: {}", e)),
    }
}

struct World {
    names: Vec<String>,
    /// running sessions and their clients
    running: BTreeMap<usize, Vec<Client>>,
}

impl World {
    fn new(names: &[&str]) -> World {
        real::adopt_environment();
        become_subreaper();
        // what a failed case may have left
        let w = World { names: names.iter().map(|n| n.to_string()).collect(), running: BTreeMap::new() };
        w.clean();
        w
    }
    fn clean(&self) {
        for k in 0..self.names.len() {
            for pid in servers(&self.argument(k)) {
                unsafe { libc::kill(pid, libc::SIGKILL) };
            }
            if let ConnectionMode::Socket(p) = expected_mode(&self.names[k]) {
                let _ = std::fs::remove_file(p);
            }
        }
        self.reap();
    }
    fn reap(&self) {
        let mut st = 0;
        while unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) } > 0 {}
    }
    fn mode(&self, k: usize) -> ConnectionMode {
        expected_mode(&self.names[k])
    }
    fn argument(&self, k: usize) -> String {
        match self.mode(k) {
            ConnectionMode::Socket(p) => p.display().to_string(),
            ConnectionMode::Tcp(a) => format!("@{}", a),
        }
    }

    fn check(&self) -> Result<(), Violation> {
        let mut c = real::command(real::ced());
        c.arg("--list");
        let mut p = Program::start(c);
        let mut listed = BTreeSet::new();
        while let Some(l) = p.line()? {
            ensure!(listed.insert(l.clone()), "{:?} is listed twice", l);
        }
        let (status, errors) = p.finish()?;
        ensure!(status.success(), "--list: {} {}", status, errors);
        let expected: BTreeSet<String> = self
            .running
            .keys()
            .filter(|k| matches!(self.mode(**k), ConnectionMode::Socket(_)))
            .map(|k| self.names[*k].clone())
            .collect();
        ensure_eq!(listed, expected, "listed sessions");
        for k in 0..self.names.len() {
            let n = servers(&self.argument(k)).len();
            ensure_eq!(n, self.running.contains_key(&k) as usize, "servers of {}", self.names[k]);
        }
        Ok(())
    }

    /// `ced --mode=daemon`; a running session stays what it is.
    fn start(&mut self, k: usize) -> Result<(), Violation> {
        let mut c = real::command(real::ced());
        c.arg("--mode=daemon");
        session_argument(&mut c, &self.names[k]);
        let mut p = Program::start(c);
        let (status, errors) = p.finish()?;
        if self.running.contains_key(&k) {
            ensure!(!status.success(), "a second server for {} is reported as started", self.names[k]);
            until("the second server ends", || servers(&self.argument(k)).len() == 1)?;
        } else {
            ensure!(status.success(), "start of {}: {} {}", self.names[k], status, errors);
            self.running.insert(k, vec![]);
        }
        Ok(())
    }

    fn connect(&mut self, k: usize) -> Result<(), Violation> {
        let shown = self.names[k].clone();
        match self.mode(k) {
            ConnectionMode::Socket(p) => match UnixStream::connect(&p) {
                Ok(s) => {
                    ensure!(self.running.contains_key(&k), "{} is reachable though it does not run", shown);
                    s.set_read_timeout(Some(PATIENCE)).unwrap();
                    let mut r = BufReader::new(s);
                    await_info(&shown, || reader_line(&mut r))?;
                    self.running.get_mut(&k).unwrap().push(Client::Unix(r));
                }
                Err(e) => ensure!(!self.running.contains_key(&k), "{} is not reachable: {}", shown, e),
            },
            ConnectionMode::Tcp(a) => match TcpStream::connect(a) {
                Ok(s) => {
                    ensure!(self.running.contains_key(&k), "{} is reachable though it does not run", shown);
                    s.set_read_timeout(Some(PATIENCE)).unwrap();
                    let mut r = BufReader::new(s);
                    await_info(&format!("@{}", a), || reader_line(&mut r))?;
                    self.running.get_mut(&k).unwrap().push(Client::Tcp(r));
                }
                Err(e) => ensure!(!self.running.contains_key(&k), "{} is not reachable: {}", shown, e),
            },
        }
        Ok(())
    }

    /// A client program, which starts its session if need be.
    fn program(&mut self, k: usize) -> Result<(), Violation> {
        let mut c = real::command(real::ced());
        c.arg("--mode=json");
        session_argument(&mut c, &self.names[k]);
        let mut p = Program::start(c);
        await_info(&self.names[k], || p.line())?;
        self.running.entry(k).or_default().push(Client::Json(p));
        Ok(())
    }

    fn leave(&mut self, k: usize, oldest: bool) -> Result<(), Violation> {
        let clients = match self.running.get_mut(&k) {
            Some(c) if !c.is_empty() => c,
            _ => return Ok(()),
        };
        let c = if oldest { clients.remove(0) } else { clients.pop().unwrap() };
        drop(c);
        if clients.is_empty() {
            self.gone(k)?;
        }
        Ok(())
    }

    fn gone(&mut self, k: usize) -> Result<(), Violation> {
        self.running.remove(&k);
        until("the server ends", || servers(&self.argument(k)).is_empty())?;
        if let ConnectionMode::Socket(p) = self.mode(k) {
            ensure!(!p.exists(), "the socket is still there");
        }
        self.reap();
        Ok(())
    }

    fn finish(mut self) -> Result<(), Violation> {
        for k in 0..self.names.len() {
            if self.running.get(&k).map_or(false, |c| c.is_empty()) {
                self.connect(k)?;
            }
            while self.running.contains_key(&k) {
                self.leave(k, true)?;
                self.check()?;
            }
        }
        Ok(())
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.running.clear();
        self.clean();
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Start(usize),
    Connect(usize),
    Program(usize),
    LeaveFirst(usize),
    LeaveLast(usize),
}

fn apply(w: &mut World, op: Op) -> Result<(), Violation> {
    match op {
        Op::Start(k) => w.start(k),
        Op::Connect(k) => w.connect(k),
        Op::Program(k) => w.program(k),
        Op::LeaveFirst(k) => w.leave(k, true),
        Op::LeaveLast(k) => w.leave(k, false),
    }
}

fn histories(name: &str, sessions: Vec<&'static str>, ops: Vec<Op>, depth: u32) -> impl Space {
    let n = ops.len();
    space(name, seqs(n, depth), move |i, run| {
        // nobody else uses these
        let fresh: Vec<String> = sessions
            .iter()
            .map(|s| match s.strip_prefix("tcp") {
                Some(_) => format!("@127.0.0.1:{}", free_port()),
                None => s.to_string(),
            })
            .collect();
        let mut w = World::new(&fresh.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        for k in decode_seq(i, n, depth) {
            run.step(format!("{:?}", ops[k]));
            apply(&mut w, ops[k])?;
            w.check()?;
            let state: Vec<(usize, usize)> = w.running.iter().map(|(k, v)| (*k, v.len())).collect();
            run.state(&state);
        }
        run.note("everyone leaves");
        w.finish()
    })
    .confirmed(1)
}

fn free_port() -> u16 {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

/// Clients that start the same session together: what each of them does is held back until it is
/// its turn, in every interleaving.
fn together(clients: usize, with_leave: bool) -> impl Space {
    let steps = if with_leave { 3 } else { 2 };
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            return out.push(cur.clone());
        }
        for k in 0..left.len() {
            if left[k] > 0 {
                left[k] -= 1;
                cur.push(k);
                go(left, cur, out);
                cur.pop();
                left[k] += 1;
            }
        }
    }
    let mut orders = vec![];
    go(&mut vec![steps; clients], &mut vec![], &mut orders);
    let name = format!("{} clients start one session{}", clients, if with_leave { " and leave" } else { "" });
    space(&name, orders.len() as u64, move |i, run| {
        let mut w = World::new(&["s"]);
        let mut at = vec![0; clients];
        let mut programs: Vec<Option<Program>> = (0..clients).map(|_| None).collect();
        // whether a client waits for its daemon
        let mut held = vec![false; clients];
        let mut present = 0;
        for k in 0..clients {
            for what in ["held", "go"] {
                let _ = std::fs::remove_file(scratch().join(format!("{}.{}", what, k)));
            }
            let gate = scratch().join(format!("gate.{}", k));
            let script = format!(
                "#!/bin/sh\n: > '{0}/held.{1}'\nwhile [ ! -e '{0}/go.{1}' ]; do sleep 0.003; done\nexec '{2}' \"$@\"\n",
                scratch().display(),
                k,
                real::ced().display()
            );
            std::fs::write(&gate, script).unwrap();
            std::fs::set_permissions(&gate, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        for &k in &orders[i as usize] {
            let running = present > 0;
            match at[k] {
                0 => {
                    run.step(format!("client {} looks for the session", k));
                    let mut c = real::command(real::ced());
                    c.args(["--mode=json", "--session=s"]).env("CED_BIN", scratch().join(format!("gate.{}", k)));
                    let mut p = Program::start(c);
                    if running {
                        await_info("s", || p.line())?;
                        present += 1;
                    } else {
                        let f = scratch().join(format!("held.{}", k));
                        until("it starts a server", || f.exists())?;
                        held[k] = true;
                    }
                    programs[k] = Some(p);
                }
                1 => {
                    if held[k] {
                        run.step(format!("the server of client {} goes on", k));
                        std::fs::write(scratch().join(format!("go.{}", k)), "").unwrap();
                        await_info("s", || programs[k].as_mut().unwrap().line())?;
                        present += 1;
                    }
                }
                _ => {
                    run.step(format!("client {} leaves", k));
                    programs[k] = None;
                    present -= 1;
                    if present == 0 {
                        w.gone(0)?;
                    }
                }
            }
            at[k] += 1;
            if present > 0 {
                let path = real::sessions().join("s");
                ensure!(path.exists(), "the socket is gone while a client is there");
                until("there is one server", || servers(&path.display().to_string()).len() == 1)?;
            }
            run.state(&(at.clone(), present));
        }
        drop(programs);
        until("the server ends", || servers(&w.argument(0)).is_empty())?;
        ensure!(!real::sessions().join("s").exists(), "the socket is still there");
        Ok(())
    })
    .confirmed(1)
}

/// Sessions that cannot be served.
fn impossible() -> impl Space {
    let file = "file/s".to_string();
    let long = "x".repeat(200);
    let names = vec![file, long, "dir".to_string()];
    space("sessions that cannot start", names.len() as u64 * 2, move |i, run| {
        real::adopt_environment();
        let _ = std::fs::remove_dir_all(real::sessions());
        std::fs::create_dir_all(real::sessions().join("dir")).unwrap();
        std::fs::write(real::sessions().join("file"), "").unwrap();
        let name = &names[i as usize / 2];
        let mode = ["daemon", "json"][i as usize % 2];
        run.step(format!("ced --mode={} --session={}", mode, name));
        let mut c = real::command(real::ced());
        c.arg(format!("--mode={}", mode)).arg(format!("--session={}", name));
        let mut p = Program::start(c);
        let (status, errors) = p.finish()?;
        let _ = std::fs::remove_dir_all(real::sessions());
        ensure!(!status.success(), "{} is reported as started: {}", name, errors);
        ensure!(!errors.contains("panicked"), "{}", errors);
        Ok(())
    })
}

/// Sessions and clients in numbers, which leave in some order.
fn many_sessions(n: usize, clients: usize, order: usize, run: &mut Run) -> Result<(), Violation> {
    let names: Vec<String> =
        (0..n).map(|k| format!("{}{}", ["s", "é ", "x-", "1"][k % 4], "n".repeat(k))).collect();
    let mut w = World::new(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    run.step(format!("{} sessions of {} clients", n, clients));
    for k in 0..n {
        w.start(k)?;
        w.check()?;
        w.start(k)?;
    }
    for j in 0..clients {
        for k in 0..n {
            if j == 0 && k % 3 == 0 {
                w.program(k)?;
            } else {
                w.connect(k)?;
            }
        }
    }
    w.check()?;
    run.step(format!("they leave in order {}", order));
    for j in 0..clients {
        for i in 0..n {
            let k = if order & 1 == 0 { i } else { n - 1 - i };
            w.leave(k, order & 2 == 0)?;
            if j + 1 == clients || i == 0 {
                w.check()?;
            }
        }
    }
    run.state(&(n, clients, order));
    w.check()?;
    w.finish()
}

/// Sessions of all kinds of names, from their start to their end.
fn lives() -> impl Space {
    const WORDS: [&str; 26] = [
        "default", "main", "ced", "server", "session", "0", "1", "65536", "@", "@x", ":", "@:", "a:1", "@a:b:1", "tmp", "a.sock", "a b", "root",
        "lost+found", ".hidden", "a.", "..a", "--mode=server", "--session=x", "--list", "-",
    ];
    let mut names: Vec<String> = WORDS.iter().map(|w| w.to_string()).collect();
    for c in crate::model::text::characters().into_iter().filter(|c| !"/.\0\n".contains(*c)) {
        names.extend([format!("{}", c), format!("{}a", c), format!("a{}", c)]);
    }
    space("lives of sessions of all kinds of names", names.len() as u64, move |i, run| {
        let name = names[i as usize].as_str();
        let mut w = World::new(&[name]);
        run.step(format!("session {:?}", name));
        for op in [Op::Start(0), Op::Connect(0), Op::Start(0), Op::Program(0), Op::LeaveFirst(0)] {
            apply(&mut w, op)?;
            w.check()?;
        }
        run.state(&i);
        w.finish()
    })
    .confirmed(1)
}

/// So many sessions in the directory of sessions, all of them listed; one more comes and goes.
fn listed(tier: Tier) -> impl Space {
    let ns: Vec<usize> = crate::model::text::sizes(tier).into_iter().filter(|n| *n <= 2000).collect();
    space("directories of many sessions", ns.len() as u64, move |i, run| {
        let n = ns[i as usize];
        run.step(format!("{} sessions", n));
        let mut w = World::new(&["one more"]);
        w.start(0)?;
        let root = match w.mode(0) {
            ConnectionMode::Socket(p) => p.parent().unwrap().to_owned(),
            ConnectionMode::Tcp(_) => unreachable!(),
        };
        let mut paths = vec![];
        for k in 0..n {
            let p = root.join(format!("s{}", k));
            let _ = std::fs::remove_file(&p);
            // an address is all that is looked at
            drop(std::os::unix::net::UnixListener::bind(&p).unwrap());
            paths.push(p);
        }
        let list = || -> Result<BTreeSet<String>, Violation> {
            let mut c = real::command(real::ced());
            c.arg("--list");
            let mut p = Program::start(c);
            let mut v = BTreeSet::new();
            while let Some(l) = p.line()? {
                ensure!(v.insert(l.clone()), "{:?} is listed twice", l);
            }
            let (status, errors) = p.finish()?;
            ensure!(status.success(), "--list: {} {}", status, errors);
            Ok(v)
        };
        let mut expected: BTreeSet<String> = (0..n).map(|k| format!("s{}", k)).collect();
        expected.insert("one more".to_owned());
        let result = (|| {
            let got = list()?;
            let missing: Vec<&String> = expected.difference(&got).collect();
            ensure!(missing.is_empty() && got.len() == n + 1, "{} of {} sessions are listed, without {:.200?}", got.len(), n + 1, missing);
            w.connect(0)?;
            w.leave(0, true)?;
            let got = list()?;
            ensure!(got.len() == n && !got.contains("one more"), "{} of {} sessions are listed", got.len(), n);
            run.state(&n);
            Ok(())
        })();
        for p in paths {
            let _ = std::fs::remove_file(p);
        }
        result?;
        w.finish()
    })
}

/// Clients that come and go beside some that stay; each is told who it is.
pub fn identities(tier: Tier) -> impl Space {
    let ns: Vec<usize> = match tier {
        Tier::Quick => vec![300, 1100],
        Tier::Thorough => vec![300, 5000, 20_000],
    };
    space("clients that come and go beside some that stay", ns.len() as u64 * 6, move |i, run| {
        let (n, stay, late) = (ns[i as usize / 6], 1 + i as usize % 3, i as usize / 3 % 2);
        let mut w = World::new(&["ids"]);
        run.step(format!("{} clients stay, {} come and go, {} at a time", stay, n, late + 1));
        w.start(0)?;
        let path = match w.mode(0) {
            ConnectionMode::Socket(p) => p,
            ConnectionMode::Tcp(_) => unreachable!(),
        };
        let connect = || -> Result<(String, BufReader<UnixStream>), Violation> {
            let s = match UnixStream::connect(&path) {
                Ok(s) => s,
                Err(e) => return fail(format!("the session is not reachable: {}", e)),
            };
            s.set_read_timeout(Some(PATIENCE)).unwrap();
            let mut r = BufReader::new(s);
            while let Some(l) = reader_line(&mut r)? {
                let v: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
                if v["method"] == "info" {
                    return Ok((v["params"]["client"].to_string(), r));
                }
            }
            fail("the session ends")
        };
        // not the log of those who come and go, which all would be shown again and again
        let forget = |id: &str, r: &mut BufReader<UnixStream>| -> Result<(), Violation> {
            let script = format!("editor:scratch({0}, '*debug*') editor:scratch({0}, 'b')", id.trim_matches('"'));
            let line = json!({"jsonrpc": "2.0", "id": 4, "method": "exec", "params": script});
            if let Err(e) = r.get_mut().write_all(format!("{}\n", line).as_bytes()) {
                return fail(format!("a client cannot send: {}", e));
            }
            while reader_line(r)?.map_or(false, |l| !l.contains("\"id\":4")) {}
            Ok(())
        };
        let mut staying = vec![];
        for k in 0..stay {
            let (id, mut r) = connect()?;
            if k == 0 {
                forget(&id, &mut r)?;
            }
            staying.push((id, r));
        }
        let mut passing = std::collections::VecDeque::new();
        for k in 0..n {
            if k % 20 == 19 {
                let (id, r) = &mut staying[0];
                forget(id, r)?;
            }
            let (id, r) = connect()?;
            run.transitions += 1;
            for (other, _) in staying.iter().chain(&passing) {
                ensure!(*other != id, "client {} of those who come and go is told that it is {}, as another one is", k, id);
            }
            passing.push_back((id, r));
            if passing.len() > late {
                passing.pop_front();
            }
        }
        let mut all: Vec<_> = staying.into_iter().chain(passing).collect();
        for (a, b) in (0..all.len()).flat_map(|a| (a + 1..all.len()).map(move |b| (a, b))) {
            ensure!(all[a].0 != all[b].0, "two clients are told they are {}", all[a].0);
        }
        // what is meant for one reaches that one and no other
        for k in 0..all.len() {
            for j in 0..all.len() {
                let told = all[j].0.trim_matches('"').to_owned();
                let script = format!("editor:message({}, 'from {} to {}')", told, k, j);
                let line = json!({"jsonrpc": "2.0", "id": 5, "method": "exec", "params": script});
                if let Err(e) = all[k].1.get_mut().write_all(format!("{}\n", line).as_bytes()) {
                    return fail(format!("client {} cannot send: {}", k, e));
                }
                let (mut answered, mut reached) = (false, false);
                while !reached || k == j && !answered {
                    let l = match reader_line(&mut all[j].1)? {
                        Some(l) => l,
                        None => return fail(format!("client {} lost its session", j)),
                    };
                    let v: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
                    if v["method"] == "echo" {
                        let text = v["params"].as_array().map_or(String::new(), |f| {
                            f.iter().filter_map(|f| f["text"].as_str()).collect()
                        });
                        ensure_eq!(text, format!("from {} to {}", k, j), "message of client {}", j);
                        reached = true;
                    }
                    if v["id"] == 5 {
                        ensure!(k == j && v.get("result").is_some(), "client {} gets the response {}", j, l);
                        answered = true;
                    }
                }
                while !answered {
                    let l = match reader_line(&mut all[k].1)? {
                        Some(l) => l,
                        None => return fail(format!("client {} lost its session", k)),
                    };
                    let v: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
                    ensure!(v["method"] != "echo", "client {} gets what is meant for {}: {}", k, j, l);
                    answered = v["id"] == 5;
                }
            }
        }
        run.state(&i);
        drop(all);
        w.gone(0)
    })
    .confirmed(2)
}

fn same_address(name: &str) -> Result<(), Violation> {
    let session = Session::from_name(name);
    ensure_eq!(session.mode, expected_mode(name), "address of {:?}", name);
    let shown = session.to_string();
    if is_file_name(name) || plain_address(name).is_some() {
        ensure_eq!(Session::from_name(&shown).mode, session.mode, "session shown as {:?}", shown);
    }
    // what its daemon is told
    let arg = session.mode.to_string();
    ensure_eq!(Session::from_name(&arg).mode, session.mode, "session passed on as {:?}", arg);
    Ok(())
}

pub fn c12(tier: Tier) -> Check {
    let numbers = space("all ports and address parts", 64 + 4, move |i, run| {
        real::adopt_environment();
        run.note(format!("numbers, part {}", i));
        if i < 64 {
            for port in i * 1024..(i + 1) * 1024 {
                same_address(&format!("@:{}", port))?;
                same_address(&format!("@127.0.0.1:{}", port))?;
                same_address(&format!("{}", port))?;
                run.transitions += 3;
            }
            same_address(&format!("@:{}", 65536 + i))?;
        } else {
            for part in 0..=256 {
                let mut ip = ["10", "0", "255", "1"].map(String::from);
                ip[i as usize - 64] = part.to_string();
                let name = format!("@{}:80", ip.join("."));
                if !needs_resolver(&name) {
                    same_address(&name)?;
                }
                same_address(&ip.join("."))?;
                run.transitions += 2;
            }
        }
        Ok(())
    });
    let characters = space("names with every character", 0x110000 / 1024, move |i, run| {
        real::adopt_environment();
        run.note(format!("U+{:04X}..", i * 1024));
        for c in (0..1024).filter_map(|k| char::from_u32(i as u32 * 1024 + k)).filter(|c| !"/.\0".contains(*c)) {
            for n in [format!("{}", c), format!("a{}", c), format!("{}a", c), format!("a{}b:1", c)] {
                same_address(&n)?;
                run.transitions += 1;
            }
        }
        Ok(())
    });
    let lengths = space("names of all lengths", 240 * 3, move |i, run| {
        let (n, kind) = (i as usize / 3 + 1, i as usize % 3);
        let name: String = match kind {
            0 => "n".repeat(n),
            1 => "é -".chars().cycle().take(n).collect(),
            _ => format!("{}1", "@".repeat(n)),
        };
        address(&name, run)
    });
    let most = tier.pick(7, 12);
    // many of one or of the other
    let few = tier.pick(3, 5);
    let numbers_of: Vec<(usize, usize)> =
        (1..=most).flat_map(|a| (1..=most).map(move |b| (a, b))).filter(|(a, b)| *a.min(b) <= few).collect();
    let crowd = space("many sessions and clients", numbers_of.len() as u64 * 2, move |i, run| {
        let (a, b) = numbers_of[i as usize / 2];
        many_sessions(a, b, (i % 2) as usize * 3, run)
    })
    .confirmed(1);
    let all = names(tier.pick(2, 3));
    let n = all.len() as u64;
    let grid = all.clone();
    let addresses = space("session names", n, move |i, run| address(&grid[i as usize], run));
    let many = names(tier.pick(4, 5));
    let apart = space("different names", 1, move |_, run| different(&many, run));
    let few: Vec<String> = all.iter().step_by(tier.pick(11, 3)).cloned().collect();
    let line = space("session names on the command line", few.len() as u64, move |i, run| {
        command_line(&few[i as usize], run)
    });
    use Op::*;
    Check::new("C12")
        .space(addresses)
        .space(apart)
        .space(line)
        .space(lengths)
        .space(numbers)
        .space(characters)
        .space(impossible())
        .space(crowd)
        .space(lives())
        .space(listed(tier))
        .space(histories(
            "two sessions",
            vec!["A", "é b"],
            vec![Start(0), Start(1), Connect(0), Connect(1), Program(0), LeaveFirst(0), LeaveLast(0), LeaveFirst(1)],
            tier.pick(3, 5),
        ))
        .space(histories(
            "one session",
            vec!["A"],
            vec![Start(0), Connect(0), Program(0), LeaveFirst(0)],
            tier.pick(5, 7),
        ))
        .space(histories("network session", vec!["tcp"], vec![Start(0), Connect(0), LeaveFirst(0)], tier.pick(4, 6)))
        .space(together(2, true))
        .space(together(3, tier == Tier::Thorough))
        .assume("host names are left to the resolver of the system and are not explored")
        .assume("a client connecting in the instant its server ends is not explored")
        .assume("the order of processes is controlled at the points where a client looks for its session, its server starts, and it leaves")
}
