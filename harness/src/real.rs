//! The programs and libraries a user runs, built from /repo by build_real.sh.

use std::ffi::OsString;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::Command;

use crate::fw::{scratch, verif_root};

pub const USER: &str = "mc";

fn built(name: &str) -> PathBuf {
    let dir = std::env::var_os("CEDMC_REAL")
        .map(PathBuf::from)
        .unwrap_or_else(|| verif_root().join("harness/target/real/debug"));
    let path = dir.join(name);
    assert!(path.exists(), "{} is not built", path.display());
    path
}

pub fn ced() -> PathBuf {
    built("ced")
}

pub fn library() -> PathBuf {
    built("libced_remote.so")
}

/// Where the programs look for sessions.
pub fn tmp() -> PathBuf {
    scratch().join("t")
}

pub fn sessions() -> PathBuf {
    tmp().join(format!("ced-{}", USER))
}

fn environment() -> Vec<(&'static str, OsString)> {
    vec![
        ("USER", USER.into()),
        ("TMPDIR", tmp().into()),
        ("HOME", scratch().into()),
        ("CED_BIN", ced().into()),
        ("RUST_BACKTRACE", "0".into()),
        ("TERM", "xterm".into()),
        ("LANG", "C.UTF-8".into()),
        ("PATH", "/usr/bin:/bin".into()),
    ]
}

/// Lets this very process find sessions as the programs do.
pub fn adopt_environment() {
    std::fs::create_dir_all(sessions()).unwrap();
    for (k, v) in environment() {
        std::env::set_var(k, v);
    }
    std::env::remove_var("CED_FWSTDERR");
    std::env::remove_var("RUST_LOG");
}

/// A command in an environment of its own, which does not outlive this process.
pub fn command(program: PathBuf) -> Command {
    std::fs::create_dir_all(tmp()).unwrap();
    let mut c = Command::new(program);
    c.env_clear().envs(environment()).current_dir(scratch());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

// ---- a program under control

use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ExitStatus, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

use crate::fw::{fail, Violation};

/// Long enough for anything that should come promptly, even on a busy machine.
pub const PATIENCE: Duration = Duration::from_secs(20);

pub struct Program {
    pub child: Child,
    stdin: Option<ChildStdin>,
    lines: Receiver<Vec<u8>>,
    errors: Option<std::thread::JoinHandle<Vec<u8>>>,
    gate: Option<std::sync::mpsc::Sender<()>>,
}

impl Program {
    pub fn start(c: Command) -> Program {
        let mut p = Program::start_unread(c);
        p.gate = None;
        p
    }

    /// Its output is not read before `read_on`.
    pub fn start_unread(mut c: Command) -> Program {
        let mut child = c
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("start the program");
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().unwrap();
        let mut stderr = child.stderr.take().unwrap();
        let (tx, lines) = channel();
        let (gate, opened) = channel();
        std::thread::spawn(move || {
            let _ = opened.recv();
            let mut r = BufReader::new(stdout);
            loop {
                let mut l = vec![];
                match r.read_until(b'\n', &mut l) {
                    Ok(n) if n > 0 => {
                        let _ = tx.send(l);
                    }
                    _ => break,
                }
            }
        });
        let errors = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = stderr.read_to_end(&mut v);
            v
        });
        Program { child, stdin, lines, errors: Some(errors), gate: Some(gate) }
    }

    pub fn read_on(&mut self) {
        self.gate = None;
    }

    pub fn write(&mut self, bytes: &[u8]) -> std::io::Result<()> {
        let s = self.stdin.as_mut().expect("standard input is open");
        s.write_all(bytes)?;
        s.flush()
    }

    /// Standard input, to be written from elsewhere.
    pub fn take_stdin(&mut self) -> ChildStdin {
        self.stdin.take().expect("standard input is open")
    }

    pub fn close(&mut self) {
        self.stdin = None;
    }

    /// The next line of standard output, None at its end.
    pub fn line(&mut self) -> Result<Option<String>, Violation> {
        match self.lines.recv_timeout(PATIENCE) {
            Ok(l) => match String::from_utf8(l) {
                Ok(mut l) => {
                    if l.pop() != Some('\n') {
                        return fail("unfinished line on standard output");
                    }
                    Ok(Some(l))
                }
                Err(e) => fail(format!("undecodable line on standard output: {:?}", e)),
            },
            Err(RecvTimeoutError::Disconnected) => Ok(None),
            Err(RecvTimeoutError::Timeout) => fail(format!("nothing on standard output for {:?}", PATIENCE)),
        }
    }

    pub fn quiet(&mut self) -> bool {
        self.lines.try_recv().is_err()
    }

    /// The exit status, and what is on standard error.
    pub fn finish(&mut self) -> Result<(ExitStatus, String), Violation> {
        let t = Instant::now();
        loop {
            if let Some(st) = self.child.try_wait().unwrap() {
                let e = self.errors.take().map(|t| t.join().unwrap()).unwrap_or_default();
                return Ok((st, String::from_utf8_lossy(&e).into_owned()));
            }
            if t.elapsed() > PATIENCE {
                return fail(format!("the program does not end for {:?}", PATIENCE));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
