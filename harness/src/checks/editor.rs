//! C04-C10, C15, C16, C20, C24: the whole editor against its model.

use std::collections::{BTreeMap, HashMap, HashSet};

use serde_json::{json, Value};

use crate::fw::*;
use crate::model::editor::*;
use crate::model::text::positions;
use crate::rig::*;
use crate::{ensure, ensure_eq};

pub struct Config {
    pub name: &'static str,
    pub disk: Vec<(&'static str, Disk)>,
    pub setup: Vec<Op>,
    pub ops: Vec<Op>,
    pub asp: Aspects,
}

struct Node {
    parent: u32,
    op: u16,
}

/// Every transition of the model up to a depth; each is a case executed on a fresh editor.
pub struct Explored {
    cfg: Config,
    nodes: Vec<Node>,
    /// from a state, by an operation, and whether nothing else starts from where it leads
    edges: Vec<(u32, u16, bool)>,
    depth: u32,
    /// the last depth was cut at this many transitions
    cut: bool,
}

impl Explored {
    /// Breadth first up to `depth` operations, or until no new state appears.
    pub fn new(cfg: Config, depth: u32, max_edges: usize) -> Explored {
        let mut start = Model::new(&cfg.disk);
        for op in &cfg.setup {
            assert!(start.enabled(op), "{}: {:?}", cfg.name, op);
            start.apply(op, "");
        }
        let mut seen: HashSet<u64> = HashSet::new();
        seen.insert(hash(&start));
        let mut nodes = vec![Node { parent: u32::MAX, op: 0 }];
        let mut edges = Vec::new();
        let mut level = vec![(0u32, start)];
        let mut reached = 0;
        let mut cut = false;
        'out: for d in 0..depth {
            let mut next = Vec::new();
            for (n, m) in &level {
                for (k, op) in cfg.ops.iter().enumerate() {
                    if !m.enabled(op) {
                        continue;
                    }
                    if edges.len() >= max_edges {
                        cut = true;
                        break 'out;
                    }
                    let mut m2 = m.clone();
                    m2.apply(op, "");
                    let new = seen.insert(hash(&m2));
                    edges.push((*n, k as u16, !new || d + 1 == depth));
                    if new {
                        nodes.push(Node { parent: *n, op: k as u16 });
                        if d + 1 < depth {
                            next.push((nodes.len() as u32 - 1, m2));
                        }
                    }
                }
            }
            reached = d + 1;
            if next.is_empty() {
                break;
            }
            level = next;
        }
        Explored { cfg, nodes, edges, depth: reached, cut }
    }

    fn tour(&self) -> usize {
        tier().pick(4, self.cfg.ops.len())
    }

    fn path(&self, node: u32) -> Vec<Op> {
        let mut v = Vec::new();
        let mut n = node;
        while n != 0 {
            v.push(self.cfg.ops[self.nodes[n as usize].op as usize].clone());
            n = self.nodes[n as usize].parent;
        }
        v.reverse();
        v
    }
}

impl Space for Explored {
    fn name(&self) -> String {
        format!(
            "{}: every transition from {} model states, depth {}{}, {} operations more where it leads to a known state",
            self.cfg.name,
            self.nodes.len(),
            self.depth,
            if self.cut { " and part of the next" } else { "" },
            self.tour(),
        )
    }
    fn len(&self) -> u64 {
        self.edges.len() as u64
    }
    fn run(&self, index: u64, run: &mut Run) -> Result<(), Violation> {
        let (n, k, ends) = self.edges[index as usize];
        let mut ops = self.cfg.setup.clone();
        ops.extend(self.path(n));
        ops.push(self.cfg.ops[k as usize].clone());
        if ends {
            // what the editor keeps beyond the state of the model shows in what it does next
            let mut m = Model::new(&self.cfg.disk);
            for op in &ops {
                m.apply(op, "");
            }
            for j in 0..self.tour() {
                let op = &self.cfg.ops[(index as usize + j) % self.cfg.ops.len()];
                if m.enabled(op) {
                    m.apply(op, "");
                    ops.push(op.clone());
                }
            }
        }
        replay(&self.cfg.disk, &ops, self.cfg.asp, run)?.expect("enabled");
        Ok(())
    }
}

/// Every sequence of exactly `depth` operations (without merging states).
pub struct Sequences {
    pub cfg: Config,
    pub depth: u32,
}

impl Space for Sequences {
    fn name(&self) -> String {
        format!("{}: every sequence of {} operations out of {}", self.cfg.name, self.depth, self.cfg.ops.len())
    }
    fn len(&self) -> u64 {
        seqs(self.cfg.ops.len(), self.depth)
    }
    fn run(&self, index: u64, run: &mut Run) -> Result<(), Violation> {
        let mut ops = self.cfg.setup.clone();
        for k in decode_seq(index, self.cfg.ops.len(), self.depth) {
            ops.push(self.cfg.ops[k].clone());
        }
        // skipped without touching the editor when a client is not there
        let mut m = Model::new(&self.cfg.disk);
        for op in &ops {
            if !m.enabled(op) {
                run.count("skipped_disabled", 1);
                return Ok(());
            }
            m.apply(op, "");
        }
        replay(&self.cfg.disk, &ops, self.cfg.asp, run)?.expect("enabled");
        Ok(())
    }
}

/// Every sequence of `len` operations, again and again.
pub struct Repeated {
    pub cfg: Config,
    pub len: u32,
    pub times: u32,
}

/// The same with other names for its buffers, files and views.
fn spelled(cfg: &Config, suffix: &str) -> Config {
    let word = |n: &str| -> String {
        let known = ["b", "c", "d", "f", "g", "h"].contains(&n);
        format!("{}{}", n, if known { suffix } else { "" })
    };
    let name = |n: &str| -> String {
        let parts = n.split('|').map(|p| p.strip_suffix("{*}").map_or_else(|| word(p), |p| word(p).replace('\\', "\\\\") + "{*}"));
        parts.collect::<Vec<_>>().join("|")
    };
    let op = |op: &Op| match op {
        Op::Edit(c, n, s) => Op::Edit(*c, name(n), *s),
        Op::View(c, n) => Op::View(*c, name(n)),
        Op::ViewAdd(c, n) => Op::ViewAdd(*c, name(n)),
        Op::ViewRemove(c, n) => Op::ViewRemove(*c, name(n)),
        Op::Select(c, m, n) => Op::Select(*c, m.clone(), name(n)),
        Op::Disk(n, d) => Op::Disk(name(n), d.clone()),
        Op::Exec(c, stmts) => Op::Exec(
            *c,
            stmts
                .iter()
                .map(|s| match s {
                    Stmt::Edit(c, n, s) => Stmt::Edit(*c, name(n), *s),
                    Stmt::Scratch(c, n, t) => Stmt::Scratch(*c, name(n), t.clone()),
                    Stmt::Append(n, t) => Stmt::Append(name(n), t.clone()),
                    s => s.clone(),
                })
                .collect(),
        ),
        op => op.clone(),
    };
    Config {
        name: format!("{}, of longer names", cfg.name).leak(),
        disk: cfg.disk.iter().map(|(n, d)| (&*name(n).leak(), d.clone())).collect(),
        setup: cfg.setup.iter().map(op).collect(),
        ops: cfg.ops.iter().map(op).collect(),
        asp: cfg.asp,
    }
}

const SPELLINGS: [&str; 4] = [
    " is a name of some length, longer than those of all other buffers here, and of more than one hundred bytes.txt",
    "é 日 e\u{301}",
    ".d (old) [1] \"x\" 'y' %s \\n",
    "#",
];

/// Every short sequence with buffers and files of other names.
struct Spelled(Vec<Repeated>);

impl Spelled {
    fn of(cfgs: &[&Config], tier: Tier) -> Spelled {
        let mut v = Vec::new();
        for cfg in cfgs {
            for s in SPELLINGS {
                v.push(Repeated { cfg: spelled(cfg, s), len: tier.pick(2, 3), times: 3 });
            }
        }
        Spelled(v)
    }
}

impl Space for Spelled {
    fn name(&self) -> String {
        let mut names: Vec<&str> = self.0.iter().map(|r| r.cfg.name).collect();
        names.dedup();
        format!("{}: sequences", names.join("; "))
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|r| r.len()).sum()
    }
    fn run(&self, mut index: u64, run: &mut Run) -> Result<(), Violation> {
        for r in &self.0 {
            if index < r.len() {
                return r.run(index, run);
            }
            index -= r.len();
        }
        Ok(())
    }
}

impl Repeated {
    /// Of configurations with many operations.
    fn wide(cfg: &Config, tier: Tier) -> Repeated {
        Repeated { len: 2, times: tier.pick(20, 150), ..Repeated::of(cfg, tier) }
    }

    fn of(cfg: &Config, tier: Tier) -> Repeated {
        let cfg = Config {
            name: cfg.name,
            disk: cfg.disk.clone(),
            setup: cfg.setup.clone(),
            ops: cfg.ops.clone(),
            asp: cfg.asp,
        };
        Repeated { cfg, len: tier.pick(2, 3), times: tier.pick(40, 120) }
    }
}

impl Space for Repeated {
    fn name(&self) -> String {
        format!(
            "{}: every sequence of {} operations out of {}, {} times",
            self.cfg.name,
            self.len,
            self.cfg.ops.len(),
            self.times
        )
    }
    fn len(&self) -> u64 {
        seqs(self.cfg.ops.len(), self.len)
    }
    fn run(&self, index: u64, run: &mut Run) -> Result<(), Violation> {
        let pattern = decode_seq(index, self.cfg.ops.len(), self.len);
        let mut ops = self.cfg.setup.clone();
        let mut m = Model::new(&self.cfg.disk);
        for op in &ops {
            m.apply(op, "");
        }
        for _ in 0..self.times {
            for k in &pattern {
                let op = &self.cfg.ops[*k];
                if m.enabled(op) {
                    m.apply(op, "");
                    ops.push(op.clone());
                }
            }
        }
        replay(&self.cfg.disk, &ops, self.cfg.asp, run)?.expect("enabled");
        Ok(())
    }
}

fn text(t: &str) -> Disk {
    Disk::Text(t.into())
}

fn ed(c: Cid, n: &str) -> Op {
    Op::Edit(c, n.into(), false)
}
fn sc(c: Cid, n: &str) -> Op {
    Op::Edit(c, n.into(), true)
}
fn vw(c: Cid, n: &str) -> Op {
    Op::View(c, n.into())
}
fn va(c: Cid, n: &str) -> Op {
    Op::ViewAdd(c, n.into())
}
fn vr(c: Cid, n: &str) -> Op {
    Op::ViewRemove(c, n.into())
}
fn ex(c: Cid, s: &[Stmt]) -> Op {
    Op::Exec(c, s.to_vec())
}
fn ks(c: Cid, k: &[&str]) -> Op {
    Op::Keys(c, k.iter().map(|s| s.to_string()).collect())
}
fn menu(c: Cid, m: &str, s: &str) -> Op {
    Op::Menu(c, m.into(), s.into())
}
fn pick(c: Cid, m: &str, s: &str) -> Op {
    Op::Select(c, m.into(), s.into())
}
fn mv(c: Cid, m: Mv, x: bool) -> Op {
    ex(c, &[Stmt::Move(c, m, x)])
}
fn del(c: Cid) -> Op {
    ex(c, &[Stmt::Delete(c)])
}
fn put(c: Cid, b: &str, t: &str) -> Op {
    ex(c, &[Stmt::Scratch(c, b.into(), Some(t.into()))])
}
fn app(c: Cid, b: &str, t: &str) -> Op {
    ex(c, &[Stmt::Append(b.into(), t.into())])
}

use Op::{Join, Leave, Quit, ViewDelete};

/// Histories with texts of all kinds of sizes; `ops` gives one for each size and kind.
fn sized<F>(name: &str, tier: Tier, max: usize, kinds: usize, asp: Aspects, ops: F) -> impl Space
where
    F: Fn(usize, usize) -> (Vec<(&'static str, Disk)>, Vec<Op>),
{
    let ns: Vec<usize> = crate::model::text::sizes(tier).into_iter().filter(|n| *n <= max).collect();
    space(name, (ns.len() * kinds) as u64, move |i, run| {
        let n = ns[i as usize / kinds];
        let (disk, ops) = ops(n, i as usize % kinds);
        run.note(format!("size {}", n));
        replay(&disk, &ops, rendered_upto(n, asp), run)?.expect("enabled");
        Ok(())
    })
}

/// Without a look at what is displayed of texts too large for that.
fn rendered_upto(n: usize, asp: Aspects) -> Aspects {
    Aspects(if n > 4200 { asp.0 & !Aspects::RENDER.0 } else { asp.0 })
}

/// Long lines, many lines, or both, of about `n` of their kind.
fn sized_text(n: usize, kind: usize) -> String {
    match kind {
        0 => format!("é\n{}\nab", "xyé".repeat(n / 3 + 1)),
        1 => "ab\n".repeat(n),
        2 => format!("{}日\n", "\n".repeat(n)),
        3 => crate::model::text::filler(n, 2),
        // one character of many code points
        _ => format!("ab\nc{}d\ne", format!("👩{}", "\u{200d}👩".repeat(n.min(300)))),
    }
}

// --- C04

const SYMBOLS: [&str; 6] = ["a", "\n", "é", "e\u{301}", "日", "\r\n"];

/// All positions, anchors and wanted columns of a text reached by moves, every move from each.
fn moves_closure(txt: &str, run: &mut Run) -> Result<(), Violation> {
    let mut rig = Rig::new();
    let mut m = Model::new(&[]);
    for op in [Join(1), put(1, "b", txt)] {
        run.step(show(&op));
        rig.apply(&mut m, &op, Aspects::RESP)?;
    }
    let txt = match &m.buffers["b"].text {
        Some(t) => t.clone(),
        None => unreachable!(),
    };
    let sel = m.client(1).unwrap().sels["b{*}"]["b"].clone();
    let ps = positions(&txt);
    let at = |o: usize| ps.iter().find(|p| p.offset == o).map(|p| (p.l, p.c)).unwrap();
    // states with the shortest path to each
    let mut paths: HashMap<Sel, Vec<(Mv, bool)>> = HashMap::new();
    let mut queue = std::collections::VecDeque::new();
    paths.insert(sel.clone(), vec![]);
    queue.push_back(sel);
    while let Some(s) = queue.pop_front() {
        let path = paths[&s].clone();
        for mvk in MOVES {
            for x in [false, true] {
                let want = moved(&s, &txt, mvk, x);
                let mut p = path.clone();
                p.push((mvk, x));
                run.transitions += p.len() as u64 + 1;
                let mut src = String::from("editor:move_to_begin(1, false)\n");
                for (k, e) in &p {
                    src.push_str(&format!("editor:{}(1, {})\n", k.lua(), e));
                }
                src.push_str("local t = {}\nlocal function see()\n local s = editor:get_context(1).selections.b[1]\n \
                     t[#t + 1] = table.concat({s.anchor.offset, s.anchor.pos.l, s.anchor.pos.c, s.cursor.offset, s.cursor.pos.l, s.cursor.pos.c}, ' ')\nend\nsee()\n");
                let told = |s: &Sel| {
                    let (al, ac) = at(s.anchor);
                    let (cl, cc) = at(s.cursor);
                    format!("{} {} {} {} {} {}", s.anchor, al, ac, s.cursor, cl, cc)
                };
                let mut exp = told(&want);
                // where a known selection is met again, the wanted column shows in where vertical moves lead
                let lines = if paths.contains_key(&want) { ps.last().unwrap().l.min(5) } else { 0 };
                let mut probe = want.clone();
                for k in 0..2 * lines {
                    let m = if k < lines { Mv::Up } else { Mv::Down };
                    src.push_str(&format!("editor:{}(1, {})\nsee()\n", m.lua(), k % 2 == 0));
                    probe = moved(&probe, &txt, m, k % 2 == 0);
                    exp += &format!("; {}", told(&probe));
                }
                run.transitions += 2 * lines as u64;
                src.push_str("return table.concat(t, '; ')");
                let got = match rig.editor.exec_lua("moves", 1, |lua| lua.load(&src).eval::<String>()) {
                    Ok(g) => g,
                    Err(e) => return fail(format!("moves {:?} in {:?} fail: {}", p, txt, e)),
                };
                ensure!(
                    got == exp,
                    "in {:?}, after {:?} (from the start), then up and down through all lines, the selections are {}, expected {} (anchor, line, column, cursor, line, column)",
                    txt,
                    p,
                    got,
                    exp
                );
                rig.drain(&[]);
                if !paths.contains_key(&want) {
                    paths.insert(want.clone(), p);
                    queue.push_back(want);
                }
            }
        }
        run.state(&(&txt, &s));
    }
    run.note(format!("{} selections of {:?}", paths.len(), txt));
    Ok(())
}

pub fn c04(tier: Tier) -> Check {
    let texts = words(&SYMBOLS, tier.pick(4, 5));
    let n = texts.len() as u64;
    let long: Vec<String> = {
        // lines of different lengths: the wanted column has to survive them
        let ls = ["", "a", "日é", "aé日e\u{301}b", "👨‍👩‍👧x"];
        let k = tier.pick(3, 4);
        (0..seqs(ls.len(), k))
            .flat_map(|i| {
                let t: Vec<&str> = decode_seq(i, ls.len(), k).iter().map(|j| ls[*j]).collect();
                let t = t.join("\n");
                vec![t.clone(), format!("{}\n", t)]
            })
            .collect()
    };
    let nl = long.len() as u64;
    let config = |name, ops: Vec<Op>| Config {
        name,
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "aé\n\n日bc")],
        ops,
        asp: Aspects::ALL,
    };
    let mut all = Vec::new();
    for m in MOVES {
        all.push(mv(1, m, false));
        all.push(mv(1, m, true));
    }
    all.push(del(1));
    let two = Config {
        name: "moves in two buffers at once, by two clients",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "ab\n\ncd\n"), put(1, "d", "日\nxyz"), va(1, "b"), Join(2)],
        ops: vec![
            mv(1, Mv::Right, false),
            mv(1, Mv::Down, true),
            mv(1, Mv::Up, false),
            mv(1, Mv::LineEnd, true),
            mv(2, Mv::Right, true),
            mv(2, Mv::Down, false),
            mv(2, Mv::End, true),
            mv(2, Mv::Left, false),
            vw(2, "b"),
        ],
        asp: Aspects::ALL,
    };
    Check::new("C04")
        .space(space("every selection reachable in every small text, every move from it", n, move |i, run| {
            moves_closure(&texts[i as usize], run)
        }))
        .space(space("same, over lines of different lengths", nl, move |i, run| {
            moves_closure(&long[i as usize], run)
        }))
        .space(Explored::new(config("moves and deletions", all), tier.pick(4, 6), tier.pick(30_000, 600_000)))
        .space(Repeated::wide(&two, tier))
        .space(Spelled::of(&[&two, &coming_back()], tier))
        .space(Explored::new(spelled(&coming_back(), SPELLINGS[0]), tier.pick(5, 6), tier.pick(30_000, 200_000)))
        .space(of_characters("every character moved over", |t| {
            let mut ops = vec![Join(1), put(1, "b", &format!("{}\nx{}y\n{}{}", t, t, t, t))];
            for x in [false, true] {
                ops.push(ex(1, &vec![Stmt::Move(1, Mv::Begin, false)]));
                // step by step to the end and back, up and down at every column
                for m in [Mv::Right, Mv::Left] {
                    for _ in 0..16 {
                        ops.extend([mv(1, m, x), mv(1, Mv::Down, x), mv(1, Mv::Up, x)]);
                    }
                    ops.extend([mv(1, Mv::LineBegin, x), mv(1, Mv::LineEnd, x), mv(1, Mv::End, x), mv(1, Mv::Up, x), mv(1, Mv::End, x)]);
                }
            }
            ops
        }))
        .space(Explored::new(two, tier.pick(4, 6), tier.pick(10_000, 200_000)))
        .space(space("moves in three buffers at once, some of them empty", 216 * 16 * tier.pick(1, 16), move |i, run| {
            const TEXTS: [&str; 6] = ["", "a\n", "ab\ncd", "é\n\n", "日", "\n\n"];
            let all: Vec<Op> = MOVES.iter().flat_map(|m| [mv(1, *m, false), mv(1, *m, true)]).collect();
            let mut ops = vec![Join(1)];
            let mut k = i as usize;
            for b in ["b", "c", "d"] {
                ops.push(put(1, b, TEXTS[k % 6]));
                k /= 6;
            }
            ops.extend([va(1, "b"), va(1, "c")]);
            // one or two moves, then all of them in turn
            ops.extend([all[k % 16].clone(), all[k / 16 % 16].clone()]);
            ops.extend(all.iter().cloned());
            ops.extend([mv(1, Mv::Begin, false), mv(1, Mv::End, true), mv(1, Mv::Down, false), mv(1, Mv::LineEnd, true)]);
            replay(&[], &ops, Aspects::RESP | Aspects::CONTEXTS, run)?.expect("enabled");
            Ok(())
        }))
        .space(sized("moves in large texts", tier, tier.pick(1100, 5000), 5, Aspects::RESP | Aspects::CONTEXTS, |n, kind| {
            let mut ops = vec![Join(1), put(1, "b", &sized_text(n, kind))];
            for m in [Mv::End, Mv::Left, Mv::Up, Mv::LineEnd, Mv::Down, Mv::Begin, Mv::Down, Mv::LineEnd, Mv::Up, Mv::Down, Mv::Right, Mv::End, Mv::Right] {
                for x in [true, false] {
                    ops.push(mv(1, m, x));
                }
            }
            // from the end of a line of any length to one of any other, and back
            for m in [Mv::Begin, Mv::Down, Mv::LineEnd, Mv::Up, Mv::Down, Mv::Down, Mv::Up, Mv::Left, Mv::Up, Mv::Down, Mv::LineEnd, Mv::Down, Mv::Up, Mv::Down] {
                ops.push(mv(1, m, false));
            }
            // and from places within them
            for k in [n / 3, n / 3 * 2] {
                for m in [Mv::Begin, Mv::Down, Mv::LineBegin] {
                    ops.push(mv(1, m, k % 2 == 1));
                }
                ops.push(ex(1, &(0..k.min(1500)).map(|_| Stmt::Move(1, Mv::Right, false)).collect::<Vec<_>>()));
                for m in [Mv::Up, Mv::Down, Mv::Down, Mv::Up] {
                    ops.push(mv(1, m, k % 2 == 1));
                }
            }
            // straight on through everything
            for m in [Mv::Begin, Mv::Right, Mv::Down, Mv::Left, Mv::Up] {
                let k = n.min(270);
                ops.push(ex(1, &(0..k).map(|j| Stmt::Move(1, m, j % 3 == 2)).collect::<Vec<_>>()));
            }
            (vec![], ops)
        }))
        .assume("user-perceived characters are those of the bstr crate the code uses")
        .assume("states of one text are merged when anchor, cursor and wanted column are equal")
}

// --- C05

const ODD_TEXTS: [&str; 22] = [
    "", "\n", "\n\n", "a", "a\n", "\na", "a\r\nb\r\n", "a\rb", "\r", "\r\n", "\u{feff}a\n", "\0", "a\0b\n", "\t\ta \n",
    "a\u{2028}b\u{85}c\u{c}d\u{b}e\n", " ", "\u{301}", "\n\u{301}", "🦊🐶\n🦊", "b\n", "\u{fffd}\n", "\u{10ffff}\u{202e}x\n",
];
const ODD_NAMES: [&str; 22] = [
    "f", "a b", " ", "-", "--help", ".hidden", "...", "é日", "f.", "a{*}", "{", "a|b", "\\", "a\\{b", "\"q\"", "'", "*", "[x]", "a\nb", "%s", "f{*}|g", "~",
];

/// Odd names, and names near others.
fn all_names() -> Vec<&'static str> {
    const NEAR: [&str; 19] = [
        "", "b", "B", "b ", " b", "bb", "É", "é", "e\u{301}", "E", "*scratch", "*Scratch*", "*debug*", "*DEBUG*", "*errors*", "*Errors*", "b/", "./b", "ｂ",
    ];
    ODD_NAMES.iter().chain(&NEAR).copied().collect()
}

/// On the text storage itself.
#[cfg(feature = "table")]
fn c05_direct(tier: Tier, check: Check) -> Check {
    let alpha = ["a", "b", "\n", "é", "日"];
    let texts = words(&alpha, tier.pick(3, 4));
    let pairs = (texts.len() * texts.len()) as u64;
    let lalpha = ["x\n", "y\n", "z", "\n"];
    let ltexts = words(&lalpha, tier.pick(4, 5));
    let lpairs = (ltexts.len() * ltexts.len()) as u64;
    fn pair(ts: &[String], i: u64, run: &mut Run) -> Result<(), Violation> {
        let (old, new) = (&ts[i as usize / ts.len()], &ts[i as usize % ts.len()]);
        run.step(format!("reload {:?} over {:?}", new, old));
        let mut t = ced::editor::verif::PieceTable::with_text(old.clone());
        t.apply_diff(new);
        ensure_eq!(t.text(), new.as_str(), "{:?} reloaded with {:?}", old, new);
        crate::model::table::check_text(&t, new, false)?;
        crate::model::table::check_coords(&t, new)?;
        if old != new {
            t.verif_undo();
            ensure_eq!(t.text(), old.as_str(), "{:?} reloaded with {:?}, undone", old, new);
            t.verif_redo();
            ensure_eq!(t.text(), new.as_str(), "{:?} reloaded with {:?}, redone", old, new);
        }
        run.state(&(old, new));
        Ok(())
    }
    let big = big_pairs(tier);
    let nbig = big.len() as u64;
    check
        .space(space("every pair of old and new text", pairs, move |i, run| pair(&texts, i, run)))
        .space(space("every pair of old and new lines", lpairs, move |i, run| pair(&ltexts, i, run)))
        .space(space("pairs of large texts", nbig, move |i, run| {
            let (name, old, new) = &big[i as usize];
            run.step(name.clone());
            let mut t = ced::editor::verif::PieceTable::with_text(old.clone());
            t.apply_diff(new);
            ensure!(t.text() == *new, "{}: the text is not the new one", name);
            ensure_eq!(t.line_count(), crate::model::text::lines(new).len().max(1), "{}: lines", name);
            t.verif_undo();
            ensure!(t.text() == *old, "{}: undo does not give the old text", name);
            Ok(())
        }))
}

#[cfg(not(feature = "table"))]
fn c05_direct(_: Tier, check: Check) -> Check {
    check
}

pub fn c05(tier: Tier) -> Check {
    let files = [
        text(""),
        text("a\nb\n"),
        text("b"),
        text("é\n日\nx"),
        Disk::Dir,
        Disk::Undecodable,
        Disk::Missing,
    ];
    // reading pairs through real files
    let ftexts = words(&["a", "\n", "日", "b"], tier.pick(2, 3));
    let nf = (ftexts.len() * ftexts.len()) as u64;
    let mut ops = vec![ed(1, "f"), ed(2, "f"), del(1), mv(2, Mv::End, true), app(2, "f", "z"), ViewDelete(1), vw(2, "*scratch*")];
    for f in &files {
        ops.push(Op::Disk("f".into(), f.clone()));
    }
    let session = Config {
        name: "edits, reloads and disk changes",
        disk: vec![("f", text("a\nb\n"))],
        setup: vec![Join(1), Join(2)],
        ops: ops.clone(),
        asp: Aspects::ALL,
    };
    let two_files = Config {
        name: "two files, the open menu and scripts",
        disk: vec![("f", text("a")), ("g", text("日\n\n"))],
        setup: vec![Join(1), ed(1, "f"), Join(2)],
        ops: vec![
            ed(1, "f"),
            ed(2, "g"),
            ed(2, "f"),
            ed(1, "h"),
            sc(1, "f"),
            sc(2, "h"),
            va(1, "g"),
            menu(1, "open", ""),
            pick(1, "open", "g"),
            pick(1, "open", "h"),
            ex(1, &[Stmt::Edit(2, "g".into(), None)]),
            ex(2, &[Stmt::Edit(1, "h".into(), Some(false))]),
            ex(1, &[Stmt::Edit(1, "h".into(), Some(true))]),
            mv(1, Mv::End, true),
            del(1),
            ViewDelete(2),
            Op::Disk("f".into(), text("b\na")),
            Op::Disk("g".into(), Disk::Missing),
            Op::Disk("g".into(), text("日")),
            Op::Disk("h".into(), text("h")),
        ],
        asp: Aspects::ALL,
    };
    let seqs_cfg = Config {
        name: "edits, reloads and disk changes",
        disk: vec![("f", text("a\nb\n"))],
        setup: vec![Join(1), Join(2)],
        ops: vec![
            ed(1, "f"),
            ed(2, "f"),
            del(1),
            ViewDelete(1),
            Op::Disk("f".into(), files[1].clone()),
            Op::Disk("f".into(), files[3].clone()),
            Op::Disk("f".into(), Disk::Missing),
            Op::Disk("f".into(), Disk::Undecodable),
        ],
        asp: Aspects::ALL,
    };
    let paths = Config {
        name: "names of files in directories, with other names for the same, links",
        disk: vec![
            ("f", text("a\nb\n")),
            ("d/f", text("in d")),
            ("~/f", text("tilde\n")),
            ("d/e/f", text("deep\né")),
            ("link", Disk::Link("f".into())),
        ],
        setup: vec![Join(1), Join(2)],
        ops: {
            let mut v: Vec<Op> = ["f", "./f", "d/f", "d/../f", "~/f", "d/e/f", "d//f", "d/e/../f", "link", "f/", "d", "d/g", "../f"]
                .iter()
                .map(|n| ed(1, n))
                .collect();
            v.extend([
                ed(2, "link"),
                ed(2, "f"),
                ViewDelete(1),
                menu(2, "open", ""),
                pick(2, "open", "d/f"),
                pick(2, "open", "link"),
                Op::Disk("f".into(), text("changed")),
                Op::Disk("d/f".into(), text("changed in d\n")),
                Op::Disk("d/g".into(), text("")),
                Op::Disk("link".into(), Disk::Link("d/f".into())),
                Op::Disk("link".into(), Disk::Link("nowhere".into())),
                Op::Disk("f".into(), Disk::Missing),
                del(1),
            ]);
            v
        },
        asp: Aspects::ALL,
    };
    c05_direct(tier, Check::new("C05"))
        .space(space("absolute names", 64, move |i, run| {
            let root = scratch_prefix();
            let names = ["f", "d/f", "link", "../f", "é"].map(|n| format!("{}{}", root, n));
            let mut ops = vec![Join(1), Join(2), ed(2, "f")];
            for k in decode_seq(i, 4, 3) {
                ops.extend([ed(1, &names[k]), mv(1, Mv::End, true)]);
                ops.push([
                    Op::Disk("f".into(), text("changed\n")),
                    Op::Disk("link".into(), Disk::Link("d/f".into())),
                    Op::Disk("d/f".into(), Disk::Missing),
                    ViewDelete(1),
                ][(k + i as usize) % 4].clone());
                ops.extend([ed(1, &names[k]), ed(1, &names[4])]);
            }
            let disk = [("f", text("a\nb\n")), ("d/f", text("in d")), ("link", Disk::Link("f".into())), ("é", text("é"))];
            let mut enabled = vec![];
            let mut m = Model::new(&disk);
            for op in ops {
                // what is on disk already is no change
                if m.enabled(&op) {
                    m.apply(&op, "");
                    enabled.push(op);
                }
            }
            replay(&disk, &enabled, Aspects::ALL, run)?.expect("enabled");
            Ok(())
        }))
        .space(Repeated::of(&paths, tier))
        .space(Explored::new(paths, tier.pick(3, 5), tier.pick(20_000, 400_000)))
        .space(space("every pair of old and new file content, through the editor", nf, move |i, run| {
            let n = ftexts.len();
            let (old, new) = (&ftexts[i as usize / n], &ftexts[i as usize % n]);
            let disk = [("f", text(old))];
            let ops = [
                Join(1),
                ed(1, "f"),
                mv(1, Mv::End, true),
                Op::Disk("f".into(), text(new)),
                ed(1, "f"),
            ];
            if old == new {
                return Ok(());
            }
            replay(&disk, &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(sized("files of all kinds of sizes", tier, tier.pick(66_000, 1 << 21), 5, Aspects::RESP | Aspects::CONTEXTS | Aspects::RENDER, |n, kind| {
            let t = sized_text(n, kind);
            let other: String = t.chars().skip(1).chain("end".chars()).collect();
            let ops = vec![
                Join(1),
                ed(1, "f"),
                app(1, "f", "more\n"),
                ed(1, "f"),
                Op::Disk("f".into(), text(&other)),
                ed(1, "f"),
                Op::Disk("f".into(), text("x")),
                ed(1, "f"),
                Op::Disk("f".into(), text(&t)),
                ed(1, "f"),
                mv(1, Mv::Begin, false),
                mv(1, Mv::End, true),
            ];
            (vec![("f", text(&t))], ops)
        }))
        .space(space("one character changed", (changed_sizes(tier).len() * 36) as u64, move |i, run| {
            let (n, kind, at) = (changed_sizes(tier)[i as usize / 36], i as usize / 12 % 3, i as usize % 12);
            let old: Vec<char> = sized_text(n, kind).chars().collect();
            let k = old.len();
            let at = [0, 1, 2, k / 4, k / 3, k / 2, k / 2 + 1, 3 * k / 4, k.max(4) - 4, k.max(3) - 3, k.max(2) - 2, k.max(1) - 1][at];
            let mut new = old.clone();
            // by one as long
            match new.get_mut(at) {
                Some(c) => *c = match c.len_utf8() { 1 => 'q', 2 => 'ç', 3 => '本', _ => '😁' },
                None => return Ok(()),
            }
            if new == old {
                return Ok(());
            }
            let (old, new): (String, String) = (old.into_iter().collect(), new.into_iter().collect());
            let ops = vec![
                Join(1),
                ed(1, "f"),
                Op::Disk("f".into(), text(&new)),
                ed(1, "f"),
                // all of it selected, to see what it is
                mv(1, Mv::Begin, false),
                mv(1, Mv::End, true),
                Op::Disk("f".into(), text(&old)),
                sc(1, "b"),
                ed(1, "f"),
                mv(1, Mv::Begin, false),
                mv(1, Mv::End, true),
            ];
            let asp = rendered_upto(n, Aspects::RESP | Aspects::CONTEXTS | Aspects::RENDER);
            replay(&[("f", text(&old))], &ops, asp, run)?.expect("enabled");
            Ok(())
        }))
        .space(space("contents and names of all kinds", (ODD_TEXTS.len() * ODD_TEXTS.len() * 2 + ODD_NAMES.len()) as u64, move |i, run| {
            let n = ODD_TEXTS.len() as u64;
            if i >= n * n * 2 {
                let name = ODD_NAMES[(i - n * n * 2) as usize];
                let ops = [
                    Join(1),
                    ed(1, name),
                    Join(2),
                    Op::Disk(name.into(), text("new")),
                    ed(2, name),
                    mv(2, Mv::End, true),
                    del(2),
                    Op::Disk(name.into(), Disk::Missing),
                    ed(1, name),
                    va(2, "*scratch*"),
                    ViewDelete(1),
                    sc(2, name),
                ];
                replay(&[(name, text("old\n"))], &ops, Aspects::ALL, run)?.expect("enabled");
                return Ok(());
            }
            let (old, new) = (ODD_TEXTS[(i / 2 / n) as usize], ODD_TEXTS[(i / 2 % n) as usize]);
            if old == new {
                return Ok(());
            }
            let mut ops = vec![Join(1), ed(1, "f"), Join(2), mv(1, Mv::End, true), Op::Disk("f".into(), text(new)), ed(2, "f")];
            if i % 2 == 1 {
                ops.extend([del(1), ed(1, "f"), Op::Disk("f".into(), text(old)), ed(1, "f"), Op::Disk("f".into(), text(new)), ed(2, "f")]);
            }
            replay(&[("f", text(old))], &ops, Aspects::ALL, run)?.expect("enabled");
            Ok(())
        }))
        .space(files_of_characters())
        .space(Spelled::of(&[&session, &two_files], tier))
        .space(Repeated::wide(&session, tier))
        .space(Explored::new(session, tier.pick(4, 6), tier.pick(40_000, 800_000)))
        .space(Repeated::wide(&two_files, tier))
        .space(Explored::new(two_files, tier.pick(3, 5), tier.pick(30_000, 500_000)))
        .space(Repeated::of(&seqs_cfg, tier))
        .space(Sequences { cfg: seqs_cfg, depth: tier.pick(4, 6) })
        .assume("disk changes happen between requests, never while a file is being read")
}

/// Every menu opened again, by its own request or from the one of commands, after each two changes.
fn menus_again() -> impl Space {
    const MENUS: [&str; 7] = ["", "open", "scratch", "view_select", "view_add", "view_remove", "exec"];
    let changes = || -> Vec<Vec<Op>> {
        vec![
            vec![],
            vec![sc(1, "c")],
            vec![sc(2, "c"), ViewDelete(2)],
            vec![app(1, "c", "x")],
            vec![ViewDelete(1)],
            vec![vw(1, "b"), ViewDelete(1)],
            vec![va(2, "b")],
            vec![vw(2, "*scratch*"), vr(2, "*scratch*")],
            vec![ed(1, "f"), vw(1, "*scratch*")],
            vec![Op::Disk("g".into(), text("")), ed(2, "g")],
            vec![Op::Disk("d/n".into(), text("n"))],
            vec![Op::Disk("f".into(), Disk::Missing)],
            vec![Quit(2), Leave(2), Join(2)],
            vec![ex(1, &[Stmt::Scratch(2, "by script".into(), None)])],
        ]
    };
    let n = changes().len() as u64;
    space("menus opened again after two changes", 7 * n * n * 4, move |i, run| {
        let (command, how) = (MENUS[(i % 7) as usize], i / 7 % 4);
        let (x, y) = (i / 28 % n, i / 28 / n);
        let mut ops = vec![Join(1), Join(2), sc(1, "b")];
        for change in [0, x, y] {
            ops.extend(changes()[change as usize].iter().cloned());
            let (by, root) = match how {
                0 => (1, false),
                1 => (1, true),
                // by clients in turn
                2 => (1 + (ops.len() % 2), true),
                _ => (2, ops.len() % 2 == 0),
            };
            if root && command != "" {
                ops.extend([menu(by, "", ""), pick(by, "", command)]);
            } else {
                ops.push(menu(by, command, ""));
            }
            if ["open", "view_select", "view_add", "view_remove"].contains(&command) {
                ops.push(menu(1, command, "b"));
            }
        }
        // what is listed by then is what can be chosen
        for c in ["c", "b", "f", "b{*}", "g", "by script"] {
            if !["", "exec"].contains(&command) {
                ops.push(pick(1, command, c));
            }
        }
        let mut m = Model::new(&[("f", text("x\n")), ("d/e", text("y"))]);
        let mut enabled = vec![];
        for op in ops {
            if m.enabled(&op) {
                m.apply(&op, "");
                enabled.push(op);
            }
        }
        replay(&[("f", text("x\n")), ("d/e", text("y"))], &enabled, Aspects::RESP | Aspects::NOTES | Aspects::CONTEXTS, run)?.expect("enabled");
        Ok(())
    })
}

/// Files with every character in their names and contents.
fn files_of_characters() -> impl Space {
    let all = crate::model::text::around();
    space("every character in names and contents of files", all.len() as u64, move |i, run| {
        let t = &all[i as usize];
        let mut ops = vec![
            Join(1),
            ed(1, "g"),
            mv(1, Mv::Right, true),
            Op::Disk("g".into(), text(&format!("{}\n{}", t, t.repeat(2)))),
            ed(1, "g"),
            mv(1, Mv::Down, true),
            Join(2),
            Op::Disk("g".into(), text(&format!("{}\n", t))),
            ed(2, "g"),
        ];
        let name = t.as_str();
        let there = !name.contains(['/', '\0']) && name != "." && name != "..";
        if there {
            ops.push(Op::Disk(name.into(), text("ab\n")));
        }
        if name != "." && name != ".." && !name.starts_with('/') && !name.ends_with('/') {
            ops.extend([ed(1, name), mv(2, Mv::End, true)]);
        }
        if there {
            ops.extend([Op::Disk(name.into(), text("c")), ed(2, name), Op::Disk(name.into(), Disk::Missing), ed(1, name), ed(1, "g")]);
        }
        replay(&[("g", text("x"))], &ops, Aspects::ALL, run)?.expect("enabled");
        Ok(())
    })
}

fn changed_sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..tier.pick(12, 40)).collect();
    v.extend(crate::model::text::sizes(tier).into_iter().filter(|n| *n > 40 && *n < tier.pick(9_000, 200_000)));
    v
}

/// Views that go and come back under two clients, one of which looks elsewhere meanwhile.
fn coming_back() -> Config {
    Config {
        name: "views that go and come back",
        disk: vec![("f", text("ab\ncd"))],
        setup: vec![Join(1), Join(2), ed(1, "f")],
        ops: vec![
            ed(1, "f"),
            ed(2, "f"),
            sc(1, "b"),
            put(2, "f", "é"),
            mv(1, Mv::End, true),
            vw(1, "*scratch*"),
            vw(2, "f{*}|*scratch*{*}"),
            ViewDelete(2),
            vr(2, "*scratch*"),
            va(2, "*scratch*"),
            Op::Disk("f".into(), text("x")),
        ],
        asp: Aspects::ALL,
    }
}

fn big_pairs(tier: Tier) -> Vec<(String, String, String)> {
    let mut v = Vec::new();
    let sizes: &[usize] = tier.pick(&[1, 17, 300, 2500], &[1, 2, 17, 100, 300, 1000, 2500, 6000]);
    for &n in sizes {
        let numbered = |k: usize| -> String { (0..n).map(|i| format!("line {} of {}\n", i, k)).collect() };
        let base = numbered(1);
        let ls: Vec<&str> = base.lines().collect();
        let j = |v: Vec<&str>| -> String { v.iter().map(|l| format!("{}\n", l)).collect() };
        let h = n / 2;
        let news: Vec<(&str, String)> = vec![
            ("nothing kept", numbered(2)),
            ("other characters", "日本\n".repeat(n)),
            ("one long line", "y".repeat(n)),
            ("emptied", "\n".into()),
            ("first line gone", j(ls[1..].to_vec())),
            ("last line gone", j(ls[..n - 1].to_vec())),
            ("halves swapped", j([&ls[h..], &ls[..h]].concat())),
            ("every other line", j(ls.iter().step_by(2).copied().collect())),
            ("each line twice", j(ls.iter().flat_map(|l| [*l, *l]).collect())),
            ("reversed", j(ls.iter().rev().copied().collect())),
            ("one character changed", base.replacen("of", "oé", 1)),
            ("appended", format!("{}end", base)),
            ("prepended", format!("start{}", base)),
        ];
        for (name, new) in news {
            v.push((format!("{} lines, {}", n, name), base.clone(), new.clone()));
            v.push((format!("{} lines, {}, back", n, name), new, base.clone()));
        }
    }
    v
}

// --- C06

pub fn c06(tier: Tier) -> Check {
    let shared = Config {
        name: "deletions and overwrites of a buffer shared by two clients in two views",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "aé\n\n日c"), Join(2), va(2, "*scratch*"), vw(1, "b")],
        ops: vec![
            mv(1, Mv::Right, true),
            mv(1, Mv::Down, false),
            mv(1, Mv::End, true),
            mv(2, Mv::Right, false),
            mv(2, Mv::End, false),
            mv(2, Mv::Left, true),
            del(1),
            del(2),
            app(1, "b", "\u{301}x\n"),
            put(2, "b", "z"),
            vw(2, "b{*}"),
            vw(2, "*scratch*{*}|b{*}"),
        ],
        asp: Aspects::ALL,
    };
    let reload = Config {
        name: "deletions and reloads of a file by three clients",
        disk: vec![("f", text("ab\ncd\nef"))],
        setup: vec![Join(1), ed(1, "f"), Join(2)],
        ops: vec![
            mv(1, Mv::Down, true),
            mv(1, Mv::LineEnd, true),
            mv(2, Mv::End, true),
            mv(2, Mv::Up, false),
            del(1),
            del(2),
            ed(1, "f"),
            va(2, "*scratch*"),
            vw(2, "f"),
            app(2, "f", "\n"),
            Op::Disk("f".into(), text("x")),
            Op::Disk("f".into(), text("é\nab\ncd\nef\n")),
            Join(3),
            mv(3, Mv::End, false),
        ],
        asp: Aspects::ALL,
    };
    let seq = Config {
        name: "moves and deletions",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "é\na日\n"), Join(2)],
        ops: vec![
            mv(1, Mv::Right, true),
            mv(1, Mv::Down, true),
            mv(2, Mv::End, false),
            mv(2, Mv::Up, true),
            del(1),
            del(2),
        ],
        asp: Aspects::ALL,
    };
    let back = coming_back();
    // what a deletion reports, for every selection of every small text
    let texts = words(&["a", "\n", "é", "e\u{301}", "\r\n"], tier.pick(3, 4));
    let n = texts.len() as u64;
    Check::new("C06")
        .space(Spelled::of(&[&back, &shared, &reload], tier))
        .space(of_characters("every character deleted, and those around it", |t| {
            let txt = format!("{}\nx{}y\n{}{}", t, t, t, t);
            let mut ops = vec![Join(1), Join(2)];
            for k in 0..6 {
                ops.extend([put(1, "b", &txt), vw(2, "b"), mv(2, Mv::End, k % 2 == 1), mv(1, Mv::Begin, false)]);
                ops.extend((0..k).map(|_| mv(1, Mv::Right, false)));
                ops.extend([del(1), mv(1, Mv::Right, true), del(1), mv(2, Mv::Up, true), mv(1, Mv::Down, true), del(1), del(2)]);
            }
            ops
        }))
        .space(Explored::new(spelled(&back, SPELLINGS[0]), tier.pick(5, 6), tier.pick(30_000, 200_000)))
        .space(Repeated::wide(&back, tier))
        .space(Explored::new(back, tier.pick(5, 7), tier.pick(30_000, 900_000)))
        .space(space("every selection of every small text deleted", n, move |i, run| {
            let txt = &texts[i as usize];
            let ps = positions(if txt.is_empty() { "\n" } else { txt });
            for b in 0..ps.len() {
                for e in 0..ps.len() {
                    let mut m = Model::new(&[]);
                    let mut rig = Rig::new();
                    let mut ops = vec![Join(1), put(1, "b", txt)];
                    ops.extend((0..b).map(|_| mv(1, Mv::Right, false)));
                    for k in 0..b.abs_diff(e) {
                        let _ = k;
                        ops.push(mv(1, if e > b { Mv::Right } else { Mv::Left }, true));
                    }
                    for op in &ops {
                        run.step(show(op));
                        rig.apply(&mut m, op, Aspects::RESP)?;
                    }
                    run.step("delete the selection, looking at what is reported");
                    rig.delete_reporting(&mut m, 1)?;
                    run.state(&m);
                    rig.check_state(&m, Aspects::ALL)?;
                }
            }
            Ok(())
        }))
        .space(Repeated::wide(&shared, tier))
        .space(Explored::new(shared, tier.pick(4, 6), tier.pick(45_000, 900_000)))
        .space(Repeated::wide(&reload, tier))
        .space(Explored::new(reload, tier.pick(4, 6), tier.pick(40_000, 600_000)))
        .space(Repeated::of(&seq, tier))
        .space(Sequences { cfg: seq, depth: tier.pick(5, 7) })
        .space(sized("deletions in large texts", tier, tier.pick(4100, 70_000), 5 * 4, Aspects::ALL, |n, kind| {
            let mut ops = vec![Join(1), put(1, "b", &sized_text(n, kind / 4)), Join(2), vw(2, "b"), mv(2, Mv::End, false)];
            ops.extend(match kind % 4 {
                0 => vec![mv(1, Mv::End, true), del(1)],
                1 => vec![mv(1, Mv::Down, false), mv(1, Mv::LineEnd, true), del(1), mv(1, Mv::LineEnd, true), del(2)],
                2 => vec![mv(1, Mv::Right, false), mv(1, Mv::End, true), mv(1, Mv::Left, true), del(1)],
                _ => vec![mv(1, Mv::End, false), mv(1, Mv::Left, true), del(1), mv(2, Mv::Begin, true), mv(2, Mv::Right, true), del(2)],
            });
            ops.push(app(1, "b", "é"));
            (vec![], ops)
        }))
        .space(space("deletions in several buffers at once", 64, |i, run| {
            let steps = decode_seq(i, 4, 3);
            let mut m = Model::new(&[]);
            let mut rig = Rig::new();
            let mut ops = vec![Join(1), put(1, "b", "ab\ncd\n"), put(1, "d", "日x"), va(1, "b"), va(1, "*scratch*"), Join(2)];
            for s in steps {
                ops.push([mv(1, Mv::Right, true), mv(1, Mv::Down, false), mv(2, Mv::End, true), del(2)][s].clone());
            }
            for op in &ops {
                run.step(show(op));
                rig.apply(&mut m, op, Aspects::RESP)?;
            }
            rig.delete_reporting(&mut m, 1)?;
            rig.check_state(&m, Aspects::ALL)
        }))
}

// --- C07

pub fn c07(tier: Tier) -> Check {
    let asp = Aspects::REFRESH | Aspects::RENDER;
    let base = |name, setup: Vec<Op>, ops: Vec<Op>| Config {
        name,
        disk: vec![("f", text("a\nb\n")), ("g", text("日"))],
        setup,
        ops,
        asp,
    };
    let sharing = base(
        "three clients sharing buffers and views",
        vec![Join(1), put(1, "b", "aé\n日\n"), Join(2), va(2, "*scratch*"), Join(3), vw(3, "*scratch*")],
        vec![
            mv(1, Mv::Right, true),
            mv(2, Mv::Down, true),
            del(1),
            del(2),
            app(3, "b", "x\n"),
            app(3, "*scratch*", "y"),
            put(3, "b", "q"),
            vw(1, "*scratch*"),
            vw(3, "b"),
            va(1, "*scratch*"),
            va(3, "b"),
            vr(2, "b"),
            vr(2, "*scratch*"),
            ViewDelete(2),
            ViewDelete(3),
            ks(1, &["g", "l"]),
            Leave(2),
            Join(2),
        ],
    );
    let logs = base(
        "clients looking at the logs and at files",
        vec![Join(1), ks(1, &["m"]), ks(1, &["e"]), Join(2)],
        vec![
            ks(1, &["m"]),
            ks(1, &["e"]),
            ks(2, &["m"]),
            vw(1, "*messages*"),
            vw(2, "*errors*"),
            vw(2, "*messages*"),
            va(1, "*errors*"),
            vw(2, "*debug*"),
            va(2, "*debug*"),
            ed(1, "f"),
            ed(2, "f"),
            Op::Disk("f".into(), text("b\nc")),
            Op::Disk("f".into(), Disk::Missing),
            ex(2, &[Stmt::Message(1, "to one".into()), Stmt::Fail]),
            Op::Unknown(1, "nothing".into()),
            Op::Malformed(2, "{".into()),
            ViewDelete(1),
            Quit(2),
            Leave(2),
            Join(2),
        ],
    );
    let texts = words(&["a", "\n", "é", "e\u{301}", "\r\n", "\t"], tier.pick(3, 4));
    let n = texts.len() as u64;
    Check::new("C07")
        .space(Spelled::of(&[&sharing, &logs], tier))
        .space(space("every selection of every small text is highlighted", n, move |i, run| {
            let txt = &texts[i as usize];
            let mut m = Model::new(&[]);
            let mut rig = Rig::new();
            for op in [Join(1), put(1, "b", txt)] {
                rig.apply(&mut m, &op, Aspects::RESP)?;
            }
            let ps = positions(m.buffers["b"].text.as_ref().unwrap()).len();
            for b in 0..ps {
                for e in 0..ps {
                    let mut st = vec![Stmt::Move(1, Mv::Begin, false)];
                    st.extend((0..b).map(|_| Stmt::Move(1, Mv::Right, false)));
                    let d = if e > b { Mv::Right } else { Mv::Left };
                    st.extend((0..b.abs_diff(e)).map(|_| Stmt::Move(1, d, true)));
                    let op = ex(1, &st);
                    run.step(show(&op));
                    rig.apply(&mut m, &op, Aspects::RESP)?;
                    rig.check_state(&m, asp | Aspects::CONTEXTS)?;
                    run.state(&m);
                }
            }
            Ok(())
        }))
        .space(Repeated::wide(&sharing, tier))
        .space(Explored::new(sharing, tier.pick(4, 5), tier.pick(60_000, 900_000)))
        .space(Repeated::wide(&logs, tier))
        .space(Explored::new(logs, tier.pick(4, 5), tier.pick(50_000, 900_000)))
        .space(sized("views of large texts", tier, tier.pick(4100, 70_000), 5, asp, |n, kind| {
            let t = sized_text(n, kind);
            let ops = vec![
                Join(1),
                ed(1, "f"),
                Join(2),
                mv(1, Mv::Down, true),
                mv(1, Mv::End, true),
                mv(2, Mv::End, false),
                app(2, "f", "é\nend"),
                va(1, "*scratch*"),
                mv(1, Mv::Left, true),
                del(1),
                Op::Disk("f".into(), text("x\ny")),
                ed(2, "f"),
                vw(2, "f{*}"),
                Op::Disk("f".into(), text(&t)),
                ed(2, "f"),
            ];
            (vec![("f", text(&t))], ops)
        }))
        .space(space("views of many buffers, and many views", tier.pick(24, 70) * 5, move |i, run| {
            replay(&[], &many_views(i as usize / 5 + 1, i as usize % 5), asp | Aspects::RESP, run)?.expect("enabled");
            Ok(())
        }))
        .space(crowd("views of many clients", tier, asp | Aspects::RESP))
        .space(of_characters("every character highlighted", |t| {
            let txt = format!("{}\nx{}y\n{}{}", t, t, t, t);
            vec![
                Join(1),
                put(1, "b", &txt),
                va(1, SCRATCH),
                mv(1, Mv::Right, true),
                mv(1, Mv::Down, true),
                mv(1, Mv::Right, true),
                mv(1, Mv::Right, true),
                mv(1, Mv::End, true),
                mv(1, Mv::Left, false),
                mv(1, Mv::Up, true),
                Join(2),
                mv(2, Mv::Begin, false),
                mv(2, Mv::LineEnd, true),
                del(2),
            ]
        }))
        .assume("notifications are delivered to a client as the server delivers them, in order")
}

/// Many views or buffers, which then go in some order.
fn many_views(n: usize, kind: usize) -> Vec<Op> {
    let name = |k: usize| format!("b{}", k);
    let mut ops = vec![Join(1), Join(2)];
    for k in 0..n {
        match kind {
            // without being shown
            4 => ops.push(app(1 + k % 2, &name(k), &format!("text {}\n", k))),
            _ => ops.push(put(1 + k % 2, &name(k), &format!("text {}\n", k))),
        }
        match kind {
            // one view of all
            1 if k > 0 => ops.extend([vw(1, &name(k - 1)), va(1, &name(k))]),
            1 => ops.push(va(1, &name(k))),
            4 => ops.push(va(1, &name(k))),
            // each with the scratch buffer
            2 => ops.push(va(1 + k % 2, SCRATCH)),
            _ => {}
        }
    }
    for k in 0..n {
        match kind {
            0 => ops.push(ViewDelete(1 + k % 2)),
            1 if k % 2 == 0 => ops.push(vr(1, &name(k))),
            1 => ops.push(app(2, &name(k), "more")),
            2 => ops.extend([vr(1, SCRATCH), ViewDelete(2)]),
            4 if k == 0 => ops.extend([vw(2, "*messages*"), ViewDelete(1), menu(2, "view_add", "")]),
            4 if k % 3 == 1 => ops.extend([app(2, &name(k), "again"), vw(1, &name(k))]),
            4 => ops.push(vw(1, &name(k))),
            _ => ops.extend([vw(2, &name((k * 7) % n)), sc(1, &name((k * 5) % n)), ViewDelete(2), ex(1, &[Stmt::Context(1)])]),
        }
    }
    ops
}

/// Items at all places of the status lines of two clients, among those of keys and modes.
fn status_items(asp: Aspects) -> impl Space {
    const PLACES: [i64; 22] = [
        i32::MIN as i64, -1_000_000, -256, -101, -85, -5, -1, 0, 1, 5, 9, 10, 79, 81, 85, 89, 91, 99, 101, 256, 65536, i32::MAX as i64,
    ];
    let n = PLACES.len() as u64;
    space("items of the status line at every two places", n * n * 2, move |i, run| {
        let (a, b) = (PLACES[(i / 2 / n) as usize], PLACES[(i / 2 % n) as usize]);
        if a == b {
            return Ok(());
        }
        let names = [["a", "b"], ["mode2", "É "]][i as usize % 2];
        let item = |c: Cid, k: usize, at: i64| Stmt::Item(c, names[k].into(), at, format!("{} at {}", names[k], at));
        let ops = [
            Join(1),
            Join(2),
            ex(1, &[item(2, 0, a), item(2, 1, b), Stmt::Status(2), Stmt::Status(1)]),
            ks(2, &["l", "i"]),
            ex(2, &[item(1, 0, b), Stmt::Status(1)]),
            ks(1, &["g"]),
            ex(2, &[item(1, 1, a), item(2, 1, a.max(b) - 1), item(2, 0, a.max(b)), Stmt::Status(1), Stmt::Status(2)]),
            ks(2, &["esc", "m"]),
        ];
        // no two at one place, whose order is open
        if [79, 89, 99].iter().any(|k| a.max(b) - 1 == *k + 1) {
            return Ok(());
        }
        replay(&[], &ops, asp, run)?.expect("enabled");
        Ok(())
    })
}

/// Short runs with every character.
fn of_characters(name: &str, ops: impl Fn(&str) -> Vec<Op> + Sync + Send + 'static) -> impl Space {
    let all = crate::model::text::around();
    space(name, all.len() as u64, move |i, run| {
        replay(&[], &ops(&all[i as usize]), Aspects::ALL, run)?.expect("enabled");
        Ok(())
    })
}

/// Many clients looking at a few views, which change under them.
fn crowd(name: &str, tier: Tier, asp: Aspects) -> impl Space {
    space(name, tier.pick(36, 140) * 5, move |i, run| {
        let (n, kind) = (i as usize / 5 + 1, i as usize % 5);
        let mut ops = vec![Join(1), put(1, "b", "ab\ncd\nef\n"), ed(1, "f")];
        for c in 2..=n {
            ops.push(Join(c));
            match (kind, c % 3) {
                // all in one view, or in several
                (0, _) => ops.push(vw(c, "b")),
                (_, 0) => ops.push(vw(c, "b")),
                (1, 1) => ops.push(vw(c, "*messages*")),
                (_, 1) => ops.extend([vw(c, "b"), va(c, "f")]),
                _ => {}
            }
            if c % 4 == 1 {
                ops.push(mv(c, Mv::End, c % 2 == 0));
            }
        }
        let last = n;
        ops.extend([
            mv(last, Mv::Right, true),
            del(last),
            app(1, "b", "z\n"),
            Op::Disk("f".into(), text("changed\nfile")),
            ed(1, "f"),
        ]);
        if kind == 2 {
            // some leave
            ops.extend((2..n).filter(|c| c % 2 == 0).map(Leave));
        }
        ops.extend([vw(1, "b"), va(1, "*scratch*"), vr(last, "b"), vw(last, "b"), ViewDelete(last), sc(1, "b"), ViewDelete(1)]);
        replay(&[("f", text("a\nb\n"))], &ops, asp, run)?.expect("enabled");
        Ok(())
    })
}

// --- C08

pub fn c08(tier: Tier) -> Check {
    let per_client = |c: Cid, names: &[&str]| -> Vec<Op> {
        let mut v = vec![ViewDelete(c)];
        for n in names {
            v.push(sc(c, n));
            v.push(va(c, n));
            v.push(vr(c, n));
            v.push(vw(c, n));
        }
        v
    };
    let mut one = per_client(1, &["b", "d", "*scratch*", "nope"]);
    one.retain(|o| !matches!(o, Op::Edit(_, n, _) if n == "nope"));
    one.extend([vw(1, "b{*}"), vw(1, "*scratch*{*}|b{*}"), vr(1, "*debug*"), Join(2), Leave(2), Leave(1), Join(1)]);
    let one = Config { name: "one client", disk: vec![], setup: vec![Join(1)], ops: one, asp: Aspects::ALL };
    let mut two = per_client(1, &["b", "*scratch*"]);
    two.extend(per_client(2, &["b", "*scratch*"]));
    two.extend([
        vr(1, "*debug*"),
        vw(2, "*debug*{*}|*scratch*{*}"),
        put(2, "d", "x"),
        mv(1, Mv::Right, false),
        mv(2, Mv::End, false),
        ks(1, &["m"]),
        Leave(2),
        Join(2),
        Quit(1),
        Join(3),
        ViewDelete(3),
    ]);
    let two = Config {
        name: "three clients",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "ab"), Join(2)],
        ops: two,
        asp: Aspects::ALL,
    };
    let odd = Config {
        name: "names that look like views",
        disk: vec![],
        setup: vec![Join(1), Join(2)],
        ops: {
            let mut v = Vec::new();
            for n in ["a", "b", "a{*}|b", "a{*}", "\\"] {
                v.push(sc(1, n));
                v.push(va(1, n));
                v.push(vr(2, n));
            }
            v.extend([sc(2, "a"), va(2, "b"), ViewDelete(1), ViewDelete(2), vw(2, "a{*}|b{*}"), vw(2, "a\\{*}|b{*}"), vw(2, "a{*}")]);
            v
        },
        asp: Aspects::ALL,
    };
    let files = Config {
        name: "files in views",
        disk: vec![("f", text("x"))],
        setup: vec![Join(1), Join(2)],
        ops: vec![
            ed(1, "f"),
            ed(2, "f"),
            sc(1, "f"),
            va(1, "f"),
            va(2, "f"),
            vr(1, "f"),
            vr(1, "*scratch*"),
            ViewDelete(1),
            ViewDelete(2),
            menu(2, "view_add", ""),
            pick(2, "view_add", "f"),
            pick(2, "view_remove", "f"),
            menu(1, "view_remove", ""),
            menu(1, "view_select", ""),
            pick(1, "view_select", "f{*}"),
            pick(1, "", "view_delete"),
            menu(1, "", ""),
            Op::Disk("f".into(), Disk::Missing),
        ],
        asp: Aspects::ALL,
    };
    let seq = Config {
        name: "two clients",
        disk: vec![],
        setup: vec![Join(1), Join(2)],
        ops: vec![
            sc(1, "b"),
            sc(2, "d"),
            va(1, "b"),
            va(2, "b"),
            vr(1, "*scratch*"),
            vr(2, "b"),
            ViewDelete(1),
            ViewDelete(2),
            vw(2, "*scratch*"),
        ],
        asp: Aspects::ALL,
    };
    let unseen = Config {
        name: "buffers written to while nobody looks",
        disk: vec![],
        setup: vec![Join(1)],
        ops: vec![
            sc(1, "b"),
            ViewDelete(1),
            app(1, SCRATCH, "x\ny"),
            app(1, "b", "é"),
            vw(1, SCRATCH),
            va(1, "b"),
            vr(1, SCRATCH),
            mv(1, Mv::End, true),
        ],
        asp: Aspects::ALL,
    };
    let deserted = Config {
        name: "everyone leaves, others come",
        disk: vec![("f", text("ab"))],
        setup: vec![Join(1)],
        ops: vec![
            sc(1, "b"),
            sc(1, ""),
            ed(1, "f"),
            va(1, ""),
            app(1, "b", "x"),
            ViewDelete(1),
            Quit(1),
            Leave(1),
            Join(2),
            vw(2, "b"),
            vw(2, ""),
            vw(2, "{*}"),
            va(2, "f"),
            mv(2, Mv::End, true),
            ViewDelete(2),
            Leave(2),
            Join(3),
        ],
        asp: Aspects::ALL,
    };
    let back = coming_back();
    Check::new("C08")
        .space(Explored::new(deserted, tier.pick(5, 7), tier.pick(30_000, 400_000)))
        .space(Spelled::of(&[&back, &one, &two, &files], tier))
        .space(Explored::new(unseen, tier.pick(6, 8), tier.pick(30_000, 600_000)))
        .space(Explored::new(spelled(&back, SPELLINGS[0]), tier.pick(5, 6), tier.pick(30_000, 200_000)))
        .space(Repeated::wide(&back, tier))
        .space(Explored::new(back, tier.pick(5, 7), tier.pick(30_000, 900_000)))
        .space(Repeated::wide(&one, tier))
        .space(Explored::new(one, tier.pick(4, 6), tier.pick(40_000, 900_000)))
        .space(Repeated::wide(&two, tier))
        .space(Explored::new(two, tier.pick(3, 5), tier.pick(40_000, 900_000)))
        .space(Repeated::wide(&odd, tier))
        .space(Explored::new(odd, tier.pick(4, 5), tier.pick(30_000, 400_000)))
        .space(Repeated::wide(&files, tier))
        .space(Explored::new(files, tier.pick(3, 5), tier.pick(20_000, 400_000)))
        .space(Repeated::of(&seq, tier))
        .space(Sequences { cfg: seq, depth: tier.pick(4, 6) })
        .space(space("every two names", (all_names().len() * all_names().len() * 2) as u64, move |i, run| {
            let names = all_names();
            let n = names.len() as u64;
            let (x, y) = (names[(i / 2 / n) as usize], names[(i / 2 % n) as usize]);
            if x == y {
                return Ok(());
            }
            let mut ops = vec![Join(1), Join(2), sc(1, x), app(1, x, "ab\ncd"), sc(2, y), app(1, y, "é")];
            if i % 2 == 0 {
                ops.extend([mv(1, Mv::Down, true), va(1, y), mv(2, Mv::End, false), ViewDelete(2), vw(2, x), vr(1, x), ViewDelete(1)]);
            } else {
                ops.extend([va(2, x), mv(2, Mv::End, true), ViewDelete(1), vr(2, y), del(2), vw(1, y), sc(1, y), ViewDelete(2)]);
            }
            ops.extend([menu(2, "view_select", ""), vw(1, y), vw(2, x), sc(2, x), sc(1, y), ViewDelete(2), vw(2, y)]);
            replay(&[], &ops, Aspects::ALL, run)?.expect("enabled");
            Ok(())
        }))
        .space(space("many views and buffers", tier.pick(20, 40) * 5, move |i, run| {
            replay(&[], &many_views(i as usize / 5 + 1, i as usize % 5), Aspects::ALL, run)?.expect("enabled");
            Ok(())
        }))
        .space(crowd("many clients", tier, Aspects::ALL))
        .space(of_characters("every character in names of buffers", |t| {
            vec![
                Join(1),
                Join(2),
                sc(1, t),
                app(1, t, "ab\ncd"),
                va(1, SCRATCH),
                mv(1, Mv::End, true),
                va(2, t),
                app(2, &format!("{}2", t), "x"),
                va(2, &format!("{}2", t)),
                vw(1, t),
                vr(2, t),
                menu(2, "view_select", ""),
                vw(2, &view_key(&crate::model::editor::single(t))),
                ViewDelete(1),
                vw(1, t),
                ViewDelete(2),
            ]
        }))
        .assume("states of the model are merged when disk, buffers, views in order, clients and shown menus are equal")
}

// --- C09

pub fn c09(tier: Tier) -> Check {
    let per = |c: Cid, o: Cid| {
        vec![
            ks(c, &["l"]),
            ks(c, &["i"]),
            ks(c, &["esc"]),
            ks(c, &["s-g"]),
            ks(c, &["d"]),
            menu(c, "view_select", ""),
            menu(c, "view_add", "b"),
            pick(c, "view_select", "b{*}"),
            sc(c, "b"),
            vw(c, "*scratch*"),
            va(c, "*scratch*"),
            ViewDelete(c),
            ex(c, &[Stmt::Message(o, "hi".into())]),
            ex(c, &[Stmt::Message(o, "".into()), Stmt::Whoami]),
            ex(c, &[Stmt::Error(o, "no\n  no".into())]),
            ex(c, &[Stmt::Move(o, Mv::End, true)]),
            ex(c, &[Stmt::Status(o)]),
            ex(c, &[Stmt::Item(o, "it".into(), 70 + 7 * c as i64, format!("of {}", c)), Stmt::Status(c), Stmt::Status(o)]),
            ex(c, &[Stmt::Hint(o, vec!["a hint".into(), "in lines".into()], true), Stmt::Hint(c, vec!["x".into()], false)]),
            Op::Unknown(c, "foo".into()),
            ed(c, "missing"),
            Quit(c),
            Leave(c),
        ]
    };
    let mut ops = per(1, 2);
    ops.extend(per(2, 1));
    ops.extend([Join(1), Join(2)]);
    let two = Config {
        name: "two clients doing all sorts of things",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "a日\n\nb"), Join(2)],
        ops: ops.clone(),
        asp: Aspects::ALL,
    };
    let three = Config {
        name: "three clients joining and leaving",
        disk: vec![("f", text("x\ny"))],
        setup: vec![Join(1), put(1, "b", "ab\ncd"), Join(2)],
        ops: {
            let mut v = Vec::new();
            for c in 1..=3 {
                v.extend([
                    Join(c),
                    Leave(c),
                    ks(c, &["l"]),
                    ks(c, &["g", "l"]),
                    ks(c, &["i"]),
                    ex(c, &[Stmt::Message(c % 3 + 1, "x".into())]),
                    ed(c, "f"),
                    menu(c, "", ""),
                    del(c),
                ]);
            }
            v
        },
        asp: Aspects::ALL,
    };
    let seq = Config {
        name: "two clients",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "a日\n\nb"), Join(2)],
        ops: vec![
            ks(1, &["l"]),
            ks(2, &["j"]),
            ks(1, &["g"]),
            ks(2, &["s-g"]),
            ks(2, &["l"]),
            del(2),
            sc(1, "d"),
            menu(2, "view_add", ""),
            ex(1, &[Stmt::Error(2, "x".into())]),
            ex(1, &[Stmt::Status(2), Stmt::Status(1)]),
        ],
        asp: Aspects::ALL,
    };
    let told = words(&["a", " ", "\n", "\t", "é", "|", "2", "*"], tier.pick(3, 4));
    let sessions: Vec<String> = all_names().into_iter().map(str::to_owned).chain(crate::model::text::characters().iter().map(|c| format!("x{}y", c))).collect();
    let nsession = sessions.len() as u64;
    // client numbers that could be taken for one another
    let mut ids: Vec<usize> = (1..=tier.pick(24, 130)).collect();
    ids.extend([111, 1000000]);
    for shift in [5, 6, 7, 8, 15, 16, 31, 32] {
        ids.extend((0..3).map(|d| (1usize << shift) + d));
    }
    ids.sort();
    ids.dedup();
    Check::new("C09")
        .space(Spelled::of(&[&three], tier))
        .space(Repeated::wide(&two, tier))
        .space(Explored::new(two, tier.pick(3, 5), tier.pick(40_000, 1_000_000)))
        .space(Repeated::wide(&three, tier))
        .space(Explored::new(three, tier.pick(3, 5), tier.pick(30_000, 800_000)))
        .space(Repeated::of(&seq, tier))
        .space(Sequences { cfg: seq, depth: tier.pick(4, 6) })
        .space(super::sessions::identities(tier))
        .space(space("texts told to one client, and to itself", told.len() as u64 * 2, move |i, run| {
            let t = told[i as usize / 2].clone();
            let (c, o) = [(1, 2), (2, 1)][i as usize % 2];
            let ops = [
                Join(1),
                Join(2),
                Join(3),
                ex(c, &[Stmt::Message(o, t.clone())]),
                ex(c, &[Stmt::Error(o, t.clone())]),
                ex(c, &[Stmt::Message(c, t.clone()), Stmt::Whoami]),
                ex(c, &[Stmt::Hint(o, vec![t.clone()], false), Stmt::Hint(o, vec![t.clone(), t.clone()], true)]),
                ex(c, &[Stmt::Item(o, t.clone(), 10, t.clone()), Stmt::Status(o), Stmt::Status(c)]),
                sc(c, &format!("b{}", t)),
                menu(o, "view_select", &t),
                ed(o, &format!("none{}", t.replace('\n', " "))),
                Op::Unknown(c, t.clone()),
            ];
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(status_items(Aspects::ALL))
        .space(of_characters("every character told to one client", |t| {
            vec![
                Join(1),
                Join(2),
                ex(1, &[Stmt::Message(2, t.into()), Stmt::Error(2, t.into()), Stmt::Message(1, t.into()), Stmt::Whoami]),
                ex(2, &[Stmt::Hint(1, vec![t.into()], false), Stmt::Hint(1, vec![t.into(), t.into()], true)]),
                ex(1, &[Stmt::Item(2, t.into(), 10, t.into()), Stmt::Status(2), Stmt::Status(1)]),
                ks(2, &["l"]),
                menu(2, "scratch", t),
                ed(2, &format!("none/{}", t)),
                Op::Unknown(1, t.into()),
            ]
        }))
        .space(space("what clients are told of themselves", nsession * 9, move |i, run| {
            let (name, kind) = (sessions[i as usize / 9].as_str(), i as usize % 9);
            // scripts which leave something else behind
            let left = ["", "env = nil", "env = 5", "env.client = '7' env.session = 'x'", "setmetatable(env, { __newindex = error })", "local env = 1", "env = env.client", "error(env)", "session = '' client = '9'"][kind];
            run.note(format!("session {:?}, after a script {:?}", name, left));
            let (tx, rx) = async_channel::unbounded();
            let mut editor = ced::editor::Editor::new(name, tx);
            let who = "editor:message(tonumber(env.client), env.client .. '@' .. env.session)".to_owned();
            for c in [1, 300] {
                editor.add_client(c);
                let _ = editor.command_exec(c, &left.to_owned());
                editor.add_client(c + 1);
                while rx.try_recv().is_ok() {}
                for d in [c + 1, c] {
                    ensure!(editor.command_exec(d, &who).is_ok(), "a script of client {} fails", d);
                    let mut told = vec![];
                    while let Ok(m) = rx.try_recv() {
                        ensure!(m.should_notify(d) && !m.should_notify(601 - d), "a script of client {} notifies others", d);
                        let p: Value = m.message.params().unwrap().unwrap_or(Value::Null);
                        if m.message.method == "echo" {
                            told.push(plain(&p));
                        }
                    }
                    ensure_eq!(told, vec![format!("{}@{}", d, name)], "what client {} is told it is", d);
                }
                editor.add_client(c + 2);
                let mut seen = (false, false);
                while let Ok(m) = rx.try_recv() {
                    let p: Value = m.message.params().unwrap().unwrap_or(Value::Null);
                    match m.message.method.as_str() {
                        "info" => {
                            ensure!(p["session"] == name && p["client"] == (c + 2).to_string(), "client {} of session {:?} is told {}", c + 2, name, p);
                            seen.0 = m.should_notify(c + 2) && !m.should_notify(c);
                        }
                        "status" => {
                            ensure!(plain(&p[0]["text"]) == format!("[{}@{}]", c + 2, name), "status of client {} of session {:?}: {}", c + 2, name, p);
                            seen.1 = m.should_notify(c + 2) && !m.should_notify(c);
                        }
                        _ => {}
                    }
                }
                ensure_eq!(seen, (true, true), "information and status for a new client");
            }
            run.state(&i);
            Ok(())
        }))
        .space(space("pairs of client numbers", (ids.len() * ids.len()) as u64, move |i, run| {
            let (a, b) = (ids[i as usize / ids.len()], ids[i as usize % ids.len()]);
            if a == b {
                return Ok(());
            }
            let mut ops = vec![Join(a), put(a, "b", "ab\ncd"), Join(b)];
            for (c, o) in [(a, b), (b, a)] {
                ops.extend([
                    ks(c, &["l"]),
                    ks(c, &["g"]),
                    ks(o, &["i"]),
                    ex(c, &[Stmt::Message(o, "hi".into()), Stmt::Whoami]),
                    ex(o, &[Stmt::Whoami]),
                    menu(c, "", ""),
                    Op::Unknown(o, "foo".into()),
                ]);
            }
            // what scripts may do with one who left, and with one who comes back
            ops.extend([
                Leave(a),
                ks(b, &["m"]),
                ex(b, &[Stmt::Status(a)]),
                ex(b, &[Stmt::Item(a, "late".into(), 5, "x".into())]),
                ex(b, &[Stmt::Move(a, Mv::Right, true), Stmt::Message(b, "never".into())]),
                Leave(b),
                Join(a),
                ex(a, &[Stmt::Status(b)]),
                ex(a, &[Stmt::Status(a)]),
                ks(a, &["i"]),
            ]);
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
}

// --- C10

/// Requests refused, or not, with texts of all sizes in which a cut at any byte is within a character.
fn texts_in_requests(tier: Tier) -> impl Space {
    let few = tier.pick(70, 300);
    let mut ns: Vec<usize> = (0..few).collect();
    ns.extend(crate::model::text::sizes(tier).into_iter().filter(|n| *n > few && *n < 70_000));
    const KINDS: usize = 24;
    let mut texts: Vec<(String, String)> = Vec::new();
    for n in ns {
        for v in ["", "v"] {
            texts.push((format!("{:?} and {} times é", v, n), format!("{}{}", v, "é".repeat(n))));
        }
    }
    // and every character; the letter before keeps it from being something else
    texts.extend(crate::model::text::characters().iter().map(|c| format!("v{}", c)).map(|t| (format!("{:?}", t), t)));
    space("texts of all sizes where they do not belong", (texts.len() * KINDS) as u64, move |i, run| {
        let (size, t) = texts[i as usize / KINDS].clone();
        let q = json!(t);
        let req = |id: &Value, m: &str, p: Value| json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}).to_string();
        let one = json!(1);
        let asked = |c: &str, s: &str| json!({"command": c, "search": s});
        let choice = |c: &str, s: &str| json!({"command": c, "choice": s});
        let script = |f: &str| json!(format!("{}", f.replace("TEXT", &lua_str(&t))));
        let kind = i as usize % KINDS;
        let (line, id, codes): (String, Value, &[i64]) = match kind {
            0 => (req(&one, &format!("no{}", t), json!([])), one, &[-32601]),
            1 => (req(&one, "no", json!([q])), one, &[-32601]),
            2 => (q.to_string(), Value::Null, &[-32600, -32700]),
            3 => (t.clone(), Value::Null, &[-32600, -32700]),
            4 => (req(&one, "edit", q), one, &[-32602]),
            5 => (req(&one, "keys", json!([q])), one, &[-32602]),
            6 => (req(&one, "menu", asked(&format!("no{}", t), "")), one, &[-32602]),
            7 => (req(&one, "menu-select", choice("view_select", &format!("no{}", t))), one, &[-32602]),
            8 => (req(&one, "menu-select", choice(&format!("no{}", t), "")), one, &[-32602]),
            9 => (req(&one, "edit", json!({"name": format!("no{}", t), "scratch": false})), one, &[-32600]),
            10 => (req(&one, "edit", json!({"name": t, "scratch": true})), one, &[0]),
            11 => (req(&one, "view", json!(format!("no{}", t))), one, &[-32600]),
            12 => (req(&one, "view-add", json!(format!("no{}", t))), one, &[-32600]),
            13 => (req(&one, "view-remove", json!(format!("no{}", t))), one, &[-32600]),
            14 => (req(&one, "exec", script("error(TEXT)")), one, &[1]),
            15 => (req(&one, "exec", json!(format!("={}", t))), one, &[1]),
            16 => (req(&one, "exec", script("editor:message(1, TEXT)")), one, &[0]),
            17 => (req(&one, "exec", script("editor:error(1, TEXT)")), one, &[0]),
            18 => (req(&one, "exec", script("editor:show_hint(1, {TEXT, 'x'}, true)")), one, &[0]),
            19 => (req(&q, "no", json!([])), q, &[-32601]),
            20 => (req(&q, "edit", json!([])), q, &[-32602]),
            21 => (req(&q, "exec", json!("=")), q, &[1]),
            22 => (req(&one, "exec", script("editor:scratch(1, TEXT, TEXT) editor:append_to(TEXT, TEXT)")), one, &[0]),
            _ => (req(&one, "exec", script("editor.clients[1].status_line[TEXT] = {index = 1, text = TEXT} editor:push_status_line(1)")), one, &[0]),
        };
        run.note(format!("kind {}, text {}", kind, size));
        run.transitions += 1;
        reset_disk(&BTreeMap::new());
        let mut m = Model::new(&[]);
        let mut rig = Rig::new();
        rig.apply(&mut m, &Join(1), Aspects::RESP)?;
        rig.apply(&mut m, &put(1, "b", "ab\ncd"), Aspects::RESP)?;
        rig.apply(&mut m, &menu(1, "view_select", ""), Aspects::RESP)?;
        let next = r#"{"jsonrpc":"2.0","id":77,"method":"exec","params":"editor:message(1, 'x')"}"#;
        for (line, id, codes) in [(line.as_str(), id, codes), (next, json!(77), &[0])] {
            let r = match rig.editor.handle(1, line) {
                Ok(r) => r.to_string(),
                Err(e) => return fail(format!("no response: {}", e)),
            };
            let v: Value = match serde_json::from_str(&r) {
                Ok(v) => v,
                Err(e) => return fail(format!("response {}: {}", r, e)),
            };
            let got = v["error"]["code"].as_i64().unwrap_or(0);
            let told: String = r.chars().take(300).collect();
            ensure!(v["id"] == id, "the id of the response is not that of the request: {}", told);
            ensure!(codes.contains(&got), "response {}, expected the code {:?}", told, codes);
            ensure!(v.get("result").is_some() == (got == 0), "response {}", told);
        }
        run.state(&i);
        ensure!(!rig.drain(&[1]).is_empty(), "client 1 is told nothing");
        Ok(())
    })
}

struct Shape {
    line: String,
    id: Value,
    /// acceptable error codes; empty: it is carried out
    codes: Vec<i64>,
}

fn shapes() -> Vec<Shape> {
    let mut v = Vec::new();
    let ids: Vec<(String, Value)> = vec![
        ("1".into(), json!(1)),
        ("-7".into(), json!(-7)),
        ("0".into(), json!(0)),
        ("2147483647".into(), json!(2147483647)),
        ("\"\"".into(), json!("")),
        ("\"a\\\"b\\né\"".into(), json!("a\"b\né")),
        ("null".into(), Value::Null),
    ];
    let bad = [-32602i64];
    let missing = [-32600i64, -32602];
    let invalid = [-32600i64];
    let done: [i64; 0] = [];
    let calls: Vec<(&str, Option<&str>, &[i64])> = vec![
        ("edit", Some(r#"{"name":"b","scratch":true}"#), &done),
        ("edit", Some(r#"{"name":"b","scratch":true,"more":1}"#), &done),
        ("edit", Some(r#"{"name":"nofile","scratch":false}"#), &invalid),
        ("edit", Some(r#"{"name":"","scratch":false}"#), &invalid),
        ("edit", Some(r#"{"name":"/","scratch":false}"#), &invalid),
        ("edit", Some(r#"{"name":"a\u0000b","scratch":false}"#), &invalid),
        ("edit", Some(r#"{"name":"","scratch":true}"#), &done),
        ("edit", Some(r#"{"name":"b"}"#), &bad),
        ("edit", Some(r#"{"scratch":true}"#), &bad),
        ("edit", Some(r#"{"name":1,"scratch":true}"#), &bad),
        ("edit", Some(r#"{"name":"b","scratch":"yes"}"#), &bad),
        ("edit", Some(r#""b""#), &bad),
        ("edit", Some("[]"), &bad),
        ("edit", Some("7"), &bad),
        ("edit", Some("null"), &missing),
        ("edit", None, &missing),
        ("quit", None, &done),
        ("quit", Some("[1]"), &done),
        ("view", Some(r#""*scratch*""#), &done),
        ("view", Some(r#""nope""#), &invalid),
        ("view", Some(r#""""#), &invalid),
        ("view", Some("1"), &bad),
        ("view", Some(r#"["*scratch*"]"#), &bad),
        ("view", Some(r#"{"view":"*scratch*"}"#), &bad),
        ("view", Some("null"), &missing),
        ("view", None, &missing),
        ("view-delete", None, &done),
        ("view-delete", Some("null"), &done),
        ("view-delete", Some("{}"), &done),
        ("view-add", Some(r#""*scratch*""#), &done),
        ("view-add", Some(r#""nope""#), &invalid),
        ("view-add", Some("true"), &bad),
        ("view-add", None, &missing),
        ("view-remove", Some(r#""*scratch*""#), &done),
        ("view-remove", Some(r#""nope""#), &invalid),
        ("view-remove", Some("{}"), &bad),
        ("view-remove", None, &missing),
        ("menu", Some(r#"{"command":"","search":""}"#), &done),
        ("menu", Some(r#"{"command":"open","search":"[(*"}"#), &done),
        ("menu", Some(r#"{"command":"exec","search":""}"#), &done),
        ("menu", Some(r#"{"command":"nope","search":""}"#), &bad),
        ("menu", Some(r#"{"command":"open"}"#), &bad),
        ("menu", Some(r#"{"command":1,"search":""}"#), &bad),
        ("menu", Some(r#""open""#), &bad),
        ("menu", None, &missing),
        ("menu-select", Some(r#"{"command":"nope","choice":""}"#), &bad),
        ("menu-select", Some(r#"{"command":"view_add","choice":"nope"}"#), &bad),
        ("menu-select", Some(r#"{"command":"view_add"}"#), &bad),
        ("menu-select", Some(r#"{"choice":"x"}"#), &bad),
        ("menu-select", Some("[]"), &bad),
        ("menu-select", None, &missing),
        ("keys", Some("[]"), &done),
        ("keys", Some(r#"[{"ctrl":false,"alt":false,"shift":false,"key":{"Char":"l"}}]"#), &done),
        ("keys", Some(r#"[{"ctrl":true,"alt":true,"shift":true,"key":"Up"}]"#), &done),
        ("keys", Some(r#"[{"ctrl":false}]"#), &bad),
        ("keys", Some(r#"[{"ctrl":false,"alt":false,"shift":false,"key":"Nope"}]"#), &bad),
        ("keys", Some(r#"{"a":1}"#), &bad),
        ("keys", Some("3"), &bad),
        ("keys", None, &missing),
        ("exec", Some(r#""local x = 1""#), &done),
        ("exec", Some(r#""""#), &done),
        ("exec", Some(r#""error('x')""#), &[1]),
        ("exec", Some(r#""error({1})""#), &[1]),
        ("exec", Some(r#""error(nil)""#), &[1]),
        ("exec", Some(r#""this is not lua""#), &[1]),
        ("exec", Some(r#""editor:move_left(99, false)""#), &[1]),
        ("exec", Some(r#""editor:get_context(-1)""#), &[1]),
        ("exec", Some(r#""local s = string.rep('x', 100000) error(s)""#), &[1]),
        ("exec", Some("{}"), &bad),
        ("exec", Some("12"), &bad),
        ("exec", None, &missing),
        ("", None, &[-32601]),
        ("Edit", Some("{}"), &[-32601]),
        ("view_add", Some(r#""b""#), &[-32601]),
        ("nope", Some(r#"[1,{"a":null}]"#), &[-32601]),
        ("a\\\"b\\n", None, &[-32601]),
    ];
    for (k, (m, p, codes)) in calls.iter().enumerate() {
        for (j, (id, want)) in ids.iter().enumerate() {
            // every id kind for some requests, two kinds for each
            if k % 7 != 0 && j != 0 && j != 1 + k % 6 {
                continue;
            }
            let p = p.map(|p| format!(",\"params\":{}", p)).unwrap_or_default();
            v.push(Shape {
                line: format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"{}\"{}}}", id, m, p),
                id: want.clone(),
                codes: codes.to_vec(),
            });
        }
    }
    // names that are nearly those of methods
    for m in ["edit", "quit", "view", "view-delete", "view-add", "view-remove", "menu", "menu-select", "keys", "exec"] {
        let mut near: Vec<String> = vec![m.to_uppercase(), m.repeat(2), m.replace('-', "_"), m.replace('-', ""), m.replace('-', " "), m.replace('-', "--")];
        let cs: Vec<char> = m.chars().collect();
        for k in 0..=cs.len() {
            // a character more, one less, one in upper case, two swapped
            for c in [" ", "\t", "\n", "\r", "-", "s", "\u{0}", "\u{feff}", "é", "."] {
                near.push(cs[..k].iter().collect::<String>() + c + &cs[k..].iter().collect::<String>());
            }
            if k < cs.len() {
                near.push(cs[..k].iter().chain(&cs[k + 1..]).collect());
                near.push(cs[..k].iter().copied().chain([cs[k].to_ascii_uppercase()]).chain(cs[k + 1..].iter().copied()).collect());
            }
            if k + 1 < cs.len() {
                let mut cs = cs.clone();
                cs.swap(k, k + 1);
                near.push(cs.into_iter().collect());
            }
            near.push(cs[..k].iter().collect());
        }
        near.retain(|n| !["edit", "quit", "view", "view-delete", "view-add", "view-remove", "menu", "menu-select", "keys", "exec"].contains(&n.as_str()));
        for name in near {
            for p in ["", ",\"params\":[]", ",\"params\":\"*scratch*\""] {
                v.push(Shape {
                    line: format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":{}{}}}", json!(name), p),
                    id: json!(1),
                    codes: vec![-32601],
                });
            }
        }
    }
    // fields in another order and unknown ones
    v.push(Shape {
        line: r#" { "params" : "*scratch*" , "x":[], "method":"view" , "id":5,"jsonrpc":"2.0" } "#.into(),
        id: json!(5),
        codes: vec![],
    });
    // not requests
    for line in [
        "", " ", "x", "{", "}", "[]", "null", "1", "\"edit\"", "{}", "[{}]", "{\"id\":1}", "\u{0}", "é", "{\"a\":",
        r#"{"jsonrpc":"2.0","method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":1}"#,
        r#"{"id":1,"method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":1.5,"method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":{},"method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":true,"method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":99999999999,"method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":1,"method":5}"#,
        r#"{"jsonrpc":"2.0","id":1,"method":null}"#,
        r#"{"jsonrpc":2,"id":1,"method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":1,"id":2,"method":"quit"}"#,
        r#"{"jsonrpc":"2.0","id":1,"method":"quit"} x"#,
        r#"{"jsonrpc":"2.0","id":1,"method":"quit""#,
        r#"{"jsonrpc":"2.0","id":1,"method":"view","params":"\ud800"}"#,
        "[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[",
    ] {
        v.push(Shape { line: line.into(), id: Value::Null, codes: vec![-32600, -32700] });
    }
    v.push(Shape { line: "[".repeat(100_000), id: Value::Null, codes: vec![-32600, -32700] });
    v.push(Shape { line: "x".repeat(1_000_000), id: Value::Null, codes: vec![-32600, -32700] });
    // every truncation of two requests
    for full in [
        r#"{"jsonrpc":"2.0","id":3,"method":"edit","params":{"name":"b","scratch":true}}"#,
        r#"{"jsonrpc":"2.0","id":3,"method":"exec","params":"editor:message(1, 'é')"}"#,
    ] {
        for i in 0..full.len() {
            if full.is_char_boundary(i) {
                v.push(Shape { line: full[..i].into(), id: Value::Null, codes: vec![-32600, -32700] });
            }
        }
    }
    v
}

pub fn c10(tier: Tier) -> Check {
    let state_ops = || {
        vec![
            sc(1, "b"),
            put(1, "d", "aé\n\nx"),
            va(1, "*scratch*"),
            vr(1, "*scratch*"),
            ViewDelete(1),
            ks(1, &["g"]),
            ks(1, &["d"]),
            menu(1, "view_add", ""),
            ks(1, &["m"]),
            Join(2),
            Quit(2),
            mv(1, Mv::End, true),
        ]
    };
    let depth = tier.pick(1, 2);
    let prefixes = seqs_upto(state_ops().len(), depth);
    let nshapes = shapes().len() as u64;
    let all = shapes();
    let sops = state_ops();
    let every = Config {
        name: "two clients, all requests",
        disk: vec![("f", text("é\nx")), ("d.bin", Disk::Undecodable)],
        setup: vec![Join(1), Join(2)],
        ops: {
            let mut v = Vec::new();
            for c in [1, 2] {
                v.extend([
                    ed(c, "f"),
                    ed(c, "nope"),
                    ed(c, "d.bin"),
                    sc(c, "b"),
                    vw(c, "b"),
                    vw(c, "nope"),
                    va(c, "b"),
                    vr(c, "*scratch*"),
                    ViewDelete(c),
                    menu(c, "view_select", ""),
                    menu(c, "nope", ""),
                    pick(c, "view_select", "b"),
                    pick(c, "scratch", "q"),
                    ks(c, &["d"]),
                    ks(c, &["g", "x"]),
                    del(c),
                    mv(c, Mv::End, true),
                    ex(c, &[Stmt::Fail]),
                    Quit(c),
                    Leave(c),
                ]);
            }
            v.extend([Join(1), Join(2), Op::Disk("f".into(), Disk::Missing)]);
            v
        },
        asp: Aspects::RESP | Aspects::CONTEXTS,
    };
    let seq = Config {
        name: "one client",
        disk: vec![("f", text("é\nx"))],
        setup: vec![Join(1)],
        ops: vec![
            ed(1, "f"),
            sc(1, "b"),
            vw(1, "b"),
            va(1, "b"),
            vr(1, "b"),
            vr(1, "*scratch*"),
            ViewDelete(1),
            ks(1, &["s-l"]),
            ks(1, &["d"]),
            ks(1, &["e"]),
            vw(1, "*errors*"),
            Join(2),
        ],
        asp: Aspects::RESP | Aspects::CONTEXTS,
    };
    Check::new("C10")
        .space(space("every request shape in every state reached by short sequences", prefixes * nshapes, move |i, run| {
            let s = &all[(i % nshapes) as usize];
            let ops: Vec<Op> =
                decode_upto(i / nshapes, sops.len(), depth).into_iter().map(|k| sops[k].clone()).collect();
            reset_disk(&BTreeMap::new());
            let mut m = Model::new(&[]);
            let mut rig = Rig::new();
            rig.apply(&mut m, &Join(1), Aspects::RESP)?;
            for op in &ops {
                if !m.enabled(op) {
                    run.count("skipped_disabled", 1);
                    return Ok(());
                }
                run.step(show(op));
                rig.apply(&mut m, op, Aspects::RESP)?;
            }
            let shown: String = s.line.chars().take(200).collect();
            run.step(format!("client 1 sends {}", shown));
            let r = match rig.editor.handle(1, &s.line) {
                Ok(r) => r.to_string(),
                Err(e) => return fail(format!("no response to {}: {}", shown, e)),
            };
            ensure!(!r.contains('\n'), "response to {} has several lines", shown);
            let v: Value = match serde_json::from_str(&r) {
                Ok(v) => v,
                Err(e) => return fail(format!("response {}: {}", r, e)),
            };
            let o = v.as_object().unwrap();
            ensure!(v["id"] == s.id && o.contains_key("id"), "response to {}: {}", shown, r);
            ensure!(
                o.contains_key("result") != o.contains_key("error"),
                "response to {} is not either a result or an error: {}",
                shown,
                r
            );
            // requests whose outcome depends on the state
            let depends = s.codes.is_empty() || s.codes == [-32600] && m.buffers.len() > 2;
            if !depends {
                let code = v["error"]["code"].as_i64().unwrap_or(0);
                ensure!(s.codes.contains(&code), "response to {}: {}, expected {:?}", shown, r, s.codes);
            } else if s.codes.is_empty() && m.buffers.contains_key("*scratch*") && m.buffers.contains_key("*debug*") {
                ensure!(o.contains_key("result"), "response to {}: {}", shown, r);
            }
            // and the editor goes on
            let quit = s.line.contains("\"quit\"") && s.codes.is_empty();
            rig.editor.removed_clients();
            let next = if quit {
                rig.editor.add_client(3);
                3
            } else {
                1
            };
            let r = rig.editor.handle(next, r#"{"jsonrpc":"2.0","id":77,"method":"edit","params":{"name":"next","scratch":true}}"#);
            let r = r.map(|r| r.to_string()).unwrap_or_default();
            ensure!(r.contains("\"id\":77") && r.contains("\"result\""), "after {} the editor answers {}", shown, r);
            run.state(&(i % nshapes, i / nshapes));
            Ok(())
        }))
        .space(Repeated::wide(&every, tier))
        .space(Explored::new(every, tier.pick(3, 5), tier.pick(40_000, 900_000)))
        .space(Repeated::of(&seq, tier))
        .space(Sequences { cfg: seq, depth: tier.pick(4, 6) })
        .space(lines_of_all_sizes(tier))
        .space(texts_in_requests(tier))
        .assume("scripts end: os.exit, endless loops and memory exhaustion by a script are out")
        .assume("a missing parameter may be refused as an invalid request or as invalid parameters")
}

/// Requests and other lines of all sizes: long members, many members, deep parameters, large numbers, blanks.
fn lines_of_all_sizes(tier: Tier) -> impl Space {
    let few = tier.pick(100, 300);
    let mut ns: Vec<usize> = (0..few).collect();
    ns.extend(crate::model::text::sizes(tier).into_iter().filter(|n| *n > few));
    space("lines of all sizes", (ns.len() * 12) as u64, move |i, run| {
        let n = ns[i as usize / 12];
        let xs = "xé ".chars().cycle().take(n).collect::<String>();
        let plain = "v".repeat(n);
        let deep = format!("{}1{}", "[".repeat(n.min(100)), "]".repeat(n.min(100)));
        let many: String = (0..n).map(|k| format!("\"k{}\":{},", k, k)).collect();
        let list: String = (0..n).map(|k| format!("{},", k)).collect();
        let req = |id: &str, m: &str, p: &str| {
            format!(r#"{{"jsonrpc":"2.0","id":{},"method":"{}","params":{}}}"#, id, m, p)
        };
        let q = json!(xs).to_string();
        // the line, the id of its response, and the class of its error (0 for none)
        let (line, id, code): (String, Value, i64) = match i % 12 {
            0 => (req(&q, "exec", "\"\""), json!(xs), 0),
            1 => (req("1", &format!("no{}", plain), "[]"), json!(1), -32601),
            2 => (req("1", "exec", &json!(format!("--{}", xs)).to_string()), json!(1), 0),
            3 => (req("1", "exec", &json!(format!("error('{}')", xs)).to_string()), json!(1), 1),
            4 => (req("1", "edit", &json!({"name": format!("b{}", plain), "scratch": true}).to_string()), json!(1), 0),
            5 => (req("1", "view", &json!(format!("no{}", xs)).to_string()), json!(1), -32600),
            6 => (req("1", "view-delete", &deep), json!(1), 0),
            7 => (format!(r#"{{{}"jsonrpc":"2.0","id":5,"method":"view-delete"}}"#, many), json!(5), 0),
            8 => (req("1", "keys", &format!("[{}0]", list)), json!(1), -32602),
            9 => (format!("{}{}{}", " ".repeat(n), req("\"a\"", "view-delete", "null"), "\t".repeat(n)), json!("a"), 0),
            10 => {
                let keys = vec![json!({"ctrl": false, "alt": false, "shift": false, "key": {"Char": "l"}}); n.min(300)];
                (req("1", "keys", &json!(keys).to_string()), json!(1), 0)
            }
            _ => (req("1", "menu", &json!({"command": "view_select", "search": xs}).to_string()), json!(1), 0),
        };
        run.note(format!("kind {}, size {}", i % 12, n));
        run.transitions += 1;
        reset_disk(&BTreeMap::new());
        let mut m = Model::new(&[]);
        let mut rig = Rig::new();
        rig.apply(&mut m, &Join(1), Aspects::RESP)?;
        rig.apply(&mut m, &put(1, "b", "ab\ncd"), Aspects::RESP)?;
        let next = r#"{"jsonrpc":"2.0","id":77,"method":"exec","params":"editor:message(1, 'x')"}"#;
        for (line, id, code) in [(line.as_str(), id, code), (next, json!(77), 0)] {
            let r = match rig.editor.handle(1, line) {
                Ok(r) => r.to_string(),
                Err(e) => return fail(format!("no response: {}", e)),
            };
            let v: Value = match serde_json::from_str(&r) {
                Ok(v) => v,
                Err(e) => return fail(format!("response {}: {}", r, e)),
            };
            let got = v["error"]["code"].as_i64().unwrap_or(0);
            let told: String = r.chars().take(300).collect();
            ensure!(v["id"] == id, "the id of the response is not that of the request: {}", told);
            ensure!(got == code, "response {}, expected the code {}", told, code);
            ensure!(v.get("result").is_some() == (code == 0), "response {}", told);
        }
        let mut told: Vec<u8> = vec![];
        for (c, _, _) in rig.drain(&[1]) {
            told.push(c as u8);
        }
        ensure!(told.contains(&1), "client 1 is told nothing");
        Ok(())
    })
}

// --- C15

const MODIFIED: [&str; 33] = [
    "h", "j", "k", "l", "g", "i", "d", "m", "e", "a", "x", "c", "s", "esc", "ret", "bkspc", "up", "down", "left", "right", " ", "-", "0", ".", "é", "日",
    "ß", "\"", "\\", "'", "\t", "\n", "[",
];

pub fn c15(tier: Tier) -> Check {
    let keys = ["h", "j", "k", "l", "s-h", "s-j", "s-k", "s-l", "g", "s-g", "i", "esc", "d", "m", "e"];
    let others = ["x", "c-l", "a-h", "up", "bkspc", " ", "é", "s-esc", "ret"];
    let one = |name, keys: &[&str], depth, max, txt: &str| {
        Explored::new(
            Config {
                name,
                disk: vec![],
                setup: vec![Join(1), put(1, "b", txt)],
                ops: keys.iter().map(|k| ks(1, &[k])).collect(),
                asp: Aspects::ALL,
            },
            depth,
            max,
        )
    };
    let all: Vec<&str> = keys.iter().chain(&others).copied().collect();
    let moving: Vec<&str> = keys[..12].iter().chain(&["x"]).copied().collect();
    let two = Config {
        name: "keys of two clients interleaved",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "ab\ncd"), Join(2)],
        ops: ["h", "l", "s-j", "g", "s-g", "i", "esc", "d", "m", "x"]
            .iter()
            .flat_map(|k| [ks(1, &[k]), ks(2, &[k])])
            .collect(),
        asp: Aspects::ALL,
    };
    let seq = Config {
        name: "keys of one client",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "ab\ncd")],
        ops: ["l", "s-j", "g", "s-g", "i", "esc", "d", "m", "x", "h"].iter().map(|k| ks(1, &[k])).collect(),
        asp: Aspects::ALL,
    };
    let seq2 = Config {
        name: "keys of two clients interleaved",
        disk: vec![],
        setup: vec![Join(1), put(1, "b", "ab\ncd"), Join(2)],
        ops: ["l", "g", "s-g", "i", "esc", "h"].iter().flat_map(|k| [ks(1, &[k]), ks(2, &[k])]).collect(),
        asp: Aspects::NOTES | Aspects::RESP | Aspects::CONTEXTS,
    };
    // several keys in one request
    let batch: Vec<String> = ["l", "g", "s-g", "i", "esc", "s-l", "x", "d"].iter().map(|s| s.to_string()).collect();
    let bd = tier.pick(4, 6);
    let nb = seqs_upto(batch.len(), bd);
    Check::new("C15")
        .space(one("all keys", &all, tier.pick(4, 6), tier.pick(30_000, 400_000), "aé\n\n日b"))
        .space(one("keys that change no text", &moving, 40, tier.pick(40_000, 400_000), "a日\n\nb"))
        .space(Repeated::wide(&two, tier))
        .space(Explored::new(two, tier.pick(4, 6), tier.pick(30_000, 600_000)))
        .space(Repeated::of(&seq, tier))
        .space(Sequences { cfg: seq, depth: tier.pick(4, 6) })
        .space(Repeated::of(&seq2, tier))
        .space(Sequences { cfg: seq2, depth: tier.pick(3, 5) })
        .space(status_items(Aspects::RESP | Aspects::NOTES))
        .space(space("keys again and again, in one request and in many", (22 * 22) * tier.pick(2, 4), move |i, run| {
            let keys = [
                "h", "j", "k", "l", "s-h", "s-j", "s-k", "s-l", "g", "s-g", "i", "esc", "d", "m", "e", "x", "c-l", "up", "bkspc",
                " ", "é", "ret",
            ];
            let (a, b) = (keys[i as usize % 22], keys[i as usize / 22 % 22]);
            let times = tier.pick(40, 200) as usize;
            // many at once, many one by one; the same first or one after the other
            let all: Vec<&str> = match i / 484 {
                0 => [vec![a; times], vec![b; times]].concat(),
                1 => [a, b].repeat(times),
                2 => [vec![a; 7], vec![b; 3]].concat().repeat(times / 5),
                _ => [vec![a; times], vec!["esc"], vec![b; times]].concat(),
            };
            let mut ops = vec![Join(1), put(1, "b", &"ab\ncdé\n\n日".repeat(20)), Join(2)];
            ops.push(ks(1, &all));
            ops.extend(all.iter().map(|k| ks(2, &[k])));
            ops.extend([ks(1, &["esc", "l"]), ks(2, &["esc", "g"])]);
            replay(&[], &ops, Aspects::RESP | Aspects::NOTES, run)?;
            Ok(())
        }))
        .space(space("every modifier of keys of all kinds in every mode", (8 * MODIFIED.len() * 5) as u64, move |i, run| {
            let (i, modifiers) = (i as usize / 8, i as usize % 8);
            let mut key = String::new();
            for (bit, name) in [(4, "c-"), (2, "a-"), (1, "s-")] {
                if modifiers & bit != 0 {
                    key += name;
                }
            }
            key += MODIFIED[i / 5];
            let into: &[&str] = [&[][..], &["i"], &["g"], &["s-g"], &["l", "s-j"]][i % 5];
            let mut ops = vec![Join(1), put(1, "b", "ab\ncdé\n\n日"), Join(2)];
            ops.extend(into.iter().map(|k| ks(1, &[k])));
            ops.extend([ks(1, &[&key]), ks(1, &["l"]), ks(2, &[&key]), ks(1, &[&key, "s-l", &key]), ks(1, &["esc", "j"])]);
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(sized("many keys in one request", tier, tier.pick(4200, 70_000), 4, Aspects::RESP | Aspects::CONTEXTS | Aspects::NOTES, |n, kind| {
            let all: Vec<&str> = match kind {
                0 => vec!["s-l"; n],
                1 => ["g", "l"].repeat(n / 2 + 1),
                2 => [vec!["x"; n], vec!["i"]].concat(),
                _ => [vec!["i"; 1], vec!["l"; n], vec!["esc", "l"]].concat(),
            };
            let ops = vec![Join(1), put(1, "b", &"abc\n".repeat(n.min(30) + 1)), Join(2), ks(1, &all), ks(2, &["l"]), ks(1, &["s-j"]), ks(1, &["esc"])];
            (vec![], ops)
        }))
        .space(space("keys which cannot be handled", seqs_upto(4, tier.pick(4, 6)), move |i, run| {
            let keys = decode_upto(i, 4, tier.pick(4, 6));
            if keys.is_empty() {
                return Ok(());
            }
            let keys: Vec<String> = keys.into_iter().map(|k| ["l", "x", "s-j", "g"][k].to_owned()).collect();
            let (mut rig, mut m) = replay(&[], &[Join(1), put(1, "b", "ab\ncd"), Join(2), vw(2, "b")], Aspects::RESP, run)?.unwrap();
            let script = |rig: &mut Rig, s: &str| rig.editor.command_exec(2, &s.to_owned());
            // the scripts know nothing of client 1 anymore
            ensure!(script(&mut rig, "editor:remove_client(1)").is_ok(), "script refused");
            rig.drain(&[1, 2]);
            let params = keys.iter().map(|k| key_param(k)).collect::<Vec<_>>();
            let line = json!({"jsonrpc": "2.0", "id": 9, "method": "keys", "params": params}).to_string();
            run.step(format!("keys {:?} of a client without a key handler", keys));
            let r: Value = match rig.editor.handle(1, &line) {
                Ok(r) => serde_json::from_str(&r.to_string()).unwrap(),
                Err(e) => return fail(format!("no response: {}", e)),
            };
            ensure!(r.get("error").is_some() && r["id"] == 9, "response to keys which cannot be handled: {}", r);
            let told = rig.drain(&[1, 2]);
            let echo = |c| told.iter().filter(|(to, what, _)| *to == c && what == "echo").count();
            ensure!(echo(1) > 0 && echo(2) == 0, "notifications of keys which cannot be handled: {:?}", told);
            rig.check_contexts(&m)?;
            // and learn of it again
            ensure!(script(&mut rig, "editor:add_client(1)").is_ok(), "script refused");
            rig.drain(&[1, 2]);
            for op in [Op::Keys(1, keys.clone()), ks(2, &["l", "g", "l"]), ks(1, &["esc"])] {
                run.step(show(&op));
                rig.apply(&mut m, &op, Aspects::RESP)?;
            }
            run.state(&m);
            rig.check_state(&m, Aspects::CONTEXTS | Aspects::RENDER)
        }))
        .space(space("clients of all numbers", tier.pick(300, 3000) + 3 * 45, move |i, run| {
            let most = tier.pick(300, 3000);
            // as many small ones, then around the powers of two
            let c = match i.checked_sub(most) {
                None => i as Cid + 1,
                Some(k) => (1usize << (k / 3 + 7)) - 1 + k as usize % 3,
            };
            let o = c + 1;
            let mut ops = vec![Join(c), put(c, "b", "ab\ncd\nef"), Join(o)];
            for k in ["l", "s-j", "g", "l", "g", "x", "i", "esc", "m", "e", "s-g", "h", "up", "c-x"] {
                ops.extend([ks(c, &[k]), ks(o, &["s-l"])]);
            }
            ops.extend([Leave(c), ks(o, &["g", "k"]), Join(c), ks(c, &["l", "g", "j"])]);
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(space("several keys in one request", nb, move |i, run| {
            let k: Vec<String> = decode_upto(i, batch.len(), bd).into_iter().map(|j| batch[j].clone()).collect();
            replay(&[], &[Join(1), put(1, "b", "ab\nc"), Op::Keys(1, k)], Aspects::ALL, run)?;
            Ok(())
        }))
}

// --- C16

pub fn c16(tier: Tier) -> Check {
    let labels = words(&["a", "B", "é", ".", " ", "(", "\\", "\n"], tier.pick(3, 4));
    let searches = words(&["a", "b", "É", ".", " ", "(", "*", "\\"], tier.pick(2, 3));
    let nl = labels.len();
    // words apart by blanks of all kinds
    let blanks = words(&[" ", "\t", "\n", "\u{a0}", "\u{3000}"], tier.pick(2, 3));
    let mut apart = Vec::new();
    for b in &blanks {
        for (l, r) in [("a", "b"), ("", "a"), ("b", ""), (".", "é"), ("aB", "\\ a")] {
            apart.push(format!("{}{}{}", l, b, r));
        }
    }
    let searches = [searches, apart].concat();
    let ns = searches.len() as u64;
    let mcmds = ["", "open", "scratch", "view_select", "view_add", "view_remove", "exec", "nope"];
    let mut ops = Vec::new();
    for m in mcmds {
        ops.push(menu(1, m, ""));
    }
    ops.extend([
        menu(1, "view_select", "b"),
        menu(1, "open", "F"),
        menu(1, "", "view e"),
        menu(1, "view_add", "(*"),
        menu(1, "scratch", "any thing"),
        menu(1, "exec", "x"),
        menu(1, "nope", "x"),
        pick(1, "", "open"),
        pick(1, "", "view_delete"),
        pick(1, "", "view_select"),
        pick(1, "", "scratch"),
        pick(1, "", "exec"),
        pick(1, "", "nope"),
        pick(1, "", "quit"),
        pick(1, "open", "f"),
        pick(1, "open", "nofile"),
        pick(1, "scratch", "s"),
        pick(1, "scratch", ""),
        pick(1, "view_select", "b"),
        pick(1, "view_select", "b{*}"),
        pick(1, "view_add", "*scratch*"),
        pick(1, "view_add", "b"),
        pick(1, "view_remove", "*scratch*"),
        pick(1, "view_remove", "b"),
        pick(1, "nope", "b"),
        Op::SelectExec(1, vec![Stmt::Message(2, "hi".into()), Stmt::Move(1, Mv::End, false)]),
        Op::SelectExec(1, vec![Stmt::Fail]),
        menu(2, "view_select", ""),
        menu(2, "", ""),
        pick(2, "", "view_delete"),
        pick(2, "view_select", "*scratch*"),
        sc(2, "b"),
        ViewDelete(2),
        Op::Disk("f".into(), Disk::Missing),
        Op::Disk("n F".into(), text("n")),
    ]);
    let two = Config {
        name: "menu requests and choices of two clients",
        disk: vec![("f", text("x\n")), ("g.txt", text("y")), ("empty", text("")), ("d/e/f", text("z"))],
        setup: vec![Join(1), Join(2)],
        ops,
        asp: Aspects::ALL,
    };
    // buffers and files named like commands, by their menus and those of the commands
    let mut through = Vec::new();
    for m in mcmds {
        through.extend([menu(1, m, ""), pick(1, "", m)]);
        for c in ["", "open", "view_add", "f"] {
            if m != "exec" {
                through.push(pick(1, m, c));
            }
        }
    }
    let alike = Config {
        name: "buffers named like commands, and without a name",
        disk: vec![("f", text("x\n")), ("open", text("z")), ("view_add", text(""))],
        setup: vec![Join(1), Join(2), sc(1, ""), menu(1, "", ""), sc(2, "open"), sc(2, "view_add")],
        ops: through,
        asp: Aspects::ALL,
    };
    let seq = Config {
        name: "menus",
        disk: vec![("f", text("x\n"))],
        setup: vec![Join(1), Join(2)],
        ops: vec![
            menu(1, "", ""),
            pick(1, "", "view_select"),
            pick(1, "", "view_delete"),
            menu(2, "view_select", ""),
            pick(2, "view_select", "b"),
            sc(1, "b"),
            pick(2, "view_select", "b{*}"),
            menu(1, "view_add", ""),
            pick(2, "view_add", "b"),
        ],
        asp: Aspects::ALL,
    };
    let given = words(&[" ", "\t", "\n", "a", "\u{a0}", "é", "{*}", "|"], tier.pick(3, 4));
    // menus of the editor with names of all kinds, and all searches
    let names = ["Ab", "aB c", "é É", "a.b", "(x)", "x*", "a|b", "日本", "a\nb", " "];
    let chars = ["a", "B", "é", "É", ".", "(", "*", "|", "日", " ", "["];
    let es = words(&chars, tier.pick(2, 3));
    let nes = es.len() as u64;
    Check::new("C16")
        .space(space("every text given to a prompt", given.len() as u64 * 4, move |i, run| {
            let (t, kind) = (&given[i as usize / 4], i as usize % 4);
            let mut ops = vec![Join(1), Join(2)];
            match kind {
                // a menu never asked for is empty
                0 => ops.extend([pick(1, "scratch", t), menu(1, "scratch", ""), pick(1, "scratch", t)]),
                1 => ops.extend([pick(1, "", "scratch"), menu(1, "", ""), pick(1, "", "scratch"), menu(1, "scratch", t), pick(1, "scratch", t), menu(2, "view_select", ""), pick(2, "view_select", &format!("{}{{*}}", t))]),
                // a script which does nothing, then one which does something
                2 if t.bytes().all(|b| b" \t\n".contains(&b)) => ops.extend([menu(1, "exec", ""), Op::Select(1, "exec".into(), t.clone()), menu(1, "exec", t)]),
                2 => return Ok(()),
                _ => ops.extend([sc(1, t), menu(1, "view_add", ""), pick(2, "view_add", t), menu(2, "view_remove", ""), menu(2, "view_remove", t), pick(2, "view_remove", t)]),
            }
            ops.push(menu(2, "view_select", ""));
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(of_characters("every character in names and searches of menus", |t| {
            vec![
                Join(1),
                Join(2),
                app(1, t, "x"),
                sc(1, &format!("b{}é", t)),
                menu(1, "view_add", ""),
                menu(1, "view_add", t),
                menu(2, "view_select", ""),
                menu(1, "view_select", &format!("b {}", t)),
                menu(2, "view_select", &format!("{}É {{", t)),
                pick(2, "view_add", t),
                menu(1, "view_remove", ""),
                menu(1, "view_remove", &t.to_uppercase()),
                pick(2, "view_select", &format!("{}b", t)),
                pick(2, "view_select", &view_key(&crate::model::editor::single(&format!("b{}é", t)))),
                menu(1, "scratch", ""),
                menu(1, "scratch", t),
                pick(1, "scratch", &t.repeat(2)),
                menu(1, "", t),
            ]
        }))
        .space(menus_again())
        .space(sized("texts of all sizes given to menus", tier, tier.pick(20_000, 1 << 21), 4, Aspects::RESP | Aspects::NOTES | Aspects::CONTEXTS, |n, kind| {
            let t = ["x", "é ", "日本", "a\n"][kind].repeat(n);
            let t: String = t.chars().take(n).collect();
            let ops = vec![
                Join(1),
                Join(2),
                menu(1, "scratch", ""),
                menu(1, "scratch", &t),
                pick(1, "scratch", &t),
                sc(2, "b"),
                menu(1, "view_add", ""),
                menu(1, "", &t),
                pick(2, "view_add", &t),
                vr(2, "b"),
                pick(1, "", &t),
                pick(1, "open", &t),
                menu(1, "exec", ""),
                Op::SelectExec(2, vec![Stmt::Message(1, t)]),
                ViewDelete(2),
            ];
            (vec![], ops)
        }))
        .space(space("every label against every search", ns, move |i, run| {
            filter_case(&searches[i as usize], &labels, run)
        }))
        .space(space("every search of a menu of odd names", nes, move |i, run| {
            let mut m = Model::new(&[]);
            reset_disk(&BTreeMap::new());
            let mut rig = Rig::new();
            let mut ops = vec![Join(1)];
            ops.extend(names.iter().map(|n| sc(1, n)));
            ops.extend([menu(1, "view_add", ""), menu(1, "view_add", &es[i as usize])]);
            ops.extend([menu(1, "view_select", ""), menu(1, "view_select", &es[i as usize])]);
            ops.push(menu(1, "", &es[i as usize]));
            for op in &ops {
                run.step(show(op));
                rig.apply(&mut m, op, Aspects::NOTES | Aspects::RESP)?;
            }
            Ok(())
        }))
        .space(Repeated::wide(&two, tier))
        .space(Explored::new(two, tier.pick(3, 4), tier.pick(45_000, 1_000_000)))
        .space(Explored::new(alike, tier.pick(2, 3), tier.pick(10_000, 300_000)))
        .space(Repeated::of(&seq, tier))
        .space(Sequences { cfg: seq, depth: tier.pick(4, 6) })
        .space(space("labels and searches of all sizes", tier.pick(300, 1000) * 6, move |i, run| {
            let (n, kind) = (i as usize / 6, i as usize % 6);
            let labels: Vec<String> = (0..=n.min(40))
                .map(|k| k * n / 40)
                .flat_map(|k| {
                    [
                        format!("{}a{}b", "x".repeat(k), "y".repeat(n - k.min(n))),
                        format!("{}É{}b", "日".repeat(k), "-".repeat(n - k.min(n))),
                        format!("{}{}", "a".repeat(k), "b".repeat(n - k.min(n))),
                        format!("{}.{}", "a ".repeat(k), "B".repeat(n - k.min(n))),
                    ]
                })
                .collect();
            let search = match kind {
                0 => "a b".to_owned(),
                1 => "é b".to_owned(),
                2 => "x".repeat(n),
                3 => "a ".repeat(n),
                4 => format!("{}b", "a".repeat(n)),
                _ => format!("a{}b", " ".repeat(n)),
            };
            filter_case(&search, &labels, run)
        }))
        .space(space("menus of many entries", tier.pick(70, 300), move |i, run| {
            let mut ops = vec![Join(1), Join(2)];
            for k in 0..i {
                ops.push(sc(1, &format!("{}{}", ["b", "É x ", "{*}", "*"][k as usize % 4], k)));
            }
            let mut disk: Vec<(String, Disk)> = vec![];
            for k in 0..i {
                let (name, content) = (format!("f{}", k), text(&"x".repeat(k as usize * k as usize)));
                disk.push((name.clone(), content.clone()));
                ops.push(Op::Disk(name, content));
            }
            for m in ["view_select", "view_add", "view_remove", "open", ""] {
                for s in ["", "1", "b 2", "é", "F", "*"] {
                    ops.push(menu(1 + i as usize % 2, m, s));
                }
            }
            ops.push(pick(2, "view_select", &format!("{}{}{{*}}", ["b", "É x ", "{*}", "*"][(i as usize + 3) % 4], i.max(1) - 1)));
            ops.push(pick(2, "view_add", &format!("b{}", (i / 2) & !3)));
            ops.push(pick(2, "open", &format!("f{}", i / 2)));
            replay(&[], &ops, Aspects::RESP | Aspects::NOTES, run)?;
            Ok(())
        }))
        .space(space("menus of very many entries", BIG_MENUS.len() as u64 * 2, move |i, run| {
            let n = BIG_MENUS[i as usize / 2];
            let (last, mut disk) = (format!("n{}", n - 1), vec![]);
            let mut ops = vec![Join(1)];
            let menus: &[&str] = if i % 2 == 0 {
                disk = (0..n).map(|k| (format!("n{}", k), text(""))).collect();
                ops.extend(disk.iter().map(|(name, _)| Op::Disk(name.clone(), text("x"))));
                &["open"]
            } else {
                let all: Vec<Stmt> = (0..n).map(|k| Stmt::Append(format!("n{}", k), "x".into())).collect();
                ops.push(ex(1, &all));
                &["view_select", "view_add", "view_remove"]
            };
            for m in menus {
                ops.extend([menu(1, m, ""), menu(1, m, "9"), menu(1, m, &last), pick(1, m, &last)]);
            }
            let disk: Vec<(&str, Disk)> = disk.iter().map(|(name, d)| (name.as_str(), d.clone())).collect();
            replay(&disk, &ops, Aspects::RESP | Aspects::NOTES, run)?.expect("enabled");
            Ok(())
        }))
        .space(space("open menu lists files of subdirectories", nl.min(1) as u64, |_, run| {
            run.step("menu of a directory tree");
            reset_disk(&BTreeMap::new());
            std::fs::create_dir_all(scratch().join("sub/deep")).unwrap();
            std::fs::write(scratch().join("sub/deep/x.rs"), "x").unwrap();
            std::fs::write(scratch().join("top"), "x").unwrap();
            std::fs::write(scratch().join("sub/real"), "x").unwrap();
            let _ = std::fs::remove_file(scratch().join("link"));
            std::os::unix::fs::symlink("sub/real", scratch().join("link")).unwrap();
            let r = (|| {
                let mut rig = Rig::new();
                rig.editor.add_client(1);
                let p = remote::protocol::requests::MenuParams { command: "open".into(), search: "".into() };
                ensure!(rig.editor.command_menu(1, &p).is_ok(), "menu refused");
                let ev = rig.drain(&[1]);
                let e = &ev.last().unwrap().2["entries"];
                let mut got: Vec<String> =
                    e.as_array().unwrap().iter().map(|e| e["value"].as_str().unwrap().to_owned()).collect();
                got.sort();
                ensure_eq!(got, vec!["link", "sub/deep/x.rs", "sub/real", "top"], "files listed");
                Ok(())
            })();
            std::fs::remove_file(scratch().join("link")).unwrap();
            std::fs::remove_dir_all(scratch().join("sub")).unwrap();
            r
        }))
        .assume("lower case is that of the Rust standard library")
}

const BIG_MENUS: [usize; 12] = [100, 127, 128, 255, 256, 257, 511, 999, 1000, 1001, 1025, 2049];

fn filter_case(search: &str, labels: &[String], run: &mut Run) -> Result<(), Violation> {
    use ced::editor::menu::MenuFilter;
    run.step(format!("filter with {:?}", search));
    let f = MenuFilter::new(search);
    let items: Vec<String> = labels.to_vec();
    // alone: kept or not, and how it is shown
    let mut kept = Vec::new();
    for c in f.filter(&items).iter() {
        let label = c.object.as_str();
        let tokens = c.tokenize();
        let shown: String = tokens.iter().map(|t| t.text.as_str()).collect();
        ensure_eq!(shown, label, "label as shown for the search {:?}", search);
        let want = search_matches(search, label);
        ensure!(c.is_match() == want, "{:?} for the search {:?}: match {}", label, search, c.is_match());
        let parts = merged(tokens.iter().map(|t| (t.text.clone(), t.is_match)));
        if want {
            if let Err(e) = check_marks(search, &parts) {
                return fail(format!("{:?}: {}", label, e));
            }
            kept.push((span(&parts).0, label.to_owned()));
        }
        run.transitions += 1;
    }
    let expect = labels.iter().filter(|l| search_matches(search, l)).count();
    ensure_eq!(kept.len(), expect, "entries kept by {:?}", search);
    if !search.trim().is_empty() {
        for w in kept.windows(2) {
            ensure!(w[0].0 <= w[1].0, "{:?} comes before {:?} for the search {:?}", w[0].1, w[1].1, search);
        }
    }
    run.state(&search);
    Ok(())
}

// --- C20 (in the editor; the script mode of the program is in process.rs)

pub fn c20_spaces(tier: Tier, check: Check) -> Check {
    let stmts = || {
        vec![
            Stmt::Message(1, "m".into()),
            Stmt::Error(2, "e".into()),
            Stmt::Move(1, Mv::Right, true),
            Stmt::Move(2, Mv::End, false),
            Stmt::Delete(1),
            Stmt::Edit(1, "f".into(), None),
            Stmt::Edit(2, "nope".into(), Some(false)),
            Stmt::Edit(2, "s".into(), Some(true)),
            Stmt::Scratch(1, "b".into(), Some("x日\ny".into())),
            Stmt::Scratch(2, "b".into(), None),
            Stmt::Append("b".into(), "tail\n".into()),
            Stmt::Append("*scratch*".into(), "é".into()),
            Stmt::Context(1),
            Stmt::Context(9),
            Stmt::Debug("d".into()),
            Stmt::Whoami,
            Stmt::Message(2, "".into()),
            Stmt::Status(1),
            Stmt::Status(9),
            Stmt::Item(2, "mine".into(), 3, "first".into()),
            Stmt::Item(1, "own item".into(), 1000, "é".into()),
            Stmt::Hint(2, vec!["".into(), "é日".into(), "\t".into()], false),
            Stmt::Hint(9, vec!["title".into(), "longer line".into()], true),
            Stmt::Fail,
            Stmt::Syntax,
        ]
    };
    let all = stmts();
    let depth = tier.pick(3, 4);
    let n = seqs_upto(all.len(), depth);
    let two = Config {
        name: "scripts and requests of two clients",
        disk: vec![("f", text("x\ny"))],
        setup: vec![Join(1), put(1, "b", "ab\ncd"), Join(2)],
        ops: {
            let mut v: Vec<Op> = stmts().into_iter().map(|s| ex(1, &[s])).collect();
            v.extend([
                ex(2, &[Stmt::Move(1, Mv::Down, true), Stmt::Delete(1), Stmt::Message(2, "done".into())]),
                ex(2, &[Stmt::Edit(1, "f".into(), None), Stmt::Fail, Stmt::Delete(1)]),
                ks(1, &["l"]),
                ViewDelete(2),
                Leave(2),
                Join(2),
            ]);
            v
        },
        asp: Aspects::ALL,
    };
    let mut given = words(&["a", "\n", " ", "é", "\t", "\r", "|"], tier.pick(3, 4));
    given.extend(crate::model::text::around().into_iter().filter(|t| !t.is_ascii() || !t.bytes().all(|b| b.is_ascii_alphanumeric())));
    let calls = arg_shapes();
    let nc = calls.len() as u64;
    let nt = tier.pick(1, 3);
    check
        .space(space("every script of several statements", n, move |i, run| {
            let s: Vec<Stmt> = decode_upto(i, all.len(), depth).into_iter().map(|k| all[k].clone()).collect();
            let disk = [("f", text("x\ny"))];
            let ops = [Join(1), put(1, "b", "ab\ncd"), Join(2), Op::Exec(1, s), ks(2, &["l"])];
            replay(&disk, &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(Repeated::wide(&two, tier))
        .space(Explored::new(two, tier.pick(3, 5), tier.pick(15_000, 500_000)))
        .space(status_items(Aspects::RESP | Aspects::NOTES))
        .space(space("every text given to a scripting call", given.len() as u64 * 2, move |i, run| {
            let t = given[i as usize / 2].clone();
            let s = if i % 2 == 0 {
                vec![
                    Stmt::Append("b".into(), t.clone()),
                    Stmt::Append("fresh".into(), t.clone()),
                    Stmt::Scratch(2, "s".into(), Some(t.clone())),
                    Stmt::Append("s".into(), t.clone()),
                    Stmt::Debug(t.clone()),
                    Stmt::Move(2, Mv::End, true),
                ]
            } else {
                vec![
                    Stmt::Scratch(1, t.clone(), None),
                    Stmt::Append(t.clone(), "x".into()),
                    Stmt::Edit(2, t.clone(), Some(true)),
                    Stmt::Message(2, t.clone()),
                    Stmt::Error(1, t.clone()),
                    Stmt::Item(1, t.clone(), -3, t.clone()),
                    Stmt::Status(1),
                    Stmt::Delete(2),
                ]
            };
            let ops = [Join(1), put(1, "b", "ab\ncd"), Join(2), Op::Exec(1, s), ks(2, &["l"])];
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(of_characters("every character in names of what scripts open", |t| {
            let f = t.replace(['/', '\0'], "f");
            let mut v = vec![Join(1), Join(2)];
            // a file of that name, unless it is one of a directory
            if f.chars().any(|c| c != '.') {
                v.push(Op::Disk(f.clone(), text("in the file\n")));
                v.push(ex(1, &[Stmt::Edit(1, f.clone(), None), Stmt::Edit(2, f.clone(), Some(false)), Stmt::Append(f.clone(), "x".into())]));
            }
            v.push(ex(2, &[Stmt::Scratch(1, t.to_owned(), None), Stmt::Edit(2, format!("{}2", t), Some(true)), Stmt::Delete(1)]));
            v.push(ks(2, &["l"]));
            v
        }))
        .space(space("scripts of all lengths", tier.pick(80, 300) * 6, move |i, run| {
            let (n, kind) = (i as usize / 6, i as usize % 6);
            let list = stmts();
            let mut s: Vec<Stmt> = match kind {
                // as many statements, of one kind and of all kinds that do not fail
                0 => vec![Stmt::Message(1, "m".into()); n],
                1 => list.iter().filter(|s| !matches!(s, Stmt::Fail | Stmt::Syntax)).cycle().take(n).cloned().collect(),
                // arguments as long
                2 => vec![
                    Stmt::Message(1, "é ".repeat(n * n)),
                    Stmt::Error(2, "x\t\t".repeat(n * n)),
                    Stmt::Hint(2, vec!["t".into(), "é日".repeat(n), "ab".repeat(n)], true),
                    Stmt::Hint(2, vec!["-".repeat(n), "x".into()], n % 2 == 0),
                    Stmt::Hint(1, vec!["y".repeat(n); n], true),
                ],
                3 => vec![Stmt::Scratch(1, "s".repeat(n), Some("ab\n".repeat(n * 10)))],
                4 => vec![Stmt::Append("b".into(), "z\né".repeat(n)); 3],
                _ => vec![Stmt::Move(1, Mv::Right, true), Stmt::Delete(1)].into_iter().cycle().take(n).collect(),
            };
            if i % 2 == 1 {
                s.push(Stmt::Fail);
                s.push(Stmt::Message(1, "never".into()));
            }
            let ops = [Join(1), put(1, "b", "ab\ncd"), Join(2), Op::Exec(1, s), ks(2, &["l"])];
            replay(&[("f", text("x\ny"))], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(space("every scripting call with every argument shape", nc * nt, move |i, run| {
            let src = &calls[(i % nc) as usize];
            let setups: [&[Op]; 3] = [
                &[Join(1), put(1, "b", "ab\ncd"), Join(2)],
                &[Join(2), Join(1), va(1, "*scratch*"), put(2, "b", "é"), va(1, "b"), mv(1, Mv::End, true)],
                &[Join(1), ks(1, &["m"]), vw(1, "*messages*"), Join(2), ViewDelete(2)],
            ];
            let (mut rig, m) = replay(&[], setups[(i / nc) as usize], Aspects::RESP, run)?.unwrap();
            run.step(format!("exec {}", src));
            let line = json!({"jsonrpc": "2.0", "id": 5, "method": "exec", "params": src}).to_string();
            let r: Value = match rig.editor.handle(1, &line) {
                Ok(r) => serde_json::from_str(&r.to_string()).unwrap(),
                Err(e) => return fail(format!("no response: {}", e)),
            };
            let failed = r["error"]["code"] == 1;
            ensure!(failed || r.get("result").is_some(), "response to {}: {}", src, r);
            // a failure is told the client that ran the script
            let ids = m.ids();
            let told = rig.drain(&ids).iter().any(|(c, me, p)| {
                *c == 1 && me == "echo" && plain(p).starts_with("exec: ")
            });
            ensure!(told == failed, "{}: failed {}, client told {}", src, failed, told);
            for c in ids {
                ensure!(rig.contexts(&[c]).is_ok(), "client {} is gone after {}", c, src);
            }
            rig.check_state(&m, Aspects::REFRESH)?;
            run.state(&i);
            Ok(())
        }))
}

/// Calls of the scripting interface with arguments of every kind.
fn arg_shapes() -> Vec<String> {
    let args = [
        "", "nil", "1", "2", "9", "-1", "0", "1.5", "1e300", "'1'", "'x'", "''", "true", "{}", "function() end",
        "'\\255\\254'", "print", "math.huge", "0/0",
    ];
    let methods = [
        "debug", "message", "error", "get_status_line", "push_status_line", "show_hint", "get_context", "scratch",
        "edit", "append_to", "add_client", "remove_client", "move_left", "move_right", "move_up", "move_down",
        "move_to_line_begin", "move_to_line_end", "move_to_begin", "move_to_end", "delete_selection",
    ];
    let mut v = Vec::new();
    for m in methods {
        // these change what the Lua side knows of the clients
        if m == "add_client" || m == "remove_client" {
            continue;
        }
        for a in args {
            v.push(format!("editor:{}({})", m, a));
            if a.is_empty() {
                continue;
            }
            for b in ["nil", "1", "'b'", "true", "{}", "{'a', 'é'}", "'\\255'"] {
                v.push(format!("editor:{}({}, {})", m, a, b));
            }
        }
        for (a, b, c) in [
            ("1", "'b'", "true"),
            ("1", "'b'", "nil"),
            ("1", "'b'", "'x'"),
            ("1", "'b'", "{}"),
            ("2", "'*debug*'", "true"),
            ("1", "''", "''"),
            ("1", "{'a'}", "true"),
            ("9", "'b'", "'x'"),
        ] {
            v.push(format!("editor:{}({}, {}, {})", m, a, b, c));
        }
    }
    for s in [
        "utils.asstring()", "utils.asstring(1)", "utils.stringify({1, {a='b'}, print})", "utils.max_length({})",
        "utils.max_length({'a', 1})", "assert(utils.max_length({'a', 'abc'}) == 3)",
        "assert(env.client == '1' and env.session == 'ses')", "env = nil", "error()", "error({})", "error(error)",
        "return 1, 2", "local t = setmetatable({}, {__tostring = function() error('x') end}) error(t)",
        "coroutine.wrap(function() error('in') end)()", "string.rep('x', -1)", "('x'):bad()",
        "editor.core:bad()", "editor.inner:set_status_line(1, {})", "editor.inner:set_status_line(1, {a=1})",
        "editor.inner:set_status_line(1, {a={}})", "editor.inner:show_hint(1, {})", "editor.inner:show_hint(99, {'x'})",
        "editor.clients[1].key_handler:handle({display='l'})", "editor.clients[1].key_handler:handle(nil)",
    ] {
        v.push(s.into());
    }
    v
}

// --- C24

pub fn c24(tier: Tier) -> Check {
    let texts = words(&["a", " ", "\t", "\n", "\u{a0}", "\\"], tier.pick(4, 5));
    let n = texts.len() as u64;
    let ops = |other: Cid| {
        let mut v = Vec::new();
        for c in [1, other] {
            v.extend([
                ks(c, &["m"]),
                ks(c, &["e"]),
                ex(c, &[Stmt::Message(3 - c, "two\nlines".into())]),
                ex(c, &[Stmt::Error(c, "tab\t\t  x\n\n".into()), Stmt::Message(c, "".into())]),
                ex(c, &[Stmt::Message(9, "nobody".into()), Stmt::Error(8, "nobody".into())]),
                ex(c, &[Stmt::Message(c, "before".into()), Stmt::Fail, Stmt::Message(c, "never".into())]),
                Op::Malformed(c, "{\"x\":  [".into()),
                Op::Unknown(c, "foo".into()),
                vw(c, "*messages*"),
                vw(c, "*errors*"),
            ]);
        }
        v.extend([ViewDelete(1), Leave(other), Join(other), del(1), app(1, "*messages*", "own\n")]);
        v
    };
    let two = Config {
        name: "messages and errors of two clients",
        disk: vec![],
        setup: vec![Join(1), Join(2)],
        ops: ops(2),
        asp: Aspects::ALL,
    };
    let seq = Config {
        name: "messages and errors",
        disk: vec![],
        setup: vec![Join(1), Join(2)],
        ops: vec![
            ks(1, &["m"]),
            ks(2, &["e"]),
            ex(1, &[Stmt::Message(2, "x".into())]),
            ex(2, &[Stmt::Error(1, "y".into())]),
            ex(1, &[Stmt::Fail]),
            Op::Unknown(2, "foo".into()),
            vw(1, "*messages*"),
            ViewDelete(1),
        ],
        asp: Aspects::ALL,
    };
    Check::new("C24")
        .space(space("texts of all sizes, to clients of all numbers", tier.pick(140, 600) * 8, move |i, run| {
            let (n, kind) = (i as usize / 8, i as usize % 8);
            let t = match kind {
                0 => "x".repeat(n),
                1 => " ".repeat(n) + "y",
                2 => "\t\n".repeat(n),
                3 => "é ".repeat(n),
                4 => format!("a{}b", "\n".repeat(n)),
                5 => "line\n".repeat(n * 10),
                6 => (0..n).map(|k| " \t\u{a0}\n".chars().nth((k * k + k / 3) % 4).unwrap()).collect(),
                _ => "\r\n \u{2028}x".repeat(n),
            };
            let c = n + 1;
            let mut ops = vec![Join(1), Join(c), ex(1, &[Stmt::Message(c, t.clone()), Stmt::Error(c, t.clone())])];
            if c == 1 {
                ops.remove(1);
            }
            ops.extend([
                ex(c, &[Stmt::Error(1, t.clone()), Stmt::Message(1, t.clone())]),
                vw(1, "*messages*"),
                ex(c, &[Stmt::Message(c, t.clone()), Stmt::Error(c, t.clone())]),
            ]);
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(of_characters("every character in messages and errors", |t| {
            vec![
                Join(1),
                Join(2),
                ex(1, &[Stmt::Message(2, t.into()), Stmt::Error(1, t.into())]),
                ex(2, &[Stmt::Error(2, t.into()), Stmt::Message(1, t.into()), Stmt::Message(2, t.repeat(3))]),
                Op::Unknown(1, t.into()),
                ed(2, &format!("none/{}", t)),
                vw(2, "*errors*"),
                ex(2, &[Stmt::Error(1, t.repeat(3))]),
            ]
        }))
        .space(space("every text as a message and as an error", n, move |i, run| {
            let t = &texts[i as usize];
            let ops = [
                Join(1),
                ex(1, &[Stmt::Message(1, t.clone()), Stmt::Error(1, t.clone())]),
                ex(1, &[Stmt::Error(1, t.clone()), Stmt::Message(1, t.clone())]),
            ];
            replay(&[], &ops, Aspects::ALL, run)?;
            Ok(())
        }))
        .space(Repeated::wide(&two, tier))
        .space(Explored::new(two, tier.pick(3, 5), tier.pick(40_000, 900_000)))
        .space(Repeated::of(&seq, tier))
        .space(Sequences { cfg: seq, depth: tier.pick(4, 6) })
}

pub fn c20(tier: Tier) -> Check {
    c20_spaces(tier, Check::new("C20")).space(super::programs::script_mode(tier)).space(super::programs::many_scripts(tier)).space(super::programs::contents_of_scripts())
}
