//! C01-C03: the piece table against a plain string.

use ced::editor::verif::PieceTable;

use crate::fw::*;
use crate::model::table::*;
use crate::model::text::*;

/// Which edits are offered in a state.
#[derive(Clone)]
pub struct Alphabet {
    pub texts: Vec<&'static str>,
    pub insert: bool,
    pub delete: bool,
    pub replace: bool,
    pub reload: Vec<&'static str>,
    pub undo: bool,
    /// only every n-th boundary is offered
    pub stride: usize,
}

impl Alphabet {
    pub fn edits(&self, text: &str) -> Vec<Edit> {
        let bs: Vec<usize> = bounds(text);
        let bs: Vec<usize> = bs
            .iter()
            .enumerate()
            .filter(|(i, _)| i % self.stride == 0 || i + 1 == bs.len())
            .map(|(_, b)| *b)
            .collect();
        let mut v = Vec::new();
        if self.insert {
            for t in &self.texts {
                for b in &bs {
                    v.push(Edit::Insert(*b, t.to_string()));
                }
                v.push(Edit::Append(t.to_string()));
            }
        }
        for (i, b) in bs.iter().enumerate() {
            for e in &bs[i..] {
                if self.delete {
                    v.push(Edit::Delete(*b, *e));
                }
                if self.replace {
                    for t in &self.texts {
                        v.push(Edit::Replace(*b, *e, t.to_string()));
                    }
                }
            }
        }
        for t in &self.reload {
            v.push(Edit::Reload(t.to_string()));
        }
        if self.undo {
            v.push(Edit::Undo);
            v.push(Edit::Redo);
        }
        v
    }
}

pub fn build(start: &str) -> PieceTable {
    if start.is_empty() {
        PieceTable::new()
    } else {
        PieceTable::with_text(start.to_owned())
    }
}

type Verify = fn(&PieceTable, &RefTable) -> Result<(), Violation>;

fn verify_text(pt: &PieceTable, m: &RefTable) -> Result<(), Violation> {
    check_text(pt, &m.text, m.text.len() <= 24)
}

fn verify_all(pt: &PieceTable, m: &RefTable) -> Result<(), Violation> {
    check_text(pt, &m.text, false)?;
    check_coords(pt, &m.text)
}

fn replay(start: &str, path: &[Edit]) -> PieceTable {
    let mut pt = build(start);
    for e in path {
        apply_impl(&mut pt, e);
    }
    pt
}

/// Depth-first over all edit sequences; every node is checked once, on a table rebuilt from
/// scratch by the edits leading to it.
fn explore(
    start: &str,
    al: &Alphabet,
    path: &mut Vec<Edit>,
    model: &RefTable,
    depth: usize,
    verify: Verify,
    run: &mut Run,
) -> Result<(), Violation> {
    if depth == 0 {
        return Ok(());
    }
    for e in al.edits(&model.text) {
        let mut m = model.clone();
        let want = m.apply(&e);
        path.push(e.clone());
        run.trace = path_trace(start, path);
        let mut pt = replay(start, &path[..path.len() - 1]);
        let got = apply_impl(&mut pt, &e);
        run.transitions += 1;
        ensure_eq_v(got, want, &e)?;
        verify(&pt, &m)?;
        run.state(&m);
        explore(start, al, path, &m, depth - 1, verify, run)?;
        path.pop();
    }
    Ok(())
}

fn ensure_eq_v(got: bool, want: bool, e: &Edit) -> Result<(), Violation> {
    crate::ensure!(got == want, "{:?} returned {}", e, got);
    Ok(())
}

fn path_trace(start: &str, path: &[Edit]) -> Vec<String> {
    let mut v = vec![format!("start {:?}", start)];
    v.extend(path.iter().map(|e| format!("{:?}", e)));
    v
}

/// All sequences of length <= depth, one case per (start, first edit).
pub struct Sequences {
    name: String,
    cases: Vec<(&'static str, Edit)>,
    al: Alphabet,
    depth: usize,
    verify: Verify,
}

impl Sequences {
    fn new(name: &str, starts: &[&'static str], al: Alphabet, depth: usize, verify: Verify) -> Sequences {
        let mut cases = Vec::new();
        for s in starts {
            for e in al.edits(s) {
                cases.push((*s, e));
            }
        }
        Sequences { name: name.into(), cases, al, depth, verify }
    }
}

impl Space for Sequences {
    fn name(&self) -> String {
        format!("{} (every edit sequence up to {})", self.name, self.depth)
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64
    }
    fn run(&self, i: u64, run: &mut Run) -> Result<(), Violation> {
        let (start, first) = &self.cases[i as usize];
        let mut m = RefTable::new(start);
        run.state(&m);
        let mut pt = build(start);
        run.trace = path_trace(start, &[]);
        (self.verify)(&pt, &m)?;
        run.trace = path_trace(start, std::slice::from_ref(first));
        let want = m.apply(first);
        let got = apply_impl(&mut pt, first);
        run.transitions += 1;
        ensure_eq_v(got, want, first)?;
        (self.verify)(&pt, &m)?;
        run.state(&m);
        let mut path = vec![first.clone()];
        explore(start, &self.al, &mut path, &m, self.depth - 1, self.verify, run)
    }
}

/// How a table of many pieces is built.
const BUILDS: [&str; 5] = ["append", "prepend", "middle", "alternate", "stripes"];

fn build_pieces(how: usize, k: usize) -> (String, Vec<Edit>) {
    let piece = |i: usize| -> String {
        let c = (b'a' + (i % 26) as u8) as char;
        match i % 4 {
            0 => format!("{}", c),
            1 => format!("{}é", c),
            2 => format!("{}\n", c),
            _ => format!("{}{}🦊", c, i % 10),
        }
    };
    let mut edits = Vec::new();
    let mut m = RefTable::new("");
    let mut start = String::new();
    if how == 4 {
        // one original text cut into stripes by deletions
        for i in 0..2 * k {
            start.push_str(&piece(i));
        }
        m = RefTable::new(&start);
        for i in 0..k {
            let mut at = 0;
            for j in 0..i {
                at += piece(2 * j).len();
            }
            let b = at + piece(2 * i).len();
            edits.push(Edit::Delete(b, b + piece(2 * i + 1).len()));
            m.apply(edits.last().unwrap());
        }
        return (start, edits);
    }
    for i in 0..k {
        let bs = bounds(&m.text);
        let at = match how {
            0 => m.text.len(),
            1 => 0,
            2 => bs[bs.len() / 2],
            _ => {
                if i % 2 == 0 {
                    0
                } else {
                    m.text.len()
                }
            }
        };
        let e = if how == 0 { Edit::Append(piece(i)) } else { Edit::Insert(at, piece(i)) };
        m.apply(&e);
        edits.push(e);
    }
    (start, edits)
}

/// Tables of k pieces in several arrangements; then every range is deleted or replaced, and
/// after each such edit every insertion or (if `second`) every deletion follows.
struct ManyPieces {
    ks: Vec<usize>,
    second: bool,
    undo: bool,
}

impl ManyPieces {
    fn locate(&self, i: u64) -> (usize, usize, usize) {
        let per = 2 * BUILDS.len() as u64;
        let k = self.ks[(i / per) as usize];
        let r = (i % per) as usize;
        (k, r / 2, r % 2)
    }
}

impl Space for ManyPieces {
    fn name(&self) -> String {
        format!("tables of {:?} pieces, every range edit{}", self.ks, if self.second { " then every edit" } else { "" })
    }
    fn len(&self) -> u64 {
        self.ks.len() as u64 * 2 * BUILDS.len() as u64
    }
    fn run(&self, i: u64, run: &mut Run) -> Result<(), Violation> {
        let (k, how, mode) = self.locate(i);
        let (start, edits) = build_pieces(how, k);
        let mut base = RefTable::new(&start);
        let mut pt = build(&start);
        for (n, e) in edits.iter().enumerate() {
            base.apply(e);
            run.trace = path_trace(&start, &edits[..=n]);
            apply_impl(&mut pt, e);
            run.transitions += 1;
            verify_text(&pt, &base)?;
        }
        let bs = bounds(&base.text);
        for (x, b) in bs.iter().enumerate() {
            for e in &bs[x..] {
                let first = match mode {
                    0 => Edit::Delete(*b, *e),
                    _ => Edit::Replace(*b, *e, "Z\n".into()),
                };
                let mut m = base.clone();
                m.apply(&first);
                let mut path = edits.clone();
                path.push(first.clone());
                run.trace = path_trace(&start, &path);
                let mut pt = replay(&start, &path);
                run.transitions += 1;
                run.state(&m);
                verify_text(&pt, &m)?;
                if self.undo {
                    // back to the very beginning and forth again
                    let mut us = 0;
                    loop {
                        let w = m.apply(&Edit::Undo);
                        let g = apply_impl(&mut pt, &Edit::Undo);
                        run.transitions += 1;
                        us += 1;
                        run.trace.push(format!("undo {}", us));
                        ensure_eq_v(g, w, &Edit::Undo)?;
                        verify_text(&pt, &m)?;
                        if !w {
                            break;
                        }
                    }
                    loop {
                        let w = m.apply(&Edit::Redo);
                        let g = apply_impl(&mut pt, &Edit::Redo);
                        run.transitions += 1;
                        run.trace.push("redo".into());
                        ensure_eq_v(g, w, &Edit::Redo)?;
                        verify_text(&pt, &m)?;
                        if !w {
                            break;
                        }
                    }
                }
                if self.second {
                    let bs2 = bounds(&m.text);
                    for at in &bs2 {
                        let seconds = [
                            Edit::Insert(*at, "Y".into()),
                            Edit::Delete(*at, bs2[(bs2.iter().position(|b| b == at).unwrap() + 3).min(bs2.len() - 1)]),
                            Edit::Delete(0, *at),
                            Edit::Delete(*at, m.text.len()),
                        ];
                        for s in seconds {
                            let mut m2 = m.clone();
                            m2.apply(&s);
                            run.trace = path_trace(&start, &path);
                            run.trace.push(format!("{:?}", s));
                            let mut pt = replay(&start, &path);
                            apply_impl(&mut pt, &s);
                            run.transitions += 1;
                            verify_text(&pt, &m2)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// Positions relative to the current text, so that a short pattern can be repeated for long.
#[derive(Clone, Copy, Debug)]
enum Rel {
    Ins(u8, &'static str),
    App(&'static str),
    Del(u8, u8),
    Rep(u8, u8, &'static str),
    Undo,
    Redo,
}

const RELS: [Rel; 14] = [
    Rel::Ins(0, "p"),
    Rel::Ins(50, "mé\n"),
    Rel::Ins(33, "uv"),
    Rel::Ins(100, "q\n"),
    Rel::App("t"),
    Rel::App("r\nw"),
    Rel::Del(0, 1),
    Rel::Del(50, 2),
    Rel::Del(25, 5),
    Rel::Del(100, 1),
    Rel::Rep(50, 1, "RR"),
    Rel::Rep(20, 4, "\n"),
    Rel::Undo,
    Rel::Redo,
];

fn resolve(r: Rel, text: &str) -> Edit {
    let bs = bounds(text);
    let at = |pct: u8| (bs.len() - 1) * pct as usize / 100;
    let range = |pct: u8, n: u8| {
        let mut b = at(pct);
        let mut e = b + n as usize;
        if e > bs.len() - 1 {
            e = bs.len() - 1;
            b = b.min(e.saturating_sub(n as usize));
        }
        (bs[b], bs[e])
    };
    match r {
        Rel::Ins(p, t) => Edit::Insert(bs[at(p)], t.into()),
        Rel::App(t) => Edit::Append(t.into()),
        Rel::Del(p, n) => {
            let (b, e) = range(p, n);
            Edit::Delete(b, e)
        }
        Rel::Rep(p, n, t) => {
            let (b, e) = range(p, n);
            Edit::Replace(b, e, t.into())
        }
        Rel::Undo => Edit::Undo,
        Rel::Redo => Edit::Redo,
    }
}

/// Every pattern of `pat` relative edits, repeated `reps` times.
struct Patterns {
    n: usize,
    pat: u32,
    reps: usize,
    verify: Verify,
}

impl Space for Patterns {
    fn name(&self) -> String {
        format!("every pattern of {} relative edits, repeated {} times", self.pat, self.reps)
    }
    fn len(&self) -> u64 {
        seqs(self.n, self.pat)
    }
    fn run(&self, i: u64, run: &mut Run) -> Result<(), Violation> {
        let pat = decode_seq(i, self.n, self.pat);
        let start = "start é\nof 🦊\n\nthe end";
        let mut m = RefTable::new(start);
        let mut pt = build(start);
        run.note(format!("start {:?}, pattern {:?}", start, pat.iter().map(|k| RELS[*k]).collect::<Vec<_>>()));
        for _ in 0..self.reps {
            for k in &pat {
                let e = resolve(RELS[*k], &m.text);
                run.step(format!("{:?}", e));
                let w = m.apply(&e);
                let g = apply_impl(&mut pt, &e);
                ensure_eq_v(g, w, &e)?;
                (self.verify)(&pt, &m)?;
                run.state(&m.text);
            }
        }
        Ok(())
    }
}

fn check_large(pt: &PieceTable, text: &str) -> Result<(), Violation> {
    let got = pt.text();
    if got != text {
        let at = got.bytes().zip(text.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(text.len()));
        return fail(format!("the text of {} bytes has {} bytes, the first other byte is {}", text.len(), got.len(), at));
    }
    crate::ensure_eq!(pt.len(), text.len(), "length");
    if !text.is_empty() {
        let n = lines(text).len();
        crate::ensure_eq!(pt.line_count(), n, "line count");
        for l in [1, n / 2 + 1, n] {
            crate::ensure!(pt.line_text(l).as_deref() == Some(lines(text)[l - 1]), "line {} of {}", l, n);
        }
        let bs = [0, text.len() / 3, text.len() / 2, text.len()].map(|mut b| {
            while !text.is_char_boundary(b) {
                b += 1;
            }
            b
        });
        for (i, b) in bs.iter().enumerate() {
            for e in &bs[i..] {
                let got = pt.text_range(&(*b..*e)).unwrap_or_default();
                crate::ensure!(got == text[*b..*e], "text of {}..{}", b, e);
            }
        }
    }
    Ok(())
}

/// Texts of all kinds of sizes inserted at all kinds of places, then cut.
fn large_texts(tier: Tier) -> impl Space {
    let sizes = sizes(tier);
    space("texts of all kinds of sizes", sizes.len() as u64 * 18, move |i, run| {
        let (len, kind, at) = (sizes[i as usize / 18], i as usize / 3 % 3, i as usize % 3);
        let split = i as usize / 9 % 2 == 1;
        let text = filler(len, kind);
        for start in ["", "é\nab\n"] {
            for how in 0..3 {
                let mut m = RefTable::new(start);
                let mut pt = build(start);
                run.trace.clear();
                run.note(format!("start {:?}", start));
                let place = |m: &str, at: usize| {
                    let bs = [0, m.len() / 2, m.len()];
                    let mut b = bs[at];
                    while !m.is_char_boundary(b) {
                        b += 1;
                    }
                    b
                };
                // among several pieces, before and after it
                let mut first = vec![];
                if split {
                    for e in [Edit::Insert(place(start, 1), "x\né".into()), Edit::Insert(0, "yé".into()), Edit::Append("\nz".into())] {
                        m.apply(&e);
                        apply_impl(&mut pt, &e);
                        first.push(e);
                    }
                    run.note(format!("after {:?}", first));
                }
                let start = m.text.clone();
                let mut edits = vec![Edit::Insert(place(&start, at), text.clone())];
                if how == 1 {
                    edits = vec![Edit::Append(text.clone()), Edit::Append("tail é".into())];
                } else if how == 2 {
                    edits = vec![Edit::Replace(0, start.len(), text.clone())];
                }
                for e in edits {
                    m.apply(&e);
                    run.step(format!("{:.60?} ({} bytes)", e, len));
                    apply_impl(&mut pt, &e);
                    check_large(&pt, &m.text)?;
                }
                // out of the middle, and from each end
                for k in 0..4 {
                    let l = m.text.len();
                    let (b, e) = [(l / 4, l / 2), (0, l / 3), (l - l / 3, l), (l / 2, l / 2)][k];
                    let up = |mut b: usize| {
                        while !m.text.is_char_boundary(b) {
                            b += 1;
                        }
                        b
                    };
                    let e = if k == 3 { Edit::Insert(up(b), "in é".into()) } else { Edit::Delete(up(b), up(e)) };
                    m.apply(&e);
                    run.step(format!("{:?}", e));
                    apply_impl(&mut pt, &e);
                    check_large(&pt, &m.text)?;
                }
                run.state(&m.text);
            }
        }
        Ok(())
    })
}

/// Many pieces, made in each way, then cut in each place of a few.
fn crowded(tier: Tier) -> impl Space {
    let ks: Vec<usize> = if tier == Tier::Quick { vec![130, 260, 520] } else { vec![130, 260, 520, 1030, 2100] };
    space("tables of very many pieces", (ks.len() * BUILDS.len() * 8) as u64, move |i, run| {
        let (k, how, eighth) = (ks[i as usize / 8 / BUILDS.len()], i as usize / 8 % BUILDS.len(), i as usize % 8);
        let (start, edits) = build_pieces(how, k);
        let mut m = RefTable::new(&start);
        let mut pt = build(&start);
        run.note(format!("{} pieces by {}", k, BUILDS[how]));
        for (n, e) in edits.iter().enumerate() {
            m.apply(e);
            apply_impl(&mut pt, e);
            run.transitions += 1;
            if n % 64 == 0 || n + 1 == edits.len() {
                check_large(&pt, &m.text)?;
            }
        }
        let bs = bounds(&m.text);
        let b = bs[(bs.len() - 1) * eighth / 8];
        for e in [Edit::Delete(b, bs[bs.len() - 1]), Edit::Delete(bs[0], b), Edit::Replace(b, bs[(bs.len() - 1) * (eighth + 1) / 8], "é\n".into())] {
            let mut m = m.clone();
            let mut pt = replay(&start, &edits);
            for e in [e, Edit::Append("z\n".into()), Edit::Insert(0, "y".into())] {
                m.apply(&e);
                run.step(format!("{:?}", e));
                apply_impl(&mut pt, &e);
                check_large(&pt, &m.text)?;
            }
            run.state(&m.text);
        }
        Ok(())
    })
}

/// So many groups of edits, all undone, all brought back, some undone and others made.
fn long_histories(tier: Tier) -> impl Space {
    let ns: Vec<usize> = sizes(tier).into_iter().filter(|n| *n <= tier.pick(1100, 4100)).collect();
    space("long histories undone", ns.len() as u64 * 3, move |i, run| {
        let (n, kind) = (ns[i as usize / 3], i % 3);
        let mut m = RefTable::new("a\n");
        let mut pt = build("a\n");
        run.note(format!("{} edits", n));
        let step = |m: &mut RefTable, pt: &mut PieceTable, e: Edit, run: &mut Run| {
            let w = m.apply(&e);
            let g = apply_impl(pt, &e);
            run.transitions += 1;
            ensure_eq_v(g, w, &e)?;
            if pt.text() != m.text {
                run.step(format!("{:?}", e));
                return fail(format!("after {} operations the text is {:?} instead of {:?}", run.transitions, pt.text(), m.text));
            }
            Ok(w)
        };
        for k in 0..n {
            let e = match (kind, k % 2) {
                (0, 0) => Edit::Insert(m.text.len() / 2, "xy".into()),
                (0, _) => Edit::Delete(m.text.len() / 3, m.text.len() / 3 + 1),
                (1, _) => Edit::Replace(0, 1, format!("{}", (b'a' + (k % 26) as u8) as char)),
                (_, 0) => Edit::Append(format!("{}\n", k % 10)),
                (_, _) => Edit::Delete(0, 1),
            };
            step(&mut m, &mut pt, e, run)?;
        }
        let mut undone = 0;
        while step(&mut m, &mut pt, Edit::Undo, run)? {
            undone += 1;
        }
        run.note(format!("{} undone", undone));
        while step(&mut m, &mut pt, Edit::Redo, run)? {}
        for _ in 0..n / 2 {
            step(&mut m, &mut pt, Edit::Undo, run)?;
        }
        step(&mut m, &mut pt, Edit::Insert(0, "new".into()), run)?;
        step(&mut m, &mut pt, Edit::Redo, run)?;
        while step(&mut m, &mut pt, Edit::Undo, run)? {}
        run.state(&(n, kind));
        Ok(())
    })
}

/// Every few edits of texts of all sizes, undone and brought back.
fn large_edits(tier: Tier) -> impl Space {
    const KINDS: u64 = 7;
    let ns = tier.pick(vec![17, 129, 257, 1025, 4097, 8193, 65537], sizes(tier).into_iter().filter(|n| *n <= 1 << 17).collect());
    let depth = 4;
    let each = KINDS.pow(depth);
    space("every few large edits undone", ns.len() as u64 * each, move |i, run| {
        let n = ns[(i / each) as usize];
        run.note(format!("size {}", n));
        let mut m = RefTable::new("a\nb\n");
        let mut pt = build("a\nb\n");
        let mut edits: Vec<Edit> = vec![];
        let small = |k: usize| Edit::Insert(k, "y".into());
        let big = "0123456\n".repeat(n / 8 + 1)[..n].to_owned();
        for k in decode_seq(i % each, KINDS as usize, depth) {
            let l = m.text.len();
            let e = match k {
                0 => Edit::Insert(l / 2, big.clone()),
                1 => Edit::Append(big.clone()),
                2 => small(l / 3),
                3 => Edit::Delete(l / 4, l - l / 4),
                4 => Edit::Delete(l - l.min(1), l),
                5 => Edit::Replace(l / 3, l / 2, big.clone()),
                _ => Edit::Replace(l / 3, l / 2, "z".into()),
            };
            m.apply(&e);
            apply_impl(&mut pt, &e);
            edits.push(e);
            crate::ensure!(pt.text() == m.text, "another text after {:.200}", format!("{:?}", edits));
        }
        for k in 0..2 * depth as usize + 4 {
            // undo everything, bring everything back, undo some and edit
            let e = match k {
                k if k <= depth as usize => Edit::Undo,
                k if k <= 2 * depth as usize => Edit::Redo,
                k if k == 2 * depth as usize + 2 => small(0),
                _ => Edit::Undo,
            };
            let w = m.apply(&e);
            run.transitions += 1;
            let g = apply_impl(&mut pt, &e);
            crate::ensure!(pt.text() == m.text, "another text after {:.200}, then step {} of undoing: {:?}", format!("{:?}", edits), k, e);
            ensure_eq_v(g, w, &e)?;
        }
        run.state(&m.text);
        Ok(())
    })
}

/// Coordinates in large texts, at all places near `around` and at the ends.
fn large_coords(tier: Tier) -> impl Space {
    let ns: Vec<usize> = sizes(tier).into_iter().filter(|n| *n <= tier.pick(1100, 9000)).collect();
    // long lines, many lines, and long characters
    space("coordinates in large texts", ns.len() as u64 * 5, move |i, run| {
        let (n, kind) = (ns[i as usize / 5], i % 5);
        let text = match kind {
            0 => "a\n".repeat(n),
            1 => format!("x\n{}\ny", "é".repeat(n)),
            2 => format!("{}b", "\n".repeat(n)),
            3 => format!("{}b\n", "e\u{301}".repeat(n)),
            // one character made of n code points
            _ => format!("ab\nc{}d\ne", format!("👩{}", "\u{200d}👩".repeat(n.min(300)))),
        };
        run.step(format!("{:.40?} ({} bytes)", text, text.len()));
        run.state(&text);
        let pt = PieceTable::with_text(text.clone());
        check_large(&pt, &text)?;
        let ps = positions(&text);
        let near: Vec<usize> = (0..ps.len())
            .filter(|k| *k < 3 || *k + 4 > ps.len() || k % 128 < 2 || k % 100 < 1 || k.abs_diff(n) < 3)
            .collect();
        for k in near {
            let p = &ps[k];
            let co = ced::editor::verif::Coords { l: p.l, c: p.c };
            crate::ensure_eq!(pt.offset_to_coord(p.offset), Some(co), "coordinates of offset {}", p.offset);
            crate::ensure_eq!(pt.coord_to_offset(co), Some(p.offset), "offset of {:?}", co);
            crate::ensure_eq!(pt.char_at(co).as_deref(), Some(p.ch.as_str()), "character at {:?}", co);
            crate::ensure_eq!(pt.char_at_offset(p.offset).as_deref(), Some(p.ch.as_str()), "character at offset {}", p.offset);
            let len = graphemes(lines(&text)[p.l - 1]).len();
            crate::ensure_eq!(pt.line_length(p.l), len, "length of line {}", p.l);
        }
        let last = ps.last().unwrap();
        crate::ensure_eq!(pt.max_coord(), ced::editor::verif::Coords { l: last.l, c: last.c }, "last coordinates");
        let m = lines(&text).iter().map(|l| graphemes(l).len()).max().unwrap();
        crate::ensure_eq!(pt.longest_line().1, m, "longest line");
        Ok(())
    })
}

/// Every character, alone and around others, put in and taken out.
fn every_character(al: Alphabet, starts: &'static [&'static str], depth: usize, verify: Verify) -> impl Space {
    let all = crate::model::text::around();
    space(
        &format!("every character put into {:?}, every edit sequence up to {}", starts, depth),
        all.len() as u64,
        move |i, run| {
            let t: &'static str = all[i as usize].clone().leak();
            for starts in [starts, &[t]] {
                let al = Alphabet { texts: vec![t], ..al.clone() };
                let edits = Sequences::new("", starts, al, depth, verify);
                for k in 0..edits.len() {
                    edits.run(k, run)?;
                }
            }
            Ok(())
        },
    )
}

pub fn c01(tier: Tier) -> Check {
    let full = Alphabet {
        texts: vec!["", "x", "é\n"],
        insert: true,
        delete: true,
        replace: true,
        reload: vec![],
        undo: false,
        stride: 1,
    };
    let indel = Alphabet { texts: vec!["xy", "\n"], replace: false, ..full.clone() };
    let starts = ["", "a", "é\n", "ab\ncd", "🦊\n\nz"];
    Check::new("C01")
        .space(Sequences::new("insert, append, delete, replace", &starts, full.clone(), tier.pick(3, 3), verify_text))
        .space(Sequences::new("insert, append, delete", &["", "abc"], indel.clone(), tier.pick(4, 5), verify_text))
        .space(ManyPieces { ks: vec![1, 2, 3, 4, 5, 7], second: true, undo: false })
        .space(ManyPieces { ks: tier.pick(vec![9, 16, 17, 33], vec![9, 16, 17, 33, 64, 65, 100]), second: false, undo: false })
        .space(Patterns { n: 12, pat: 3, reps: tier.pick(12, 40), verify: verify_text })
        .space(Patterns { n: 12, pat: 2, reps: tier.pick(40, 200), verify: verify_text })
        .space(every_character(Alphabet { texts: vec![], ..full.clone() }, &["a\nb"], tier.pick(2, 3), verify_text))
        .space(large_texts(tier))
        .space(crowded(tier))
        .assume("edit positions are character boundaries inside the text")
}

pub fn c02(tier: Tier) -> Check {
    let al = Alphabet {
        texts: vec!["x", "é\n"],
        insert: true,
        delete: true,
        replace: false,
        reload: vec!["a\nb", "é"],
        undo: true,
        stride: 2,
    };
    let small = Alphabet { texts: vec!["\n", "ü"], stride: 9, replace: true, ..al.clone() };
    Check::new("C02")
        .space(Sequences::new("insert, delete, reload, undo, redo", &["", "a\nb", "é\n"], al, tier.pick(4, 4), verify_all))
        .space(Sequences::new("edits at the borders, undo, redo", &["", "ab\n"], small, tier.pick(5, 6), verify_all))
        .space(ManyPieces { ks: tier.pick(vec![1, 2, 3, 5, 9], vec![1, 2, 3, 5, 9, 17, 33]), second: false, undo: true })
        .space(Patterns { n: RELS.len(), pat: 3, reps: tier.pick(8, 30), verify: verify_text })
        .space(Patterns { n: RELS.len(), pat: 4, reps: tier.pick(2, 5), verify: verify_text })
        .space(every_character(
            Alphabet { texts: vec![], insert: true, delete: true, replace: false, reload: vec!["b"], undo: true, stride: 1 },
            &["a"],
            tier.pick(3, 4),
            verify_all,
        ))
        .space(long_histories(tier))
        .space(large_edits(tier))
        .assume("edits of nothing (empty text, empty range) form no group")
}

pub fn c03(tier: Tier) -> Check {
    let alphabet = ["a", "\n", "é", "🦊", "e\u{301}", "\r", "👩\u{200d}💻", "\u{301}"];
    let len = tier.pick(5, 6);
    let n = seqs_upto(alphabet.len(), len);
    let al = Alphabet {
        texts: vec!["é\n", "e\u{301}", "\n"],
        insert: true,
        delete: true,
        replace: false,
        reload: vec!["🦊\né"],
        undo: true,
        stride: 1,
    };
    Check::new("C03")
        .space(space(&format!("every text of up to {} of {:?}", len, alphabet), n, move |i, run| {
            let text: String = decode_upto(i, alphabet.len(), len).into_iter().map(|k| alphabet[k]).collect();
            run.step(format!("{:?}", text));
            run.state(&text);
            let pt = PieceTable::with_text(text.clone());
            check_text(&pt, &text, false)?;
            check_coords(&pt, &text)
        }))
        .space(every_character(Alphabet { texts: vec![], reload: vec![], undo: false, ..al.clone() }, &["a\nb"], tier.pick(2, 2), verify_all))
        .space(Sequences::new("texts reached by editing", &["", "é\nb", "a\r\n"], al, tier.pick(3, 4), verify_all))
        .space(space("long texts", tier.pick(60, 200), move |i, run| {
            // many lines and long lines, with every mix of line kinds
            let kinds = ["", "plain ascii text", "é", "🦊🐶 mixed é\u{301}", "\r", "👩\u{200d}💻x"];
            let mut text = String::new();
            for j in 0..(i as usize) {
                text.push_str(kinds[(i as usize * 7 + j * j) % kinds.len()]);
                if j % 5 != 4 {
                    text.push('\n');
                }
            }
            run.step(format!("{:?}", text));
            run.state(&text);
            let mut pt = PieceTable::new();
            // as many pieces as lines
            for l in text.split_inclusive('\n') {
                pt.insert(pt.len(), l.to_owned());
            }
            check_text(&pt, &text, false)?;
            if i <= 40 {
                check_coords(&pt, &text)?;
            }
            Ok(())
        }))        .space(large_coords(tier))
}
