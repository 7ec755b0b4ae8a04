use ced::editor::verif::{Coords, OffsetRange, PieceTable};

use super::text::*;
use crate::fw::Violation;
use crate::{ensure, ensure_eq};

/// Text, ranges and lines of a table against the plain string.
pub fn check_text(pt: &PieceTable, text: &str, all_ranges: bool) -> Result<(), Violation> {
    ensure_eq!(pt.text(), text, "text");
    ensure_eq!(pt.len(), text.len(), "length of {:?}", text);
    ensure_eq!(pt.is_empty(), text.is_empty(), "emptiness of {:?}", text);
    let ls = lines(text);
    if !text.is_empty() {
        ensure_eq!(pt.line_count(), ls.len(), "line count of {:?}", text);
        for (i, l) in ls.iter().enumerate() {
            ensure_eq!(pt.line_text(i + 1).as_deref(), Some(*l), "line {} of {:?}", i + 1, text);
        }
        ensure_eq!(pt.line_text(ls.len() + 1), None, "line after the last of {:?}", text);
    }
    ensure_eq!(pt.line_text(0), None, "line 0 of {:?}", text);
    let strip: Vec<String> = text.lines().map(|s| s.to_owned()).collect();
    ensure_eq!(pt.lines(), strip, "lines of {:?}", text);
    if all_ranges {
        let bounds: Vec<usize> =
            (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
        for (k, &b) in bounds.iter().enumerate() {
            for &e in &bounds[k..] {
                let got = pt.text_range(&OffsetRange::new(b, e - b)).unwrap_or_default();
                ensure_eq!(got, &text[b..e], "text of {}..{} of {:?}", b, e, text);
                let got = pt.text_range(&(b..e)).unwrap_or_default();
                ensure_eq!(got, &text[b..e], "text of {}..{} of {:?}", b, e, text);
            }
        }
    }
    Ok(())
}

/// Coordinates, characters and line lengths of a table against the plain string.
pub fn check_coords(pt: &PieceTable, text: &str) -> Result<(), Violation> {
    let ps = positions(text);
    let ls = lines(text);
    for p in &ps {
        let co = Coords { l: p.l, c: p.c };
        ensure_eq!(pt.offset_to_coord(p.offset), Some(co), "coordinates of offset {} of {:?}", p.offset, text);
        ensure_eq!(pt.coord_to_offset(co), Some(p.offset), "offset of {:?} of {:?}", co, text);
        ensure_eq!(pt.char_at(co).as_deref(), Some(p.ch.as_str()), "character at {:?} of {:?}", co, text);
        ensure_eq!(
            pt.char_at_offset(p.offset).as_deref(),
            Some(p.ch.as_str()),
            "character at offset {} of {:?}",
            p.offset,
            text
        );
    }
    for off in text.len()..text.len() + 3 {
        if off == 0 {
            continue;
        }
        // the end of an unterminated line is the one position past the text that may be named
        let got = pt.offset_to_coord(off);
        let end = Coords { l: ls.len(), c: graphemes(ls.last().unwrap_or(&"")).len() + 1 };
        let named = off == text.len() && !text.ends_with('\n') && got == Some(end);
        ensure!(got.is_none() || named, "offset {} of {:?} is outside but has {:?}", off, text, got);
    }
    for l in 1..=ls.len() + 2 {
        let n = if l <= ls.len() { graphemes(ls[l - 1]).len() } else { 0 };
        ensure_eq!(pt.line_length(l), n, "length of line {} of {:?}", l, text);
        for c in 0..n + 4 {
            if text.is_empty() && (l, c) == (1, 1) {
                continue;
            }
            let co = Coords { l, c };
            let known = ps.iter().find(|p| (p.l, p.c) == (l, c));
            if known.is_some() {
                continue;
            }
            let got = pt.coord_to_offset(co);
            let unterminated = l == ls.len() && c == n + 1 && !text.ends_with('\n');
            ensure!(
                got.is_none() || (unterminated && got == Some(text.len())),
                "{:?} is outside {:?} but has offset {:?}",
                co,
                text,
                got
            );
            ensure_eq!(pt.char_at(co), None, "character at {:?}, outside of {:?}", co, text);
        }
    }
    match ps.last() {
        Some(p) => ensure_eq!(pt.max_coord(), Coords { l: p.l, c: p.c }, "last coordinates of {:?}", text),
        None => ensure_eq!(pt.max_coord(), Coords { l: 1, c: 1 }, "last coordinates of an empty text"),
    }
    if let Some(m) = ls.iter().map(|l| graphemes(l).len()).max() {
        let (ln, len) = pt.longest_line();
        ensure_eq!(len, m, "longest line length of {:?}", text);
        if m > 0 {
            ensure!(
                ln >= 1 && ln <= ls.len() && graphemes(ls[ln - 1]).len() == m,
                "longest line of {:?} reported as {}",
                text,
                ln
            );
        }
    }
    for (i, p) in ps.iter().enumerate() {
        for q in &ps[i..] {
            let got = pt.lines_range((p.l, p.c), (q.l, q.c));
            let want: Vec<String> = text[p.offset..q.offset].lines().map(|s| s.to_owned()).collect();
            ensure_eq!(got, want, "lines from {:?} to {:?} of {:?}", (p.l, p.c), (q.l, q.c), text);
        }
    }
    Ok(())
}

/// Edits on a plain string with undo and redo.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct RefTable {
    pub text: String,
    undos: Vec<String>,
    redos: Vec<String>,
    last: Option<Kind>,
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Kind {
    Insert,
    Delete,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Edit {
    Insert(usize, String),
    Append(String),
    Delete(usize, usize),
    Replace(usize, usize, String),
    Reload(String),
    Undo,
    Redo,
}

impl RefTable {
    pub fn new(text: &str) -> RefTable {
        RefTable { text: text.into(), undos: vec![], redos: vec![], last: None }
    }
    fn group(&mut self, kind: Option<Kind>) {
        if kind.is_none() || self.last != kind {
            self.undos.push(self.text.clone());
            self.redos.clear();
        }
        self.last = kind;
    }
    /// Applies an edit; for undo and redo, whether there was something to do.
    pub fn apply(&mut self, e: &Edit) -> bool {
        match e {
            Edit::Insert(_, t) | Edit::Append(t) if t.is_empty() => {}
            Edit::Insert(at, t) => {
                self.group(Some(Kind::Insert));
                self.text.insert_str(*at, t);
            }
            Edit::Append(t) => {
                self.group(Some(Kind::Insert));
                self.text.push_str(t);
            }
            Edit::Delete(b, e) if b == e => {}
            Edit::Delete(b, e) => {
                self.group(Some(Kind::Delete));
                self.text.replace_range(*b..*e, "");
            }
            Edit::Replace(b, e, t) => {
                self.group(None);
                self.text.replace_range(*b..*e, t);
            }
            Edit::Reload(t) => {
                self.group(None);
                self.text = t.clone();
            }
            Edit::Undo => match self.undos.pop() {
                Some(t) => {
                    self.redos.push(std::mem::replace(&mut self.text, t));
                    self.last = None;
                }
                None => return false,
            },
            Edit::Redo => match self.redos.pop() {
                Some(t) => {
                    self.undos.push(std::mem::replace(&mut self.text, t));
                    self.last = None;
                }
                None => return false,
            },
        }
        true
    }
}

/// Applies the same edit to the implementation.
pub fn apply_impl(pt: &mut PieceTable, e: &Edit) -> bool {
    match e {
        Edit::Insert(at, t) => pt.insert(*at, t.clone()),
        Edit::Append(t) => pt.append(t.clone()),
        Edit::Delete(b, e) => pt.delete(&OffsetRange::new(*b, *e - *b)),
        Edit::Replace(b, e, t) => pt.replace(OffsetRange::new(*b, *e - *b), t.clone()),
        Edit::Reload(t) => pt.apply_diff(t),
        Edit::Undo => return pt.verif_undo(),
        Edit::Redo => return pt.verif_redo(),
    }
    true
}
