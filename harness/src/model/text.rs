use bstr::ByteSlice;

use crate::fw::Tier;

/// Lines of a text: split after each newline; no line after a final newline.
pub fn lines(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = text.split('\n').collect();
    if text.ends_with('\n') {
        v.pop();
    }
    v
}

pub fn graphemes(s: &str) -> Vec<&str> {
    s.as_bytes().graphemes().collect()
}

/// One user-perceived character, or the end of an unterminated last line (`ch` empty).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pos {
    pub offset: usize,
    pub l: usize,
    pub c: usize,
    pub ch: String,
}

/// Every character of the text, newlines included, in order.
pub fn positions(text: &str) -> Vec<Pos> {
    let mut v = Vec::new();
    let mut offset = 0;
    for (i, line) in lines(text).iter().enumerate() {
        let mut c = 1;
        for g in graphemes(line) {
            v.push(Pos { offset, l: i + 1, c, ch: g.to_owned() });
            offset += g.len();
            c += 1;
        }
        if offset < text.len() {
            assert_eq!(text.as_bytes()[offset], b'\n');
            v.push(Pos { offset, l: i + 1, c, ch: "\n".into() });
            offset += 1;
        }
    }
    assert_eq!(offset, text.len());
    v
}

/// Numbers around the sizes at which something may change.
pub fn sizes(tier: Tier) -> Vec<usize> {
    let mut v = vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024, 1025];
    v.extend([4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537]);
    if tier == Tier::Thorough {
        v.extend([511, 512, 513, 2047, 2048, 2049, 10000, 16384, 100_000, 1 << 17, 1 << 20]);
    }
    v
}

/// A text of `len` bytes: lines, long or short, with or without characters of several bytes.
pub fn filler(len: usize, kind: usize) -> String {
    let unit = ["abc def\n", "x", "é🦊\n\n"][kind % 3];
    let mut s = String::with_capacity(len + 8);
    while s.len() + unit.len() <= len {
        s.push_str(unit);
    }
    while s.len() < len {
        s.push('.');
    }
    s
}

pub fn bounds(text: &str) -> Vec<usize> {
    (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect()
}


/// Characters of all kinds: every one of ASCII, then blanks, marks, joiners, controls, wide ones,
/// the first and the last of each length.
pub fn characters() -> Vec<char> {
    const MORE: [u32; 64] = [
        0x80, 0x85, 0x9b, 0xa0, 0xad, 0xdf, 0xe9, 0xff, 0x100, 0x301, 0x34f, 0x378, 0x3a9, 0x5d0, 0x600, 0x61c, 0x7ff, 0x800,
        0xe33, 0x1100, 0x1160, 0x11a8, 0x1680, 0x180e, 0x2000, 0x2003, 0x2007, 0x2009, 0x200a, 0x200b, 0x200c, 0x200d, 0x200e,
        0x2028, 0x2029, 0x202e, 0x202f, 0x205f, 0x2060, 0x20ac, 0x20e3, 0x231a, 0x2500, 0x3000, 0x3042, 0xac00, 0xd7ff, 0xe000,
        0xfe0f, 0xfeff, 0xff01, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f1e6, 0x1f3fb, 0x1f468, 0x1f98a, 0xe0001, 0xe0020, 0xe0100,
        0xf0000, 0x10ffff,
    ];
    (0..128).chain(MORE).map(|c| char::from_u32(c).unwrap()).collect()
}

/// Each of them alone, twice, and at every place around others.
pub fn around() -> Vec<String> {
    let mut v = Vec::new();
    for c in characters() {
        for p in ["c", "cc", "xc", "cx", "xcx", "cxc"] {
            v.push(p.replace('c', &c.to_string()));
        }
    }
    v
}
