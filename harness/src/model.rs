//! The reference: what positions mean, on plain strings.

use scribe::buffer::{Position, Range};
use unicode_segmentation::UnicodeSegmentation;

/// Byte spans of the lines, line breaks excluded.
pub fn lines(text: &str) -> Vec<(usize, usize)> {
    let b = text.as_bytes();
    let mut out = Vec::new();
    let mut start = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            let end = if i > start && b[i - 1] == b'\r' { i - 1 } else { i };
            out.push((start, end));
            start = i + 1;
        }
    }
    out.push((start, b.len()));
    out
}

/// All existing positions with their byte offsets, in order.
pub fn boundaries(text: &str) -> Vec<(Position, usize)> {
    let mut out = Vec::new();
    for (line, &(start, end)) in lines(text).iter().enumerate() {
        let mut offset = 0;
        for (i, _) in text[start..end].grapheme_indices(true) {
            out.push((Position { line, offset }, start + i));
            offset += 1;
        }
        out.push((Position { line, offset }, end));
    }
    out
}

/// The byte offset a position addresses.
pub fn offset(text: &str, position: &Position) -> Option<usize> {
    for (line, &(start, end)) in lines(text).iter().enumerate() {
        if line == position.line {
            let mut offset = 0;
            for (i, _) in text[start..end].grapheme_indices(true) {
                if offset == position.offset {
                    return Some(start + i);
                }
                offset += 1;
            }
            return if offset == position.offset { Some(end) } else { None };
        }
    }
    None
}

/// The position addressing a byte offset, if it's a place one can address.
pub fn position(text: &str, byte: usize) -> Option<Position> {
    boundaries(text).iter().find(|b| b.1 == byte).map(|b| b.0)
}

/// The last existing position at or before a byte offset.
pub fn position_floor(text: &str, byte: usize) -> Position {
    let mut last = Position { line: 0, offset: 0 };
    for (p, b) in boundaries(text) {
        if b > byte {
            break;
        }
        last = p;
    }
    last
}

/// Number of grapheme clusters on a line.
pub fn width(text: &str, line: usize) -> Option<usize> {
    lines(text).get(line).map(|&(s, e)| text[s..e].graphemes(true).count())
}

pub fn read(text: &str, range: &Range) -> Option<String> {
    let a = offset(text, &range.start())?;
    let b = offset(text, &range.end())?;
    Some(text[a..b].to_string())
}

pub fn splice(text: &str, at: usize, insert: &str) -> String {
    let mut s = String::with_capacity(text.len() + insert.len());
    s.push_str(&text[..at]);
    s.push_str(insert);
    s.push_str(&text[at..]);
    s
}

pub fn cut(text: &str, from: usize, to: usize) -> String {
    let mut s = String::with_capacity(text.len());
    s.push_str(&text[..from]);
    s.push_str(&text[to..]);
    s
}

pub fn insert(text: &str, position: &Position, insert: &str) -> String {
    match offset(text, position) {
        Some(o) => splice(text, o, insert),
        None => text.to_string(),
    }
}

/// The byte span a deletion removes, ends that don't exist included.
pub fn deletion(text: &str, range: &Range) -> Option<(usize, usize)> {
    let from = offset(text, &range.start())?;
    let to = match offset(text, &range.end()) {
        Some(o) => o,
        None => {
            let mut to = text.len();
            for (line, &(start, _)) in lines(text).iter().enumerate() {
                if line > 0 && line - 1 == range.end().line {
                    to = start;
                }
            }
            to
        }
    };
    Some((from, to))
}

pub fn delete(text: &str, range: &Range) -> String {
    match deletion(text, range) {
        Some((from, to)) => cut(text, from, to),
        None => text.to_string(),
    }
}

/// Where the contents first differ, if they do.
pub fn first_difference(a: &str, b: &str) -> Option<usize> {
    let (x, y) = (a.as_bytes(), b.as_bytes());
    let n = x.len().min(y.len());
    for i in 0..n {
        if x[i] != y[i] {
            return Some(i);
        }
    }
    if x.len() == y.len() {
        None
    } else {
        Some(n)
    }
}

/// Equality as one solver question, rather than one per byte.
pub fn same(a: &str, b: &str) -> bool {
    same_bytes(a.as_bytes(), b.as_bytes())
}

pub fn starts_with(a: &str, b: &str) -> bool {
    a.len() >= b.len() && same_bytes(&a.as_bytes()[..b.len()], b.as_bytes())
}

pub fn same_bytes(x: &[u8], y: &[u8]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..x.len() {
        d |= x[i] ^ y[i];
    }
    d == 0
}
