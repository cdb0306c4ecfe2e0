//! C11, C12, C13: cursor movement, and the cursor of a replaced content.

use crate::edits::filler;
use crate::gen::{self, *};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::Position;
use scribe::Buffer;
use std::fs;
use std::path::PathBuf;

fn buffer(text: &str, gaps: &[usize]) -> Buffer {
    let mut b = Buffer::new();
    b.insert(text);
    let size = gaps[sym::pick(gaps.len())];
    if size > 0 {
        // Leave a gap of this size somewhere.
        let places = model::boundaries(text);
        let p = places[sym::pick(places.len())].0;
        b.cursor.move_to(p);
        b.insert("\t".repeat(size));
        b.delete_range(scribe::buffer::Range::new(p, Position { line: p.line, offset: p.offset + size }));
        b.cursor.move_to(Position { line: 0, offset: 0 });
    }
    b
}

/// The columns the cursor may remember. Which one it does after moving to a
/// first or last line too short for it isn't specified.
pub struct Columns(usize, Option<usize>);

impl Columns {
    pub fn at(column: usize) -> Columns {
        Columns(column, None)
    }
}

/// One movement, whose outcome is checked. `exact`: C12's, not just C11's.
fn step(b: &mut Buffer, text: &str, lines: usize, columns: &mut Columns, exact: bool) {
    one_step(b, text, lines, columns, exact, sym::pick(9))
}

pub fn one_step(b: &mut Buffer, text: &str, lines: usize, columns: &mut Columns, exact: bool, k: usize) {
    let p = *b.cursor;
    let width = |line: usize| model::width(text, line).unwrap();
    let mut want = None;
    match k {
        0 => {
            let to = gen::position();
            let exists = model::offset(text, &to).is_some();
            let moved = b.cursor.move_to(to);
            check(moved == exists, "an explicit move succeeds exactly when the target exists");
            want = Some(if exists { to } else { p });
            if exists {
                *columns = Columns(to.offset, None);
            }
        }
        1 => {
            b.cursor.move_left();
            want = Some(Position { line: p.line, offset: if p.offset == 0 { 0 } else { p.offset - 1 } });
            if p.offset > 0 {
                *columns = Columns(p.offset - 1, None);
            }
        }
        2 => {
            b.cursor.move_right();
            let end = p.offset >= width(p.line);
            want = Some(Position { line: p.line, offset: if end { p.offset } else { p.offset + 1 } });
            if !end {
                *columns = Columns(p.offset + 1, None);
            }
        }
        3 => b.cursor.move_up(),
        4 => b.cursor.move_down(),
        5 => b.cursor.move_to_first_line(),
        6 => b.cursor.move_to_last_line(),
        7 => {
            b.cursor.move_to_start_of_line();
            if exact {
                want = Some(Position { line: p.line, offset: 0 });
            }
            *columns = Columns(0, None);
        }
        _ => {
            b.cursor.move_to_end_of_line();
            if exact {
                want = Some(Position { line: p.line, offset: width(p.line) });
            }
            *columns = Columns(width(p.line), None);
        }
    }
    cover(k as u32);
    let now = *b.cursor;
    sym::observe(now.line as u64);
    sym::observe(now.offset as u64);
    check(model::offset(text, &now).is_some(), "the cursor is at an existing position");
    let edge = (k == 3 && p.line == 0) || (k == 4 && p.line + 1 == lines);
    if edge {
        check(now == p, "moving beyond the edge leaves the cursor where it was");
        cover(20);
        return;
    }
    if let Some(want) = want {
        match k {
            0 => check(now == want, "an explicit move goes to its target, or nowhere"),
            1 | 2 => check(now == want, "left and right move by one grapheme cluster"),
            _ => check(now == want, "the start or the end of the line"),
        }
    }
    if exact && k >= 3 && k <= 6 {
        let line = match k {
            3 => p.line - 1,
            4 => p.line + 1,
            5 => 0,
            _ => lines - 1,
        };
        let w = width(line);
        let truncated = |column: usize| if column < w { column } else { w };
        let fits = |column: usize| now == Position { line, offset: truncated(column) };
        let a = fits(columns.0);
        let b = columns.1.map_or(false, |c| fits(c));
        match k {
            3 | 4 => check(a || b, "the adjacent line at the remembered column, or its end"),
            _ => check(a || b, "the first or last line at the remembered column, or its end"),
        }
        if !a {
            *columns = Columns(columns.1.unwrap_or(0), None);
        } else if !b {
            columns.1 = None;
        }
        if k >= 5 && now.offset != columns.0 {
            columns.1 = Some(now.offset);
        }
        if now.offset < columns.0 {
            cover(21);
        }
        if p.offset < columns.0 && now.offset == columns.0 {
            cover(22);
        }
    }
}

/// Any movements from any existing position.
pub fn movement(max: usize, classes: &[Class], gaps: &[usize], steps: usize, exact: bool) {
    let text = gen::text(max, classes);
    let mut b = buffer(&text, gaps);
    let (p, _) = gen::existing(&text);
    check(b.cursor.move_to(p), "an explicit move succeeds exactly when the target exists");
    let lines = model::lines(&text).len();
    let mut columns = Columns(p.offset, None);
    for _ in 0..steps {
        step(&mut b, &text, lines, &mut columns, exact);
    }
    check(model::same(&b.data(), &text), "moving the cursor changes no content");
}

/// Movement over lines of arbitrary lengths.
pub fn movement_shape(lines: usize, width: usize, steps: usize) {
    let mut text = String::new();
    for i in 0..sym::between(1, lines) {
        if i > 0 {
            text.push_str(["\n", "\r\n"][sym::pick(2)]);
        }
        for _ in 0..sym::between(0, width) {
            text.push_str("é");
        }
    }
    let mut b = Buffer::new();
    b.insert(text.clone());
    let (p, _) = gen::existing(&text);
    check(b.cursor.move_to(p), "an explicit move succeeds exactly when the target exists");
    let lines = model::lines(&text).len();
    let mut columns = Columns(p.offset, None);
    for _ in 0..steps {
        step(&mut b, &text, lines, &mut columns, true);
    }
}

/// Longer walks over lines of several lengths, from anywhere, without explicit
/// moves on the way.
pub fn movement_walk(steps: usize, shapes: usize, exact: bool) {
    let text = [
        "ab\n\na\nab",
        "a\u{301}b\r\n\r\n\u{1f600}\u{1f3fd}bc\r\n",
        "\nab\n",
        "abc\r\na\n\n\nabcd",
    ][sym::pick(shapes)];
    let mut b = Buffer::new();
    b.insert(text);
    let (p, _) = gen::existing(text);
    check(b.cursor.move_to(p), "an explicit move succeeds exactly when the target exists");
    let lines = model::lines(text).len();
    let mut columns = Columns(p.offset, None);
    for _ in 0..steps {
        let k = 1 + sym::pick(8);
        one_step(&mut b, text, lines, &mut columns, exact, k);
    }
}

/// Movements over big texts, from anywhere.
pub fn movement_big(texts: &[Class], exact: bool, all: bool) {
    let text = gen::text(0, texts);
    let mut b = Buffer::new();
    b.insert(text.clone());
    let (p, _) = gen::place(&text, all);
    check(b.cursor.move_to(p), "an explicit move succeeds exactly when the target exists");
    let lines = model::lines(&text).len();
    let mut columns = Columns(p.offset, None);
    let k = 1 + sym::pick(8);
    one_step(&mut b, &text, lines, &mut columns, exact, k);
}

/// C12: vertical movements across lines wide and narrow.
pub fn columns_far(widths: &[usize], steps: usize) {
    let width = widths[sym::pick(widths.len())];
    let wide = |end: &str| format!("{}{}", "\u{e9}".repeat(width), end);
    let more = if width < 65536 { "\n\n".to_string() + &wide("") } else { String::new() };
    let text = [wide("\r\n"), "ab\n".into(), wide(""), more].concat();
    let mut b = Buffer::new();
    b.insert(text.clone());
    let lines = model::lines(&text).len();
    let line = 2 * sym::pick((lines + 1) / 2);
    let offset = [width, [256, 65536][(width > 65536) as usize], 255, width - 1][sym::pick(if lines > 3 { 4 } else { 2 })];
    check(b.cursor.move_to(Position { line, offset }), "an explicit move succeeds exactly when the target exists");
    let mut columns = Columns::at(offset);
    for _ in 0..steps {
        one_step(&mut b, &text, lines, &mut columns, true, 3 + sym::pick(4));
    }
}

/// Where a cursor is after the content has been replaced.
fn kept(p: Position, text: &str) -> Position {
    if model::offset(text, &p).is_some() {
        cover(1);
        return p;
    }
    if p.line < model::lines(text).len() {
        cover(2);
        return Position { line: p.line, offset: 0 };
    }
    cover(3);
    Position { line: 0, offset: 0 }
}

fn verify(b: &mut Buffer, was: Position, text: &str) {
    check(model::same(&b.data(), text), "the content is the new one");
    sym::observe(b.cursor.line as u64);
    sym::observe(b.cursor.offset as u64);
    check(*b.cursor == kept(was, text), "the cursor is kept, or at the line's start, or at the origin");
    let bound = b.cursor.data.borrow().to_string();
    check(model::same(&bound, text), "the cursor is bound to the new content");
}

/// Any replacement of any content with the cursor anywhere, and back.
pub fn replace(max: usize, new: usize, classes: &[Class], reload: bool) {
    let text = gen::text(max, classes);
    let mut b;
    if reload {
        let path = PathBuf::from(sym::scratch()).join("f");
        fs::write(&path, &text).unwrap();
        b = Buffer::from_file(&path).unwrap();
    } else {
        b = Buffer::new();
        b.insert(text.clone());
    }
    let (p, _) = gen::existing(&text);
    check(b.cursor.move_to(p), "moving to an existing position");
    // In a group of its own, or none.
    let group = if reload { 0 } else { sym::pick(2) };
    if group > 0 {
        b.start_operation_group();
    }
    let content = gen::text_of(sym::between(0, new), classes);
    let same = model::same(&content, &text);
    if reload {
        fs::write("f", &content).unwrap();
        check(b.reload().is_ok(), "reloading works");
    } else {
        b.replace(content.clone());
    }
    if same {
        check(*b.cursor == p && model::same(&b.data(), &text), "identical content changes nothing");
        cover(4);
        if reload {
            return;
        }
        b.undo();
        check(b.data().is_empty(), "identical content adds no undo step");
        return;
    }
    if group > 0 {
        b.end_operation_group();
    }
    verify(&mut b, p, &content);
    // Anywhere in the new content, so that it matters where undoing starts.
    if sym::pick(2) == 0 {
        let (q, _) = gen::existing(&content);
        check(b.cursor.move_to(q), "moving within the new content");
    }
    let q = *b.cursor;
    b.undo();
    verify(&mut b, q, &text);
    let q = *b.cursor;
    b.redo();
    verify(&mut b, q, &content);
    // What the cursor does from here on, it does to the new content.
    let (r, at) = gen::existing(&content);
    check(b.cursor.move_to(r), "moving within the new content");
    b.insert("é");
    check(model::same(&b.data(), &model::splice(&content, at, "é")), "editing the new content");
}

/// Identical content amid a history: neither undo nor redo notices.
pub fn replace_same(max: usize, classes: &[Class]) {
    let text = gen::text(max, classes);
    let mut b = Buffer::new();
    b.insert(text.clone());
    b.cursor.move_to(Position { line: 0, offset: 0 });
    b.insert("1");
    let one = b.data();
    b.insert("2");
    let two = b.data();
    b.undo();
    b.replace(one.clone());
    check(model::same(&b.data(), &one), "identical content changes nothing");
    if sym::pick(2) == 0 {
        b.redo();
        check(model::same(&b.data(), &two), "identical content keeps what can be redone");
        b.replace(two.clone());
        b.undo();
    }
    b.undo();
    check(model::same(&b.data(), &text), "identical content adds no undo step");
    cover(1);
}

/// Larger contents, with the cursor in places which matter.
pub fn replace_large(sizes: &[usize]) {
    let text = filler(sizes[sym::pick(sizes.len())]);
    let content = filler(sizes[sym::pick(sizes.len())]).to_lowercase();
    sym::assume(text != content);
    let mut b = Buffer::new();
    b.insert(text.clone());
    let (p, _) = gen::existing(&text);
    check(b.cursor.move_to(p), "moving to an existing position");
    b.replace(content.clone());
    verify(&mut b, p, &content);
    let q = *b.cursor;
    b.undo();
    verify(&mut b, q, &text);
}

/// C13, C09: replaced by, or reloaded with, a text that differs in one place.
pub fn replace_near(reload: bool) {
    let n = [40, 300, 5000, 66000][sym::pick(4)];
    let mut text: Vec<u8> = (0..n).map(|i| if i % 79 == 78 { b'\n' } else { b'a' + (i % 7) as u8 }).collect();
    let at = [0, 1, n / 3, n / 2, n - 2, n - 1][sym::pick(6)];
    let (a, b) = (sym::u8(), sym::u8());
    sym::assume(a >= 32 && a < 127 && b >= 32 && b < 127 && a != b);
    text[at] = a;
    let was = String::from_utf8(text.clone()).unwrap();
    text[at] = b;
    let content = String::from_utf8(text).unwrap();
    let mut buffer;
    let path = PathBuf::from(sym::scratch()).join("f");
    if reload {
        fs::write(&path, &was).unwrap();
        buffer = Buffer::from_file(&path).unwrap();
    } else {
        buffer = Buffer::new();
        buffer.insert(was.clone());
    }
    let p = Position { line: 0, offset: 20 };
    check(buffer.cursor.move_to(p), "moving to an existing position");
    for (now, k) in [(&content, 0), (&was, 1), (&content, 2), (&was, 0)] {
        match k {
            0 if reload => {
                fs::write(&path, now).unwrap();
                check(buffer.reload().is_ok(), "a readable UTF-8 file can be reloaded");
            }
            0 => buffer.replace(now.clone()),
            1 => buffer.undo(),
            _ => buffer.redo(),
        }
        verify(&mut buffer, p, now);
    }
}

/// C13: massive texts, replaced or reloaded, and back.
pub fn replace_massive(reload: bool) {
    let text = gen::text(0, MASSIVE);
    let content = match sym::pick(3) {
        0 => gen::text_of(0, MASSIVE),
        1 => "z".repeat(65601),
        _ => "z\n".repeat(65540),
    };
    sym::assume(text.len() != content.len());
    let mut b;
    let path = PathBuf::from(sym::scratch()).join("f");
    if reload {
        fs::write(&path, &text).unwrap();
        b = Buffer::from_file(&path).unwrap();
    } else {
        b = Buffer::new();
        b.insert(text.clone());
    }
    let (p, _) = gen::some(&text);
    check(b.cursor.move_to(p), "moving to an existing position");
    if reload {
        fs::write(&path, &content).unwrap();
        check(b.reload().is_ok(), "a readable UTF-8 file can be reloaded");
    } else {
        b.replace(content.clone());
    }
    verify(&mut b, p, &content);
    let q = *b.cursor;
    b.undo();
    verify(&mut b, q, &text);
}
