//! C01, C02, C03: edits and reads of the gap buffer, and of the buffer.

use crate::gen::{self, *};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::{GapBuffer, Position, Range};
use scribe::Buffer;

/// One insertion at any existing position, from any gap state.
pub fn insert_once(max: usize, classes: &[Class], added: usize, sizes: &[usize]) {
    let text = gen::text(max, classes);
    let mut g = gen::gap_buffer(&text, sizes);
    let (p, at) = gen::existing(&text);
    let new = gen::text_of(sym::between(0, added), classes);
    g.insert(&new, &p);
    let got = g.to_string();
    sym::observe_str(&got);
    check(model::same(&got, &model::splice(&text, at, &new)), "insert splices exactly the text in");
    cover(if new.is_empty() { 1 } else { 2 });
}

/// One deletion of any existing range, from any gap state.
pub fn delete_once(max: usize, classes: &[Class], sizes: &[usize]) {
    let text = gen::text(max, classes);
    let mut g = gen::gap_buffer(&text, sizes);
    let (r, from, to) = gen::existing_range(&text);
    g.delete(&r);
    let got = g.to_string();
    sym::observe_str(&got);
    check(model::same(&got, &model::cut(&text, from, to)), "delete removes exactly the range");
    cover(if from == to { 1 } else { 2 });
}

/// A sequence of edits at existing positions, checked after each.
pub fn edit_sequence(max: usize, classes: &[Class], steps: usize, added: &[usize]) {
    let mut text = gen::text(max, classes);
    let mut g = GapBuffer::new(&text);
    for step in 0..steps {
        if sym::pick(2) == 0 {
            let (p, at) = gen::existing(&text);
            let new = if step == 0 && added[0] == 0 {
                gen::text_of(1, classes)
            } else {
                filler(added[sym::pick(added.len())])
            };
            g.insert(&new, &p);
            text = model::splice(&text, at, &new);
            cover(1);
        } else {
            let (r, from, to) = gen::existing_range(&text);
            g.delete(&r);
            text = model::cut(&text, from, to);
            cover(2);
        }
        let got = g.to_string();
        sym::observe_str(&got);
        check(model::same(&got, &text), "content after each of a sequence of edits");
    }
}

/// Recognisable text of a length, in lines of up to 40 bytes.
pub fn filler(n: usize) -> String {
    (0..n).map(|i| if i % 40 == 39 { '\n' } else { (b'A' + (i % 26) as u8) as char }).collect()
}

/// Edits of a longer document, with more text than fits into any gap.
pub fn edit_large(size: usize, added: &[usize], steps: usize) {
    let mut text = filler(size);
    let mut g = GapBuffer::new(&text);
    for _ in 0..steps {
        let n = model::lines(&text).len();
        let line = sym::pick(3) * (n - 1) / 2;
        let width = model::width(&text, line).unwrap();
        let p = Position { line, offset: sym::pick(3) * width / 2 };
        let at = model::offset(&text, &p).unwrap();
        let k = sym::pick(added.len() + 1);
        if k < added.len() {
            // Some arbitrary bytes, and more than fits.
            let mut new = gen::text_of(2, &[ASCII]);
            new.push_str(&filler(added[k]));
            g.insert(&new, &p);
            text = model::splice(&text, at, &new);
        } else {
            let end = Position { line: n - 1 - sym::pick(2) * (n - 1 - line), offset: 0 };
            let r = Range::new(p, end);
            let from = model::offset(&text, &r.start()).unwrap();
            let to = model::offset(&text, &r.end()).unwrap();
            g.delete(&r);
            text = model::cut(&text, from, to);
        }
        let got = g.to_string();
        sym::observe_str(&got);
        check(model::same(&got, &text), "content after each of a sequence of large edits");
    }
}

/// The buffer's own editing calls, at any existing cursor position.
pub fn buffer_edits(max: usize, classes: &[Class], steps: usize) {
    let mut text = gen::text(max, classes);
    let mut b = Buffer::new();
    b.insert(text.clone());
    check(model::same(&b.data(), &text), "inserting into an empty buffer");
    for _ in 0..steps {
        match sym::pick(3) {
            0 => {
                let (p, at) = gen::existing(&text);
                check(b.cursor.move_to(p), "moving to an existing position");
                let new = gen::text_of(1, classes);
                b.insert(new.clone());
                text = model::splice(&text, at, &new);
                cover(1);
            }
            1 => {
                let (p, at) = gen::existing(&text);
                check(b.cursor.move_to(p), "moving to an existing position");
                b.delete();
                // The cluster at the cursor, a line break included.
                let to = model::boundaries(&text).iter().map(|x| x.1).find(|&o| o > at);
                text = model::cut(&text, at, to.unwrap_or(at));
                cover(2);
            }
            _ => {
                let (r, from, to) = gen::existing_range(&text);
                b.delete_range(r);
                text = model::cut(&text, from, to);
                cover(3);
            }
        }
        let got = b.data();
        sym::observe_str(&got);
        check(model::same(&got, &text), "buffer content after each edit");
    }
}

/// Big texts: edits and reads at any place, and to some others.
pub fn big(texts: &[Class], all: bool, kinds: usize) {
    let text = gen::text(0, texts);
    let mut g = gen_gap(&text);
    let (p, at) = gen::place(&text, all);
    let k = sym::pick(kinds);
    if k == 0 {
        let new = gen::text_of(0, texts);
        g.insert(&new, &p);
        let got = g.to_string();
        sym::observe_str(&got);
        check(model::same(&got, &model::splice(&text, at, &new)), "insert splices exactly the text in");
        cover(1);
        return;
    }
    let (q, to) = if kinds == 2 { ends(&text) } else { gen::some(&text) };
    if k == 1 {
        g.delete(&Range::new(p, q));
        let got = g.to_string();
        sym::observe_str(&got);
        check(model::same(&got, &model::cut(&text, at.min(to), at.max(to))), "delete removes exactly the range");
        cover(2);
    } else {
        let got = g.read(&Range::new(p, q));
        check(
            got.map_or(false, |s| model::same(&s, &text[at.min(to)..at.max(to)])),
            "a read returns the text between the positions",
        );
        cover(3);
    }
}

/// Where a text starts or ends.
fn ends(text: &str) -> (Position, usize) {
    let line = model::lines(text).len() - 1;
    match sym::pick(2) {
        0 => (Position { line: 0, offset: 0 }, 0),
        _ => (Position { line, offset: model::width(text, line).unwrap() }, text.len()),
    }
}

/// Big texts: reads of any range with an end at some places.
pub fn big_reads() {
    let text = gen::text(0, BIG);
    let g = gen_gap(&text);
    let places = model::boundaries(&text);
    let (q, to) = places[sym::pick(2) * (places.len() - 1)];
    let p = gen::position();
    let got = g.read(&Range::new(q, p));
    check(g.in_bounds(&p) == got.is_some(), "a position exists where the content has it");
    match model::offset(&text, &p) {
        Some(at) => {
            check(
                got.map_or(false, |s| model::same(&s, &text[at.min(to)..at.max(to)])),
                "a read returns the text between the positions",
            );
            cover(1);
        }
        None => {
            check(got.is_none(), "a read returns something exactly if both ends exist");
            cover(2);
        }
    }
}

/// Positions in and beyond massive texts.
fn around(text: &str) -> Position {
    let n = model::lines(text).len();
    let w = model::width(text, 0).unwrap();
    let far = [0, 1, 65536, 65537, 1 << 32, usize::MAX][sym::pick(6)];
    match sym::pick(4) {
        0 => Position { line: far, offset: 0 },
        1 => Position { line: 0, offset: far },
        2 => Position { line: (n - 1).saturating_add(far), offset: 0 },
        _ => Position { line: 0, offset: w.saturating_add(far) },
    }
}

/// C03: positions in and beyond massive texts.
pub fn massive_reads() {
    let text = gen::text(0, MASSIVE);
    let g = gen_gap(&text);
    let p = around(&text);
    let at = model::offset(&text, &p);
    check(g.in_bounds(&p) == at.is_some(), "a position exists where the content has it");
    let got = g.read(&Range::new(Position { line: 0, offset: 0 }, p));
    check(got.is_some() == at.is_some(), "a read returns something exactly if both ends exist");
    if let (Some(at), Some(got)) = (at, got) {
        check(model::same(&got, &text[..at]), "a read returns the text between the positions");
        cover(1);
    } else {
        cover(2);
    }
}

/// C02: edits at positions beyond massive texts.
pub fn massive_missing() {
    let text = gen::text(0, MASSIVE);
    let mut g = gen_gap(&text);
    let p = around(&text);
    sym::assume(model::offset(&text, &p).is_none());
    g.insert("x", &p);
    check(model::same(&g.to_string(), &text), "inserting at a position that doesn't exist changes nothing");
    g.delete(&Range::new(Position { line: 0, offset: 1 }, p));
    let want = model::delete(&text, &Range::new(Position { line: 0, offset: 1 }, p));
    check(model::same(&g.to_string(), &want), "deleting a range whose ends may not exist");
    cover(1);
}

/// A gap in the middle of the text, or at its end.
fn gen_gap(text: &str) -> GapBuffer {
    let mut g = GapBuffer::new(text);
    if sym::pick(2) == 0 {
        let places = model::boundaries(text);
        let p = places[places.len() / 2].0;
        g.insert("\t\t\t", &p);
        g.delete(&Range::new(p, Position { line: p.line, offset: p.offset + 3 }));
    }
    g
}

/// C02: any insertion at a position that doesn't exist.
pub fn insert_missing(max: usize, classes: &[Class], sizes: &[usize], added: &[usize]) {
    let text = gen::text(max, classes);
    let mut g = gen::gap_buffer(&text, sizes);
    let p = gen::missing(&text);
    let new = filler(added[sym::pick(added.len())]);
    g.insert(&new, &p);
    let got = g.to_string();
    sym::observe_str(&got);
    check(model::same(&got, &text), "inserting at a position that doesn't exist changes nothing");
    check(!g.in_bounds(&p), "it still doesn't exist");
    // Contained: what follows works as if it hadn't happened.
    let (q, at) = gen::existing(&text);
    g.insert("z", &q);
    check(model::same(&g.to_string(), &model::splice(&text, at, "z")), "the next edit is unaffected");
    cover(1);
}

/// C02: any deletion whatsoever, in particular with an end that doesn't exist.
pub fn delete_any(max: usize, classes: &[Class], sizes: &[usize], follow: bool) {
    let text = gen::text(max, classes);
    let mut g = gen::gap_buffer(&text, sizes);
    let a = gen::position();
    let b = gen::position();
    let r = Range::new(a, b);
    g.delete(&r);
    let want = model::delete(&text, &r);
    let got = g.to_string();
    sym::observe_str(&got);
    check(model::same(&got, &want), "deleting a range whose ends may not exist");
    if model::offset(&text, &r.start()).is_none() {
        cover(1);
    } else if model::offset(&text, &r.end()).is_none() {
        cover(2);
    } else {
        cover(3);
    }
    if follow {
        let (q, at) = gen::existing(&want);
        g.insert("z", &q);
        check(model::same(&g.to_string(), &model::splice(&want, at, "z")), "the next edit is unaffected");
    }
}

/// C02: the buffer's edits and reads with a cursor anywhere at all.
pub fn buffer_anywhere(max: usize, classes: &[Class]) {
    let text = gen::text(max, classes);
    let mut b = Buffer::new();
    b.insert(text.clone());
    let p = gen::position();
    b.cursor.position = p;
    let exists = model::offset(&text, &p);
    match sym::pick(4) {
        0 => {
            b.insert("xy");
            check(model::same(&b.data(), &model::insert(&text, &p, "xy")), "insert with a cursor anywhere");
            cover(1);
        }
        1 => {
            b.delete();
            let want = match exists {
                Some(at) => {
                    let to = model::boundaries(&text).iter().map(|x| x.1).find(|&o| o > at);
                    model::cut(&text, at, to.unwrap_or(at))
                }
                None => text.clone(),
            };
            check(model::same(&b.data(), &want), "delete with a cursor anywhere");
            cover(2);
        }
        2 => {
            let r = Range::new(p, gen::position());
            b.delete_range(r.clone());
            check(model::same(&b.data(), &model::delete(&text, &r)), "delete_range of any range");
            cover(3);
        }
        _ => {
            let r = Range::new(p, gen::position());
            check(b.read(&r) == model::read(&text, &r), "read of any range");
            check(model::same(&b.data(), &text), "reading changes nothing");
            cover(4);
        }
    }
    sym::observe_str(&b.data());
}

/// C03: existence of any position, whatever the gap.
pub fn existence(max: usize, classes: &[Class], sizes: &[usize]) {
    let text = gen::text(max, classes);
    let g = gen::gap_buffer(&text, sizes);
    let p = gen::position();
    let got = g.in_bounds(&p);
    sym::observe(got as u64);
    check(got == model::offset(&text, &p).is_some(), "a position exists where the content has it");
    cover(got as u32);
}

/// C03: reads of any range, whatever the gap.
pub fn reads(max: usize, classes: &[Class], sizes: &[usize]) {
    let text = gen::text(max, classes);
    let g = gen::gap_buffer(&text, sizes);
    let r = Range::new(gen::position(), gen::position());
    let got = g.read(&r);
    let want = model::read(&text, &r);
    sym::observe_str(got.as_deref().unwrap_or("none"));
    match (&got, &want) {
        (Some(x), Some(y)) => check(model::same(x, y), "a read returns the text between the positions"),
        (None, None) => (),
        _ => check(false, "a read returns something exactly if both ends exist"),
    }
    cover(want.is_some() as u32);
}

/// C03: the same after a history of edits rather than a prepared gap.
pub fn reads_after_edits(max: usize, classes: &[Class], added: usize) {
    let mut text = gen::text(max, classes);
    let mut g = GapBuffer::new(&text);
    let (p, at) = gen::existing(&text);
    let new = gen::text_of(added, classes);
    g.insert(&new, &p);
    text = model::splice(&text, at, &new);
    let (r, from, to) = gen::existing_range(&text);
    g.delete(&r);
    text = model::cut(&text, from, to);
    let p = gen::position();
    check(
        g.in_bounds(&p) == model::offset(&text, &p).is_some(),
        "existence depends on the content alone",
    );
    let q = sym::pick(3);
    let r = Range::new(p, Position { line: p.line.wrapping_add(q), offset: sym::usize() });
    check(g.read(&r) == model::read(&text, &r), "reads depend on the content alone");
    let fresh = GapBuffer::new(&text);
    check(fresh.in_bounds(&p) == g.in_bounds(&p), "a fresh buffer agrees");
    sym::observe_str(&text);
    cover(1);
}
