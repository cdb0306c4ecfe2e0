//! C14, C15, C18, C19: search, lines, positions, ranges and distances.

use crate::gen::{self, *};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::{Distance, GapBuffer, LineRange, Position, Range};
use scribe::util::LineIterator;
use scribe::Buffer;
use unicode_segmentation::UnicodeSegmentation;

/// C14: any term in any content.
pub fn search(max: usize, term: usize, classes: &[Class], gaps: &[usize]) {
    let text = gen::text(max, classes);
    let mut b = Buffer::new();
    b.insert(text.clone());
    let size = gaps[sym::pick(gaps.len())];
    if size > 0 {
        let places = model::boundaries(&text);
        let p = places[sym::pick(places.len())].0;
        b.cursor.move_to(p);
        b.insert("\t".repeat(size));
        b.delete_range(Range::new(p, Position { line: p.line, offset: p.offset + size }));
    }
    let term = gen::text_between(1, term, classes);
    found(&b, &text, &term);
}

pub fn found(b: &Buffer, text: &str, term: &str) {
    let got = b.search(term);
    let mut k = 0;
    let places = model::boundaries(text);
    let last = places[places.len() - 1].0;
    for &(start, end) in model::lines(text).iter() {
        let line = &text[start..end];
        for (i, _) in line.char_indices() {
            let rest = &line[i..];
            if !model::starts_with(rest, term) {
                continue;
            }
            check(k < got.len(), "every occurrence is found");
            if let Ok(at) = places.binary_search_by(|x| x.1.cmp(&(start + i))) {
                let p = places[at].0;
                check(got[k] == p, "an occurrence is given by its position, in order");
                if k > 9 && k + 2 < got.len() {
                    k += 1;
                    continue;
                }
                let rest = b.read(&Range::new(got[k], last));
                check(
                    rest.map_or(false, |r| model::starts_with(&r, term)),
                    "reading onwards from a result starts with the term",
                );
                cover(if p.line > 0 { 2 } else { 1 });
            } else {
                cover(3);
            }
            k += 1;
        }
    }
    sym::observe(got.len() as u64);
    check(k == got.len(), "nothing but occurrences is found");
    if k > 1 {
        cover(4);
    }
}

/// C14: any letters in big texts.
pub fn search_big(texts: &[Class], most: usize) {
    let text = gen::text(0, texts);
    let mut b = Buffer::new();
    b.insert(text.clone());
    let term = gen::text_between(1, most, &[LETTER]);
    // Not all the line over.
    sym::assume(text.len() < 65536 || !matches!(term.as_bytes()[0], b'b' | b'd'));
    found(&b, &text, &term);
}

/// C14: more occurrences than any usual, in lines of `width`.
pub fn search_many(lines: usize, width: usize) {
    let line = format!("{}\n", "ab".repeat(width / 2));
    let text = format!("\u{e9}{}", line.repeat(lines));
    let mut b = Buffer::new();
    b.insert(text.clone());
    let term = ["a", "b", "ba", "aa"][sym::pick(4)];
    found(&b, &text, term);
}

/// C14: long terms, of repeating letters or not, occurring or almost, anywhere in a line.
pub fn search_long(sizes: &[usize]) {
    let n = sizes[sym::pick(sizes.len())];
    let mut line = Vec::new();
    let period = [2, 3, 97][sym::pick(3)];
    for i in 0..n + 60 {
        line.push(b'A' + (i % period) as u8 % 57);
    }
    let from = [0, 1, 31, 60][sym::pick(4)];
    let mut term = line[from..from + n].to_vec();
    let odd = [0, n / 2, n - 1][sym::pick(3)];
    let b = sym::u8();
    sym::assume(b >= 32 && b < 127);
    term[odd] = b;
    let (line, term) = (String::from_utf8(line).unwrap(), String::from_utf8(term).unwrap());
    let text = format!("\u{e9}{}\n{}{}\r\n", line, term, line);
    let mut b = Buffer::new();
    b.insert(text.clone());
    found(&b, &text, &term);
}

/// C14: terms in longer texts, where they overlap, repeat, and start within
/// clusters, behind other line separators, or with them.
pub fn search_shapes(arbitrary: usize) {
    let text = [
        "aa ab\r\na\n\naaa\nab",
        "e\u{301}e e\u{301}\ne\u{301}\u{301}e\n\u{301}e",
        "\u{feff}a\u{2028}a\u{85}a\u{b}a\u{c}a\ra\na\u{2029}a",
        "\u{1f600}\u{1f3fd}a\n\u{1f1e6}\u{1f1e6}\u{1f1e6}a\u{1f600}\u{200d}\u{1f600}",
        "\u{e9}\u{65e5}\u{672c}\u{e9}\r\n\u{65e5}\u{672c}\r",
        "abcabcab\nabcab\ncabcabcabcabc",
        "\t a\t\n\t\t a",
    ][sym::pick(7)];
    let fixed = [
        "aaa", "a\r", "\r", "e\u{301}", "\u{301}e", "\u{65e5}\u{672c}", "\u{1f1e6}\u{1f1e6}", "abcab", "\t a", "\u{2028}a",
        "\u{feff}", "\u{1f600}", "cabcabcabcabc", "\na", "a\n", "A", "abcabcabd", "\u{e9}\u{65e5}\u{672c}\u{e9}",
    ];
    let k = sym::pick(fixed.len() + 1);
    let term = if k < fixed.len() { fixed[k].to_string() } else { gen::text_between(1, arbitrary, &[ASCII, MARK, CJK, EMOJI, FLAG, LSEP]) };
    let mut b = Buffer::new();
    b.insert(text);
    // The gap in front, amid, or behind.
    let places = model::boundaries(text);
    let p = places[sym::pick(3) * (places.len() - 1) / 2].0;
    b.cursor.move_to(p);
    b.insert("#####");
    b.delete_range(Range::new(p, Position { line: p.line, offset: p.offset + 5 }));
    check(model::same(&b.data(), text), "the content is the text");
    found(&b, text, &term);
}

/// C15: iterating over the lines of any text.
pub fn iteration(max: usize, classes: &[Class]) {
    let text = gen::text(max, classes);
    let mut lines = LineIterator::new(&text);
    let mut n = 0;
    let mut at = 0;
    let base = text.as_ptr() as usize;
    loop {
        let (number, line) = match lines.next() {
            Some(x) => x,
            None => break,
        };
        check(number == n, "lines are numbered consecutively from zero");
        check(at + line.len() <= text.len(), "lines don't exceed the text");
        check(model::same(line, &text[at..at + line.len()]), "lines, concatenated, are the text");
        let _ = base;
        at += line.len();
        n += 1;
        let b = line.as_bytes();
        for i in 0..b.len() {
            check(b[i] != b'\n' || i + 1 == b.len(), "a line's only line feed is its last character");
        }
        if b.is_empty() || b[b.len() - 1] != b'\n' {
            check(at == text.len(), "only the last line lacks a line feed");
            check(lines.next().is_none(), "the line without line feed is the last");
            break;
        }
        check(n <= text.len() + 1, "iteration ends");
    }
    check(at == text.len(), "lines, concatenated, are the text");
    let feeds = text.as_bytes().iter().filter(|&&b| b == b'\n').count();
    check(n == feeds + 1, "as many lines as line feeds, and one");
    for _ in 0..3 {
        check(lines.next().is_none(), "iteration stays ended");
    }
    let mut b = Buffer::new();
    b.insert(text.clone());
    check(b.line_count() == n, "the line count agrees");
    sym::observe(n as u64);
    cover(1);
    if text.ends_with('\n') {
        cover(2);
    }
}

/// C15: the line count after edits.
pub fn counts(max: usize, classes: &[Class], edits: usize) {
    let mut text = gen::text(max, classes);
    let mut b = Buffer::new();
    b.insert(text.clone());
    for _ in 0..edits {
        let (p, at) = gen::existing(&text);
        if sym::pick(2) == 0 {
            let new = gen::text_of(1, classes);
            b.cursor.position = p;
            b.insert(new.clone());
            text = model::splice(&text, at, &new);
        } else {
            let (q, to) = gen::existing(&text);
            b.delete_range(Range::new(p, q));
            text = model::cut(&text, at.min(to), at.max(to));
        }
        let data = b.data();
        check(model::same(&data, &text), "the content is the edited one");
        check(b.line_count() == LineIterator::new(&data).count(), "the line count agrees");
        check(b.line_count() == model::lines(&text).len(), "the line count is the number of lines");
    }
    cover(1);
}

/// C18: positions are totally ordered, by line and then by offset.
pub fn order() {
    let (a, b, c) = (gen::position(), gen::position(), gen::position());
    let less = |x: &Position, y: &Position| (x.line < y.line) | ((x.line == y.line) & (x.offset < y.offset));
    let equal = |x: &Position, y: &Position| (x.line == y.line) & (x.offset == y.offset);
    check((a < b) == less(&a, &b), "less: by line, then by offset");
    check((a > b) == less(&b, &a), "greater: by line, then by offset");
    check((a <= b) == !less(&b, &a), "at most: by line, then by offset");
    check((a >= b) == !less(&a, &b), "at least: by line, then by offset");
    check((a == b) == equal(&a, &b), "equal: the same line and offset");
    check((a != b) == !equal(&a, &b), "unequal: another line or offset");
    let o = a.partial_cmp(&b);
    check(o.is_some(), "positions are all comparable");
    check((o == Some(std::cmp::Ordering::Equal)) == equal(&a, &b), "ordered as equal exactly if equal");
    check((o == Some(std::cmp::Ordering::Less)) == less(&a, &b), "ordered as less exactly if less");
    check(b.partial_cmp(&a) == o.map(|o| o.reverse()), "the order is antisymmetric");
    if a <= b && b <= c {
        check(a <= c, "the order is transitive");
        cover(1);
    }
    check(Position::new() <= a, "nothing precedes the origin");
    cover(2);
}

/// C18: ranges.
pub fn ranges() {
    let (a, b, p) = (gen::position(), gen::position(), gen::position());
    let less = |x: &Position, y: &Position| (x.line < y.line) | ((x.line == y.line) & (x.offset < y.offset));
    let r = Range::new(a, b);
    let swapped = less(&b, &a);
    let (start, end) = (r.start(), r.end());
    let (lo, hi) = if swapped { (b, a) } else { (a, b) };
    check((start.line == lo.line) & (start.offset == lo.offset), "a range starts at the smaller end");
    check((end.line == hi.line) & (end.offset == hi.offset), "a range ends at the larger end");
    check(r == Range::new(b, a), "the order of the ends doesn't matter");
    check(r.includes(&p) == (!less(&p, &lo) & less(&p, &hi)), "a range includes what is from its start to before its end");
    cover(if swapped { 1 } else { 2 });
}

/// C18: line ranges.
pub fn line_ranges() {
    let (a, b, line) = (sym::usize(), sym::usize(), sym::usize());
    let p = Position { line, offset: sym::usize() };
    let r = LineRange::new(a, b);
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    check(r.start() == lo, "a line range starts at the smaller end");
    check(r.end() == hi, "a line range ends at the larger end");
    check(r == LineRange::new(b, a), "the order of the ends doesn't matter");
    let inside = (line >= lo) & (line < hi);
    check(r.includes(line) == inside, "a line range includes its lines but the last");
    let range = r.to_range();
    check(range.includes(&p) == inside, "a line range's range includes the positions on its lines");
    check(range.start() == Position { line: lo, offset: 0 }, "a line range's range starts with its first line");
    check(range.end() == Position { line: hi, offset: 0 }, "a line range's range ends before its last line");
    if hi < usize::MAX {
        let range = r.to_inclusive_range();
        let inside = (line >= lo) & (line <= hi);
        check(range.includes(&p) == inside, "with its last line, it includes the positions on that too");
        check(range.start() == Position { line: lo, offset: 0 }, "with its last line, it starts with its first line");
        check(range.end() == Position { line: hi + 1, offset: 0 }, "with its last line, it ends after that");
        cover(1);
    }
    cover(2);
}

/// C19: adding any distance to any position.
pub fn adding() {
    let p = gen::position();
    let d = Distance { lines: sym::usize(), offset: sym::usize() };
    sym::assume(p.line.checked_add(d.lines).is_some());
    let flat = d.lines == 0;
    sym::assume(!flat | p.offset.checked_add(d.offset).is_some());
    let q = p + d;
    check(q.line == p.line + d.lines, "lines are added");
    check(q.offset == if flat { p.offset.wrapping_add(d.offset) } else { d.offset }, "offsets are added on the same line");
    let mut r = p;
    r += d;
    check(r == q, "adding in place gives the same result");
    cover(if flat { 1 } else { 2 });
}

/// C19: distances between places of big texts.
pub fn distance_big(texts: &[Class], all: bool) {
    let text = gen::text(0, texts);
    let (p, at) = gen::place(&text, all);
    let (q, to) = gen::some(&text);
    sym::assume(at <= to);
    let d = Distance::of_str(&text[at..to]);
    check(p + d == q, "the distance added to the start gives the end");
    let mut r = p;
    r += d;
    check(r == q, "adding in place gives the same result");
    cover(if d.lines > 0 { 2 } else { 1 });
}

/// C19: the distance of any text within any surroundings.
pub fn distance(before: usize, max: usize, after: usize, classes: &[Class]) {
    let a = gen::text(before, classes);
    let t = gen::text(max, classes);
    let z = gen::text(after, classes);
    let d = Distance::of_str(&t);
    let feeds = t.as_bytes().iter().filter(|&&b| b == b'\n').count();
    check(d.lines == feeds, "the distance counts line feeds");
    let last = t.as_bytes().iter().rposition(|&b| b == b'\n').map_or(0, |i| i + 1);
    check(d.offset == t[last..].graphemes(true).count(), "the distance counts the clusters after the last line feed");
    sym::observe(d.lines as u64);
    sym::observe(d.offset as u64);
    let mut all = a.clone();
    all.push_str(&t);
    all.push_str(&z);
    // No cluster across either boundary: of the text as a whole, so that
    // neither is within a line break.
    let (i, j) = (a.len(), a.len() + t.len());
    let mut cuts = (false, false);
    for (k, _) in all.grapheme_indices(true) {
        cuts.0 |= k == i;
        cuts.1 |= k == j;
    }
    cuts.0 |= i == all.len();
    cuts.1 |= j == all.len();
    if cuts.0 && cuts.1 {
        let start = model::position(&all, i);
        let end = model::position(&all, j);
        if let (Some(start), Some(end)) = (start, end) {
            check(start + d == end, "the distance added to the start gives the end");
            let g = GapBuffer::new(&all);
            check(g.in_bounds(&(start + d)), "the end exists");
            let got = g.read(&Range::new(start, start + d));
            check(got.map_or(false, |s| model::same(&s, &t)), "reading from the start to the end gives the text");
            let mut q = start;
            q += d;
            check(q == end, "adding in place gives the same result");
            cover(if d.lines > 0 { 2 } else { 1 });
        }
    } else {
        cover(3);
    }
}
