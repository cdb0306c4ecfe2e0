//! Arbitrary texts, positions and gap buffers.

use crate::model;
use crate::sym;
use scribe::buffer::{GapBuffer, Position, Range};

/// A class of characters: every char of the range, one UTF-8 length, treated
/// alike by grapheme segmentation unless the range says otherwise.
#[derive(Clone, Copy)]
pub struct Class(pub u32, pub u32);

/// Printable ASCII, blanks, digits, capitals and all.
pub const LETTER: Class = Class(32, 126);
pub const LF: Class = Class(10, 10);
pub const CR: Class = Class(13, 13);
/// All of ASCII, controls and line breaks included.
pub const ASCII: Class = Class(0, 127);
/// ASCII but for the line feed.
pub const ASCII_NO_LF_LOW: Class = Class(11, 127);
pub const SPACE: Class = Class(32, 32);
pub const TAB: Class = Class(9, 9);
pub const VT_FF: Class = Class(11, 12);
/// Combining marks (2 bytes).
pub const MARK: Class = Class(0x300, 0x36f);
/// Accented letters (2 bytes).
pub const LATIN: Class = Class(0xc0, 0xd6);
/// Unicode's other line separators.
pub const NEL: Class = Class(0x85, 0x85);
pub const LSEP: Class = Class(0x2028, 0x2029);
/// Ideographs (3 bytes).
pub const CJK: Class = Class(0x4e00, 0x9fff);
pub const ZWJ: Class = Class(0x200d, 0x200d);
/// Emoji (4 bytes).
pub const EMOJI: Class = Class(0x1f600, 0x1f64f);
/// Regional indicators, which pair up to flags (4 bytes).
pub const FLAG: Class = Class(0x1f1e6, 0x1f1ff);
pub const HANGUL_L: Class = Class(0x1100, 0x115f);
pub const HANGUL_V: Class = Class(0x1160, 0x11a7);
pub const HANGUL_T: Class = Class(0x11a8, 0x11ff);
/// Characters which attach to the next one.
pub const PREPEND: Class = Class(0x600, 0x605);
/// Devanagari vowel sign, attaching to the previous one.
pub const SPACING: Class = Class(0x93e, 0x940);
pub const SKIN: Class = Class(0x1f3fb, 0x1f3ff);
pub const BOM: Class = Class(0xfeff, 0xfeff);
/// Cyrillic letters (2 bytes, of the lead bytes D0 and D1).
pub const CYRILLIC: Class = Class(0x400, 0x45f);
/// The no-break space.
pub const NBSP: Class = Class(0xa0, 0xa0);
/// Private characters of the last plane (4 bytes, of the lead byte F4).
pub const LAST: Class = Class(0x100000, 0x10007f);

/// Selects the emoji variant.
pub const VARIANT: Class = Class(0xfe0f, 0xfe0f);
/// Encloses the previous character.
pub const KEYCAP: Class = Class(0x20e3, 0x20e3);
/// Devanagari consonants, which a virama joins.
pub const DEVANAGARI: Class = Class(0x915, 0x939);
pub const VIRAMA: Class = Class(0x94d, 0x94d);
/// Tags, as in the flags of regions.
pub const TAG: Class = Class(0xe0061, 0xe007a);

/// Plain text with line structure.
pub const LINES: &[Class] = &[LETTER, LF];
/// Line structure with every kind of break, and a mark to build clusters.
pub const BREAKS: &[Class] = &[LETTER, LF, CR, MARK];
/// The combinations cluster boundaries depend on.
pub const CLUSTERS: &[Class] = &[LETTER, LF, CR, MARK, ZWJ, EMOJI, FLAG];
/// One class per UTF-8 length, and line breaks.
pub const WIDTHS: &[Class] = &[LETTER, LF, LATIN, CJK, EMOJI];
/// Everything above.
pub const EVERYTHING: &[Class] = &[
    ASCII, MARK, LATIN, NEL, LSEP, CJK, ZWJ, EMOJI, FLAG, HANGUL_L, HANGUL_V, HANGUL_T, PREPEND,
    SPACING, SKIN, BOM, CYRILLIC, NBSP, LAST,
];

/// Instead of texts of so many chars of any classes: texts of the given shapes.
pub const SHAPES: &[Class] = &[];

/// Longer texts, each char arbitrary within its class.
const TEXTS: &[&[Class]] = &[
    // Lines of several lengths, an empty one included.
    &[LETTER, LETTER, LF, LETTER, LETTER, LETTER, LF, LF, LETTER, LETTER],
    // Indented lines ended by CR LF.
    &[TAB, LETTER, SPACE, LETTER, CR, LF, CR, LF, LETTER, LETTER, LETTER, CR, LF],
    // Clusters of several chars.
    &[LETTER, MARK, FLAG, FLAG, FLAG, LF, EMOJI, SKIN, EMOJI, ZWJ, EMOJI, LETTER],
    // What else breaks lines, elsewhere.
    &[BOM, LETTER, LSEP, LETTER, NEL, LETTER, VT_FF, LETTER, LF, LSEP, LETTER],
    // Other scripts.
    &[CJK, LF, HANGUL_L, HANGUL_V, HANGUL_T, LETTER, SPACING, PREPEND, LETTER, LF, CJK, LATIN],
    // CRs of their own.
    &[LETTER, CR, LETTER, CR, CR, LF, LETTER, LF, CR, BOM],
    // Empty lines only.
    &[LF, LF, LF],
    // Clusters of many chars.
    &[
        LETTER, MARK, MARK, MARK, MARK, MARK, MARK, MARK, MARK, LF, EMOJI, ZWJ, EMOJI, ZWJ, EMOJI, ZWJ, EMOJI, LETTER,
    ],
    // Clusters of chars attached in other ways.
    &[
        LETTER, VARIANT, KEYCAP, LETTER, DEVANAGARI, VIRAMA, DEVANAGARI, SPACING, LF, EMOJI, TAG, TAG, VIRAMA,
        DEVANAGARI,
    ],
    // Lines of more letters.
    &[
        LETTER, LETTER, LETTER, LETTER, LETTER, LETTER, LETTER, LETTER, LETTER, LETTER, LETTER, LETTER, LF, LETTER, LF,
        LETTER, LETTER, LETTER, LETTER, LETTER, LETTER,
    ],
];

/// What is inserted into, or looked for in, such texts.
const PIECES: &[&[Class]] = &[
    &[LETTER],
    &[LF],
    &[MARK],
    &[CR, LF],
    &[LATIN, LF, EMOJI],
    &[BOM],
    &[LETTER, LETTER, SPACE, LETTER, LETTER, LETTER],
];

/// Instead: texts wider or longer than 256, of any two letters at least.
pub const BIG: &[Class] = &[Class(1, 0)];

/// Instead: texts wider or longer than 65536.
pub const MASSIVE: &[Class] = &[Class(2, 0)];

fn is_big(classes: &[Class]) -> bool {
    classes.len() == 1 && classes[0].0 > classes[0].1
}

fn is_massive(classes: &[Class]) -> bool {
    is_big(classes) && classes[0].0 == 2
}

fn massive() -> String {
    let mut out = Vec::new();
    push_class(&mut out, LETTER);
    match sym::pick(3) {
        0 => {
            // A wide line, of clusters of several sizes in its second half.
            for i in 0..65600 {
                out.extend(
                    match i % 1024 {
                        100 if i > 33000 => "\u{e9}",
                        500 if i > 33000 => "d\u{301}",
                        900 if i > 33000 => "\u{65e5}",
                        _ => "b",
                    }
                    .bytes(),
                );
            }
            out.extend(b"c\nc");
        }
        1 => {
            // Many lines, most of them empty.
            for i in 0..65600 {
                out.extend(
                    match i % 1024 {
                        100 => "\r\n",
                        500 => "\u{e9}\n",
                        _ => "\n",
                    }
                    .bytes(),
                );
            }
        }
        _ => {
            // Lines wide and narrow.
            out.extend([b'b'; 65600]);
            out.extend("\r\n\nc\r\n\u{e9}d\u{301}c".bytes());
        }
    }
    push_class(&mut out, LETTER);
    finish(out)
}

fn big() -> String {
    let mut out = Vec::new();
    push_class(&mut out, LETTER);
    match sym::pick(3) {
        0 => {
            // A wide line, of clusters of several sizes.
            for i in 0..300 {
                out.extend(["b", "\u{e9}", "c", "d\u{301}", " "][i % 5].bytes());
            }
            out.extend(b"\nabc\n");
        }
        1 => {
            // Many lines.
            for i in 0..300 {
                out.extend(["\n", "b\n", "c\r\n"][i % 3].bytes());
            }
        }
        _ => {
            // Both.
            for i in 0..570 {
                out.extend(if i % 280 == 279 { "\r\n" } else { "f" }.bytes());
            }
            out.extend("\u{e9}d\u{301}c".bytes());
        }
    }
    push_class(&mut out, LETTER);
    finish(out)
}

/// All of a big text's existing positions, or a few.
pub fn place(text: &str, all: bool) -> (Position, usize) {
    if all {
        existing(text)
    } else {
        some(text)
    }
}

/// A few existing positions of a big text.
pub fn some(text: &str) -> (Position, usize) {
    let lines = model::lines(text);
    let n = lines.len() - 1;
    let massive = text.len() > 65536;
    let line = if massive { [0, 65535, 65536, n][sym::pick(4)] } else { [0, 1, 255, 256, n][sym::pick(5)] };
    if line > n {
        sym::assume(false);
    }
    let width = model::width(text, line).unwrap();
    let offset = if massive {
        [0, 65535, 65536, width][sym::pick(4)]
    } else {
        [0, 1, 255, 256, 257, width][sym::pick(6)]
    };
    let position = Position { line, offset };
    match model::offset(text, &position) {
        Some(at) => (position, at),
        None => {
            sym::assume(false);
            (position, 0)
        }
    }
}

fn shaped(classes: &[Class]) -> String {
    let mut out = Vec::new();
    for &class in classes {
        push_class(&mut out, class);
    }
    finish(out)
}

/// Appends an arbitrary char of the class.
pub fn push_class(out: &mut Vec<u8>, class: Class) {
    let Class(lo, hi) = class;
    // One input per char, whatever its class: what is asked about the n-th char
    // is then the same question on every path.
    if hi < 0x80 {
        let b = sym::u8();
        if lo == hi {
            out.push(lo as u8);
        } else {
            sym::assume(b as u32 >= lo && b as u32 <= hi);
            out.push(b);
        }
        return;
    }
    let mut c = sym::u32();
    if lo == hi {
        c = lo;
    } else {
        sym::assume(c >= lo && c <= hi);
    }
    if hi < 0x800 {
        out.push(0xc0 | (c >> 6) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    } else if hi < 0x10000 {
        out.push(0xe0 | (c >> 12) as u8);
        out.push(0x80 | (c >> 6 & 0x3f) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    } else {
        out.push(0xf0 | (c >> 18) as u8);
        out.push(0x80 | (c >> 12 & 0x3f) as u8);
        out.push(0x80 | (c >> 6 & 0x3f) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    }
}

fn finish(bytes: Vec<u8>) -> String {
    // Valid by construction; validating would branch on every symbolic byte.
    unsafe { String::from_utf8_unchecked(bytes) }
}

/// Every text of exactly `n` chars of the classes.
pub fn text_of(n: usize, classes: &[Class]) -> String {
    if classes.is_empty() {
        return shaped(PIECES[sym::pick(PIECES.len())]);
    }
    if is_massive(classes) {
        return ["x".to_string(), "y\n".repeat(33000)][sym::pick(2)].clone();
    }
    if is_big(classes) {
        return [String::from("x"), "y\n\u{e9}z".repeat(130)][sym::pick(2)].clone();
    }
    let mut out = Vec::new();
    for _ in 0..n {
        push_class(&mut out, classes[sym::pick(classes.len())]);
    }
    finish(out)
}

/// Every text of up to `max` chars of the classes.
pub fn text(max: usize, classes: &[Class]) -> String {
    if classes.is_empty() {
        return shaped(TEXTS[sym::pick(TEXTS.len())]);
    }
    if is_massive(classes) {
        return massive();
    }
    if is_big(classes) {
        return big();
    }
    text_of(sym::between(0, max), classes)
}

/// Every text of `min` to `max` chars of the classes.
pub fn text_between(min: usize, max: usize, classes: &[Class]) -> String {
    text_of(sym::between(min, max), classes)
}

/// Every ASCII text of exactly `n` bytes.
pub fn ascii(n: usize) -> String {
    text_of(n, &[ASCII])
}

/// Any position at all.
pub fn position() -> Position {
    Position { line: sym::usize(), offset: sym::usize() }
}

/// Any existing position of the text, and its byte offset.
pub fn existing(text: &str) -> (Position, usize) {
    let p = position();
    match model::offset(text, &p) {
        Some(o) => (p, o),
        None => {
            sym::assume(false);
            (p, 0)
        }
    }
}

/// Any position that doesn't exist in the text.
pub fn missing(text: &str) -> Position {
    let p = position();
    if model::offset(text, &p).is_some() {
        sym::assume(false);
    }
    p
}

/// Any range of existing positions, with its byte offsets.
pub fn existing_range(text: &str) -> (Range, usize, usize) {
    let (a, i) = existing(text);
    let (b, j) = existing(text);
    (Range::new(a, b), i.min(j), i.max(j))
}

/// A gap buffer holding the text, with its gap at one of the places and of one
/// of the sizes edits leave behind.
pub fn gap_buffer(text: &str, sizes: &[usize]) -> GapBuffer {
    let mut g = GapBuffer::new(text);
    let size = sizes[sym::pick(sizes.len())];
    if size > 0 {
        let places = model::boundaries(text);
        let (p, _) = places[sym::pick(places.len())];
        // A tab never joins a grapheme cluster.
        g.insert(&"\t".repeat(size), &p);
        g.delete(&Range::new(p, Position { line: p.line, offset: p.offset + size }));
    }
    g
}
