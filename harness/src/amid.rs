//! What is asked amid a session: whatever was edited, undone, redone, replaced,
//! saved or reloaded before, and asked before that, the answers are those for
//! the content as it is.

use crate::cursor::{self, Columns};
use crate::gen::{self, *};
use crate::history::{Session, Watch};
use crate::model;
use crate::sym::{self, check, cover};
use crate::{text, tokens};
use scribe::buffer::{Position, Range};
use scribe::Workspace;
use syntect::parsing::SyntaxSet;

#[derive(Clone, Copy, PartialEq)]
pub enum Ask {
    Reads,
    Moves,
    Search,
    Lines,
    Tokens,
}

/// One of the kinds of steps, the last two of which replace everything.
fn step(s: &mut Session, k: usize) {
    let places = model::boundaries(&s.now.text);
    let letter = (b'A' + (s.next % 26) as u8) as char;
    match k {
        0 => {
            let (p, at) = places[places.len() / 2];
            s.b.cursor.position = p;
            let new = [format!("\r\n{}b", letter), letter.to_string()][s.next as usize % 2].clone();
            let want = model::splice(&s.now.text, at, &new);
            s.edit(want, |b| b.insert(new));
            cover(1);
        }
        1 => {
            let r = Range::new(Position { line: 0, offset: 1 }, Position { line: 1, offset: 0 });
            let want = model::delete(&s.now.text, &r);
            s.edit(want, |b| b.delete_range(r));
            cover(2);
        }
        2 => s.undo(),
        3 => s.redo(),
        4 => s.start(),
        5 => s.end(),
        6 => s.save(),
        7 => {
            let new = format!("b{}\nba\nb", letter);
            s.edit(new.clone(), |b| b.replace(new));
            cover(3);
        }
        _ => {
            let new = format!("{}b\r\n", letter);
            s.reload(&new);
            cover(4);
        }
    }
}

fn reads(s: &Session) {
    let text = &s.now.text;
    let places = model::boundaries(text);
    for (k, &(p, at)) in places.iter().enumerate() {
        let (q, to) = places[(k + 3).min(places.len() - 1)];
        let got = s.b.read(&Range::new(p, q));
        check(got.map_or(false, |g| model::same(&g, &text[at..to])), "a read returns the text between the positions");
    }
    let n = model::lines(text).len();
    for line in 0..n + 1 {
        let beyond = Position { line, offset: model::width(text, line).map_or(0, |w| w + 1) };
        check(s.b.read(&Range::new(beyond, beyond)).is_none(), "a read to a position that doesn't exist returns nothing");
    }
}

fn moves(s: &mut Session) {
    let text = &s.now.text;
    let was = *s.b.cursor;
    let n = model::lines(text).len();
    for line in 0..n + 1 {
        let width = model::width(text, line);
        for offset in 0..width.unwrap_or(0) + 2 {
            let to = Position { line, offset };
            let exists = width.map_or(false, |w| offset <= w);
            check(s.b.cursor.move_to(to) == exists, "an explicit move succeeds exactly when the target exists");
        }
    }
    let mut columns = Columns::at(s.b.cursor.offset);
    for k in [3, 4, 8, 2, 1, 6, 7, 5] {
        cursor::one_step(&mut s.b, text, n, &mut columns, false, k);
    }
    s.b.cursor.position = was;
}

fn ask(s: &mut Session, ask: Ask, term: &str, w: &mut Workspace) {
    // If the content isn't what it ought to be, that isn't this property's.
    sym::assume(model::same(&s.b.data(), &s.now.text));
    match ask {
        Ask::Reads => reads(s),
        Ask::Moves => moves(s),
        Ask::Search => text::found(&s.b, &s.now.text, term),
        Ask::Lines => {
            let feeds = s.now.text.bytes().filter(|&b| b == b'\n').count();
            check(s.b.line_count() == feeds + 1, "the line count is the number of lines");
        }
        Ask::Tokens => {
            let b = w.current_buffer.as_mut().unwrap();
            std::mem::swap(b, &mut s.b);
            tokens::of_workspace(w, &s.now.text);
            std::mem::swap(w.current_buffer.as_mut().unwrap(), &mut s.b);
        }
    }
}

/// Asked at first, and after any steps.
pub fn asked(steps: usize, about: Ask) {
    let mut s = Session::open("ab\r\n\nbcb", Watch::Nothing);
    let dir = s.b.path.as_ref().and_then(|p| p.parent()).unwrap().to_path_buf();
    let mut w = Workspace::new(&dir, None).unwrap();
    w.add_buffer(scribe::Buffer::new());
    if about == Ask::Tokens {
        s.b.syntax_definition = SyntaxSet::load_defaults_newlines().find_syntax_by_extension("rs").cloned();
    }
    let term = if about == Ask::Search { gen::text_of(1, &[LETTER]) } else { String::new() };
    ask(&mut s, about, &term, &mut w);
    for _ in 0..steps {
        step(&mut s, sym::pick(9));
        ask(&mut s, about, &term, &mut w);
    }
    cover(5);
}

/// C12: the remembered column survives what leaves the cursor alone.
pub fn columns(steps: usize) {
    let mut s = Session::open("abc\n\nab\r\nabcd", Watch::Nothing);
    let places = model::boundaries(&s.now.text);
    let (p, _) = places[sym::pick(places.len())];
    check(s.b.cursor.move_to(p), "an explicit move succeeds exactly when the target exists");
    let mut columns = Columns::at(p.offset);
    let n = model::lines(&s.now.text).len();
    cursor::one_step(&mut s.b, &s.now.text, n, &mut columns, true, [3, 4, 2, 8][sym::pick(4)]);
    let p = *s.b.cursor;
    for _ in 0..steps {
        let text = s.now.text.clone();
        let at = model::offset(&text, &p).unwrap();
        match sym::pick(8) {
            0 => {
                let want = model::splice(&text, at, "x");
                s.edit(want, |b| b.insert("x"));
                cover(31);
            }
            1 => {
                let to = model::boundaries(&text).iter().map(|x| x.1).find(|&o| o > at);
                s.edit(model::cut(&text, at, to.unwrap_or(at)), |b| b.delete());
                cover(32);
            }
            2 => {
                let r = Range::new(Position { line: 2, offset: 0 }, Position { line: 2, offset: 1 });
                s.edit(model::delete(&text, &r), |b| b.delete_range(r));
                cover(33);
            }
            3 => s.undo(),
            4 => s.redo(),
            5 => s.start(),
            6 => s.end(),
            _ => s.save(),
        }
        // Elsewhere, it's for other properties to say where the cursor is.
        sym::assume(*s.b.cursor == p && model::offset(&s.now.text, &p).is_some());
        sym::assume(model::same(&s.b.data(), &s.now.text));
    }
    let n = model::lines(&s.now.text).len();
    cursor::one_step(&mut s.b, &s.now.text, n, &mut columns, true, 3 + sym::pick(4));
}

/// C01, C02: an edit amid a session, anywhere.
pub fn edited(steps: usize, missing: bool) {
    let mut s = Session::open("ab\r\n\nbcb", Watch::Nothing);
    for _ in 0..steps {
        step(&mut s, sym::pick(9));
    }
    sym::assume(model::same(&s.b.data(), &s.now.text));
    let text = s.now.text.clone();
    let new = ["x", "yz\n", "a much longer text than what there is\r\n"][sym::pick(3)];
    let insert = sym::pick(2) == 0;
    if missing {
        let p = gen::missing(&text);
        s.b.cursor.position = p;
        if insert {
            s.b.insert(new);
        } else {
            s.b.delete();
        }
        check(model::same(&s.b.data(), &text), "an edit at a position that doesn't exist leaves the content unchanged");
        cover(if insert { 5 } else { 6 });
        return;
    }
    let places = model::boundaries(&text);
    let (p, at) = places[sym::pick(places.len())];
    let want = if insert {
        s.b.cursor.position = p;
        s.b.insert(new);
        cover(5);
        model::splice(&text, at, new)
    } else {
        let (q, to) = places[sym::pick(places.len())];
        s.b.delete_range(Range::new(p, q));
        cover(6);
        model::cut(&text, at.min(to), at.max(to))
    };
    let got = s.b.data();
    sym::observe_str(&got);
    check(model::same(&got, &want), "an edit changes the addressed text and nothing else");
}
