//! C04 to C07 and C10: a buffer's history, against a reference history.

use crate::gen::{self, *};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::{Position, Range};
use scribe::Buffer;
use std::cell::RefCell;
use std::rc::Rc;

/// What a session looks at after each step.
#[derive(Clone, Copy, PartialEq)]
pub enum Watch {
    Content,
    Modified,
    Announced,
    Nothing,
}

/// A state of the content, told apart from others with equal text.
#[derive(Clone)]
pub struct State {
    pub text: String,
    pub id: u32,
}

pub struct Session {
    pub b: Buffer,
    pub now: State,
    pub next: u32,
    pub undo: Vec<State>,
    pub redo: Vec<State>,
    /// None: no group; Some(None): one without modifications.
    pub group: Option<Option<State>>,
    /// The state last in sync with the file, and its text.
    pub synced: Option<State>,
    announced: Rc<RefCell<Vec<Position>>>,
    watch: Watch,
}

impl Session {
    pub fn new(b: Buffer, text: String, watch: Watch) -> Session {
        let announced = Rc::new(RefCell::new(Vec::new()));
        let mut s = Session {
            b,
            now: State { text, id: 0 },
            next: 1,
            undo: Vec::new(),
            redo: Vec::new(),
            group: None,
            synced: None,
            announced: announced.clone(),
            watch,
        };
        if watch == Watch::Announced {
            s.b.change_callback = Some(Box::new(move |p| announced.borrow_mut().push(p)));
        }
        s
    }

    /// A buffer with any content, which has no history.
    pub fn on(text: String, watch: Watch) -> Session {
        let mut b = Buffer::new();
        b.insert(text.clone());
        let mut s = Session::new(b, text.clone(), watch);
        // The insertion is a step of its own.
        s.undo.push(State { text: String::new(), id: u32::MAX });
        s
    }

    /// Whether the modification in progress counts as one.
    pub fn modify(&mut self, text: String) {
        let before = State { text, id: self.next };
        self.next += 1;
        let before = std::mem::replace(&mut self.now, before);
        self.redo.clear();
        match self.group {
            Some(ref mut g) => {
                if g.is_none() {
                    *g = Some(before);
                }
            }
            None => self.undo.push(before),
        }
    }

    fn close(&mut self) {
        if let Some(Some(before)) = self.group.take() {
            self.undo.push(before);
        }
    }

    pub fn run<T>(&mut self, step: impl FnOnce(&mut Buffer) -> T) -> T {
        let before = if self.watch == Watch::Announced { self.b.data() } else { String::new() };
        self.announced.borrow_mut().clear();
        let result = step(&mut self.b);
        if self.watch == Watch::Announced {
            announced(&before, &self.b.data(), &self.announced.borrow());
        }
        result
    }

    /// Runs an edit which makes the content `text`. Those that change nothing
    /// aren't modifications.
    pub fn edit(&mut self, text: String, step: impl FnOnce(&mut Buffer)) {
        let same = model::same(&text, &self.now.text);
        sym::assume(!same);
        self.run(step);
        self.modify(text);
        self.verify("a modification");
    }

    pub fn undo(&mut self) {
        self.run(|b| b.undo());
        self.close();
        if let Some(s) = self.undo.pop() {
            let s = std::mem::replace(&mut self.now, s);
            self.redo.push(s);
            cover(11);
        } else {
            cover(12);
        }
        self.verify("undo");
    }

    pub fn redo(&mut self) {
        self.run(|b| b.redo());
        let open = matches!(self.group, Some(Some(_)));
        if !open {
            if let Some(s) = self.redo.pop() {
                let s = std::mem::replace(&mut self.now, s);
                self.undo.push(s);
                cover(13);
            } else {
                cover(14);
            }
        } else {
            cover(15);
        }
        self.verify("redo");
    }

    pub fn start(&mut self) {
        self.run(|b| b.start_operation_group());
        if self.group.is_none() {
            self.group = Some(None);
        } else {
            cover(16);
        }
        self.verify("starting a group");
    }

    pub fn end(&mut self) {
        self.run(|b| b.end_operation_group());
        if self.group.is_none() {
            cover(17);
        }
        self.close();
        self.verify("ending a group");
    }

    /// Back to the very beginning and forth to the very end.
    pub fn unwind(&mut self) {
        for _ in 0..self.undo.len() + 2 {
            self.undo();
        }
        for _ in 0..self.redo.len() + 1 {
            self.redo();
        }
    }

    pub fn sync(&mut self) {
        self.synced = Some(self.now.clone());
    }

    pub fn verify(&mut self, after: &str) {
        match self.watch {
            Watch::Content => {
                let got = self.b.data();
                sym::observe_str(&got);
                let ok = model::same(&got, &self.now.text);
                match after {
                    "undo" => check(ok, "undo restores the content before the step"),
                    "redo" => check(ok, "redo restores the content after the step, or nothing"),
                    "a modification" => check(ok, "a modification has its effect alone"),
                    _ => check(ok, "starting and ending groups changes no content"),
                }
            }
            Watch::Modified => self.verify_modified(),
            Watch::Announced | Watch::Nothing => (),
        }
    }

    pub fn verify_modified(&mut self) {
        let got = self.b.data();
        let modified = self.b.modified();
        sym::observe(modified as u64);
        match &self.synced {
            None => check(modified, "never loaded or saved, so modified"),
            Some(s) => {
                if !modified {
                    check(model::same(&got, &s.text), "reported unmodified, so the content is that of the file");
                    cover(21);
                }
                // If the content isn't what it ought to be, that isn't this property's.
                if model::same(&got, &self.now.text) {
                    if s.id == self.now.id {
                        check(!modified, "in the synchronised state, so unmodified");
                    } else if modified {
                        cover(22);
                    }
                }
            }
        }
    }
}

/// C10's criterion.
pub fn announced(before: &str, after: &str, announced: &[Position]) {
    if let Some(d) = model::first_difference(before, after) {
        check(!announced.is_empty(), "a change of the content is announced");
        let mut first = announced[0];
        for p in announced {
            if *p < first {
                first = *p;
            }
        }
        let x = model::position_floor(before, d);
        let y = model::position_floor(after, d);
        check(first <= x || first <= y, "a change is announced at or before its place");
        cover(31);
    }
}

/// Any edit whatsoever at existing positions (or deletions beyond).
pub fn any_edit(s: &mut Session, classes: &[Class], added: usize) {
    let text = s.now.text.clone();
    match sym::pick(4) {
        0 => {
            let (p, at) = gen::existing(&text);
            let new = gen::text_of(1 + sym::pick(added), classes);
            let want = model::splice(&text, at, &new);
            s.edit(want, |b| {
                b.cursor.position = p;
                b.insert(new)
            });
            cover(1);
        }
        1 => {
            let (a, _) = gen::existing(&text);
            let r = Range::new(a, gen::position());
            let want = model::delete(&text, &r);
            s.edit(want, |b| b.delete_range(r));
            cover(2);
        }
        2 => {
            let (p, at) = gen::existing(&text);
            let to = model::boundaries(&text).iter().map(|x| x.1).find(|&o| o > at);
            let want = model::cut(&text, at, to.unwrap_or(at));
            s.edit(want, |b| {
                b.cursor.position = p;
                b.delete()
            });
            cover(3);
        }
        _ => {
            let (p, _) = gen::existing(&text);
            let new = gen::text_of(sym::pick(added + 1), classes);
            s.edit(new.clone(), |b| {
                b.cursor.position = p;
                b.replace(new)
            });
            cover(4);
        }
    }
}

/// Distinct single letters, at a few places; deletions and replacements.
pub fn small_edit(s: &mut Session, k: usize) {
    let text = s.now.text.clone();
    let letter = ((b'A' + (s.next % 26) as u8) as char).to_string();
    match k {
        0 => {
            let want = model::splice(&text, 0, &letter);
            s.edit(want, |b| {
                b.cursor.position = Position { line: 0, offset: 0 };
                b.insert(letter)
            });
            cover(1);
        }
        1 => {
            let to = model::boundaries(&text).iter().map(|x| x.1).find(|&o| o > 0);
            let want = model::cut(&text, 0, to.unwrap_or(0));
            s.edit(want, |b| b.delete_range(Range::new(Position { line: 0, offset: 0 }, Position { line: 0, offset: 1 })));
            cover(2);
        }
        2 => {
            let end = model::boundaries(&text).pop().unwrap();
            let mut new = String::from("\n");
            new.push_str(&letter);
            let want = model::splice(&text, end.1, &new);
            s.edit(want, |b| {
                b.cursor.position = end.0;
                b.insert(new)
            });
            cover(3);
        }
        _ => {
            let mut new = letter;
            new.push_str("\nb");
            s.edit(new.clone(), |b| b.replace(new));
            cover(4);
        }
    }
}

/// A long history of groups of so many edits, undone and redone to its ends, or
/// partly and then diverging.
pub fn long(n: usize, sizes: &[usize], watch: Watch) {
    let mut b = Buffer::new();
    let text = gen::text_of(3, &[LETTER]);
    b.insert(text.clone());
    let mut s = Session::new(b, text, watch);
    s.undo.push(State { text: String::new(), id: u32::MAX });
    history_of(&mut s, n, sizes);
}

/// A group of so many edits at the end of the content, but for one elsewhere;
/// undone and redone.
pub fn spread(sizes: &[usize], watch: Watch) {
    let mut text = gen::text_of(3, &[LETTER]);
    text.push_str("\nab");
    let mut s = Session::on(text, watch);
    let n = sizes[sym::pick(sizes.len())];
    let odd = [0, n / 2, n - 1][sym::pick(3)];
    let kind = sym::pick(4);
    s.start();
    for i in 0..n {
        if i == odd {
            small_edit(&mut s, kind);
            continue;
        }
        let text = s.now.text.clone();
        let end = model::boundaries(&text).pop().unwrap();
        if i % 2 == 0 {
            s.edit(model::splice(&text, end.1, "x"), |b| {
                b.cursor.position = end.0;
                b.insert("x")
            });
        } else {
            let start = Position { line: end.0.line, offset: end.0.offset.saturating_sub(1) };
            if start != end.0 {
                s.edit(text[..end.1 - 1].to_string(), |b| b.delete_range(Range::new(start, end.0)));
            }
        }
    }
    s.end();
    s.undo();
    s.redo();
    s.undo();
    s.redo();
}

pub fn history_of(s: &mut Session, n: usize, sizes: &[usize]) {
    let size = sizes[sym::pick(sizes.len())];
    for i in 0..n {
        if size > 1 && i % size == 0 {
            s.start();
        }
        // Of which the content doesn't grow.
        small_edit(s, [0, 1, 0, 0, 1, 1][i % 6]);
        if size > 1 && i % size == size - 1 {
            s.end();
        }
    }
    let steps = s.undo.len() + 1;
    let back = [0, 1, steps / 2, steps - 1][sym::pick(4)];
    if back > 0 {
        for _ in 0..back {
            s.undo();
        }
        if sym::pick(2) == 0 {
            small_edit(s, 2);
        }
    }
    s.unwind();
}

/// Arbitrary edits, undone and redone.
pub fn edits_and_back(max: usize, classes: &[Class], edits: usize, added: usize, watch: Watch) {
    let text = gen::text(max, classes);
    let mut s = Session::on(text, watch);
    for _ in 0..edits {
        any_edit(&mut s, classes, added);
    }
    for _ in 0..edits {
        s.undo();
    }
    for _ in 0..edits {
        s.redo();
    }
    s.undo();
    s.redo();
}

/// Arbitrary edits in a group, undone and redone as one.
pub fn group_and_back(max: usize, classes: &[Class], edits: usize, added: usize, watch: Watch) {
    let text = gen::text(max, classes);
    let mut s = Session::on(text, watch);
    s.start();
    for _ in 0..edits {
        any_edit(&mut s, classes, added);
    }
    if sym::pick(2) == 0 {
        s.end();
    }
    s.undo();
    s.redo();
    s.undo();
}

/// An edit, undone, then another: what was undone is gone.
pub fn edit_after_undo(max: usize, classes: &[Class], watch: Watch) {
    let text = gen::text(max, classes);
    let mut s = Session::on(text, watch);
    any_edit(&mut s, classes, 1);
    s.undo();
    let grouped = sym::pick(3);
    if grouped > 0 {
        s.start();
    }
    any_edit(&mut s, classes, 1);
    s.redo();
    if grouped > 1 {
        s.end();
    }
    s.redo();
    s.undo();
    s.redo();
}

/// Any sequence of small edits, undos and redos; with groups if asked to.
pub fn walk(steps: usize, kinds: usize, groups: bool, watch: Watch) {
    let mut s = Session::on(String::from("a"), watch);
    for _ in 0..steps {
        let n = kinds + 2 + if groups { 2 } else { 0 };
        let k = sym::pick(n);
        if k < kinds {
            small_edit(&mut s, k);
        } else {
            match k - kinds {
                0 => s.undo(),
                1 => s.redo(),
                2 => s.start(),
                _ => s.end(),
            }
        }
    }
    s.unwind();
}

/// An edit of a big text, undone and redone.
pub fn big(texts: &[Class], watch: Watch) {
    let text = gen::text(0, texts);
    let mut s = Session::on(text.clone(), watch);
    let (p, at) = gen::some(&text);
    match sym::pick(4) {
        0 => {
            let new = gen::text_of(0, texts);
            s.edit(model::splice(&text, at, &new), |b| {
                b.cursor.position = p;
                b.insert(new)
            });
            cover(1);
        }
        1 => {
            let (q, to) = gen::some(&text);
            s.edit(model::cut(&text, at.min(to), at.max(to)), |b| b.delete_range(Range::new(p, q)));
            cover(2);
        }
        2 => {
            let to = model::boundaries(&text).iter().map(|x| x.1).find(|&o| o > at);
            s.edit(model::cut(&text, at, to.unwrap_or(at)), |b| {
                b.cursor.position = p;
                b.delete()
            });
            cover(3);
        }
        _ => {
            let new = gen::text_of(0, texts);
            s.edit(new.clone(), |b| {
                b.cursor.position = p;
                b.replace(new)
            });
            cover(4);
        }
    }
    s.undo();
    s.redo();
    s.undo();
}

/// Edits that have no effect, in between: whether they take a step isn't
/// specified, but undoing them has no effect either.
pub fn ineffective(max: usize, classes: &[Class]) {
    let text = gen::text(max, classes);
    let mut b = Buffer::new();
    b.insert(text.clone());
    let missing = gen::missing(&text);
    let mut silent = 1;
    match sym::pick(4) {
        0 => {
            b.cursor.position = missing;
            b.insert("xy");
            cover(1);
        }
        1 => {
            b.cursor.position = missing;
            b.delete();
            cover(2);
        }
        2 => {
            let other = gen::missing(&text);
            sym::assume(!(other < missing));
            b.delete_range(Range::new(missing, other));
            cover(3);
        }
        _ => {
            b.replace(text.clone());
            silent = 0;
            cover(4);
        }
    }
    check(model::same(&b.data(), &text), "no effect");
    b.cursor.position = Position { line: 0, offset: 0 };
    b.insert("z");
    let with = b.data();
    b.undo();
    check(model::same(&b.data(), &text), "undoing what came after");
    b.undo();
    let mut now = b.data();
    if silent == 1 && model::same(&now, &text) && !text.is_empty() {
        b.undo();
        now = b.data();
    }
    check(now.is_empty() || (text.is_empty() && silent == 1), "undoing to the beginning");
    for _ in 0..4 {
        b.redo();
    }
    check(model::same(&b.data(), &with), "redoing everything");
    sym::observe_str(&with);
}

/// So many edits of a file's buffer, in a group or not, that change its content
/// and change it back, each with its effect on the modified state; undone and
/// redone.
pub fn massive(n: usize) {
    let mut s = Session::open("ab", Watch::Content);
    let first = Position { line: 0, offset: 0 };
    let group = sym::pick(2) == 0;
    if group {
        s.b.start_operation_group();
    }
    let saved = sym::pick(3) * n / 2;
    let mut synced = 0;
    for i in 0..n {
        if i == saved && i > 0 {
            check(s.b.save().is_ok(), "saving works");
            synced = i;
        }
        if i % 2 == 0 {
            s.b.cursor.position = first;
            s.b.insert("x");
        } else {
            s.b.delete_range(Range::new(first, Position { line: 0, offset: 1 }));
        }
        check(s.b.modified() == (i + 1 != synced), "unmodified in the synchronised state alone, as each edit changes it");
    }
    if saved == n {
        check(s.b.save().is_ok(), "saving works");
    }
    s.b.end_operation_group();
    let content = |b: &Buffer, edits: usize| {
        let want = if edits % 2 == 0 { "ab" } else { "xab" };
        check(b.data() == want, "undo and redo restore the content before or after the step");
    };
    let steps = if group { 1 } else { n };
    for i in 1..steps + 1 {
        s.b.undo();
        let done = if group { 0 } else { n - i };
        check(s.b.modified() == (done != saved), "unmodified in the synchronised state alone, back and forth");
        if i % 1000 == 0 || i < 3 || i + 3 > steps {
            content(&s.b, done);
        }
    }
    s.b.undo();
    content(&s.b, 0);
    for i in 1..steps + 1 {
        s.b.redo();
        let done = if group { n } else { i };
        check(s.b.modified() == (done != saved), "unmodified in the synchronised state alone, back and forth");
    }
    s.b.redo();
    content(&s.b, n);
    cover(1);
}
