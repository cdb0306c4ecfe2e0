//! C07, C08, C09: buffers and their files.

use crate::gen::{self, *};
use crate::history::{self, Session, Watch};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::Position;
use scribe::Buffer;
use std::fs;
use std::path::{Path, PathBuf};
use syntect::parsing::SyntaxSet;

const ORIGIN: Position = Position { line: 0, offset: 0 };

/// Arbitrary bytes, UTF-8 or not.
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| sym::u8()).collect()
}

/// A directory with a file "f", another "g", a directory "sub", and links.
fn directory(content: &[u8]) -> PathBuf {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f", content).unwrap();
    fs::create_dir("sub").unwrap();
    std::os::unix::fs::symlink("f", "link").unwrap();
    std::os::unix::fs::symlink("sub", "sublink").unwrap();
    std::os::unix::fs::symlink("nowhere", "broken").unwrap();
    dir
}

/// A path leading to the directory's "f".
fn spelling(dir: &Path) -> PathBuf {
    match sym::pick(7) {
        0 => PathBuf::from("f"),
        1 => dir.join("f"),
        2 => PathBuf::from("./f"),
        3 => PathBuf::from("sub/../f"),
        4 => PathBuf::from("link"),
        5 => PathBuf::from("sublink/../f"),
        _ => dir.join("sub/.././/f"),
    }
}

/// C08: opening a file of any bytes, by any spelling.
pub fn open(max: usize) {
    let content = bytes(sym::between(0, max));
    let dir = directory(&content);
    let path = spelling(&dir);
    let text = std::str::from_utf8(&content);
    match Buffer::from_file(&path) {
        Ok(b) => {
            check(text.is_ok(), "a file that isn't UTF-8 cannot be opened");
            check(model::same(&b.data(), text.unwrap()), "opening yields the file's content");
            check(b.path.as_deref() == Some(&*dir.join("f")), "opening yields the canonical path");
            check(*b.cursor == ORIGIN, "opening puts the cursor at the origin");
            check(!b.modified(), "just opened, so unmodified");
            sym::observe_str(&b.data());
            cover(1);
        }
        Err(_) => {
            check(text.is_err(), "a readable UTF-8 file can be opened");
            cover(2);
        }
    }
    check(fs::read("f").unwrap() == content, "opening leaves the file alone");
}

/// C08: a longer file.
pub fn open_long(size: usize) {
    let mut content = bytes(1);
    sym::assume(content[0] < 128);
    for i in 0..size / 2 {
        content.extend(if i % 61 == 60 { "\r\n" } else { "é" }.bytes());
    }
    let dir = directory(&content);
    let b = Buffer::from_file(&dir.join("f")).unwrap();
    check(b.data().into_bytes() == content, "opening yields the file's content");
    let mut b = b;
    b.path = Some(dir.join("g"));
    b.save().unwrap();
    check(fs::read("g").unwrap() == content, "saving writes the content");
    cover(1);
}

/// C08: what cannot be opened, whatever the reason.
pub fn open_fails() {
    let dir = directory(b"ab");
    let mut path = dir.join("f");
    let mut fails = true;
    match sym::pick(10) {
        0 => path = PathBuf::from("missing"),
        1 => path = PathBuf::from("sub"),
        2 => path = PathBuf::from("no/such"),
        3 => path = PathBuf::from("f/x"),
        4 => path = PathBuf::new(),
        5 => path = PathBuf::from("broken"),
        6 => sym::fault(sym::OPEN, 0, [2, 13, 24][sym::pick(3)]),
        7 => sym::fault(sym::READ, 0, [5, 9][sym::pick(2)]),
        8 => {
            // Failing after some of the content has been read.
            sym::fault(sym::READ, 0, 1001);
            sym::fault(sym::READ, 0, 5);
        }
        _ => {
            // Interrupted, or read in pieces, which isn't a failure.
            sym::fault(sym::READ, sym::pick(2) as u32, [4, 1001][sym::pick(2)]);
            fails = false;
        }
    }
    match Buffer::from_file(&path) {
        Ok(b) => {
            check(!fails, "what cannot be read cannot be opened");
            check(b.data() == "ab", "interrupted reads are continued");
            cover(1);
        }
        Err(_) => {
            check(fails, "interrupted reads are no failure");
            cover(2);
        }
    }
}

/// C08: saving after any edits, over any previous file content.
pub fn save(max: usize, classes: &[Class], edits: usize) {
    let text = gen::text(max, classes);
    let previous = [0, 1, 40][sym::pick(3)];
    let dir = directory(&vec![b'p'; previous]);
    let mut s = Session::on(text, Watch::Content);
    for _ in 0..edits {
        history::any_edit(&mut s, classes, 1);
    }
    s.b.path = Some(match sym::pick(3) {
        0 => dir.join("f"),
        1 => PathBuf::from("sub/new"),
        _ => PathBuf::from("link"),
    });
    let path = s.b.path.clone().unwrap();
    let cursor = *s.b.cursor;
    check(s.b.save().is_ok(), "saving to a writable path works");
    check(fs::read(&path).unwrap() == s.now.text.as_bytes(), "saving writes exactly the content");
    check(!s.b.modified(), "just saved, so unmodified");
    check(s.b.path.as_ref() == Some(&path) && *s.b.cursor == cursor, "saving leaves path and cursor alone");
    check(fs::read_link("link").is_ok(), "saving to a link saves to where it leads");
    s.verify("saving");
    let again = Buffer::from_file(&path).unwrap();
    check(model::same(&again.data(), &s.now.text), "opening yields what was saved");
    // The history is as before.
    for _ in 0..edits {
        s.undo();
    }
    for _ in 0..edits {
        s.redo();
    }
    cover(1);
}

/// C08: saving with the gap anywhere and of any size.
pub fn save_large(size: usize) {
    let dir = directory(b"");
    let mut b = Buffer::new();
    b.path = Some(dir.join("f"));
    let mut text = crate::edits::filler(size);
    b.insert(text.clone());
    let n = model::lines(&text).len();
    for _ in 0..2 {
        let p = Position { line: sym::pick(3) * (n - 1) / 2, offset: sym::pick(2) };
        let new = gen::text_of(2, &[ASCII]);
        sym::assume(b.cursor.move_to(p));
        text = model::insert(&text, &p, &new);
        b.insert(new);
    }
    check(b.save().is_ok(), "saving to a writable path works");
    check(fs::read("f").unwrap() == text.as_bytes(), "saving writes exactly the content");
    cover(1);
}

/// A target saving fails at, or doesn't (true).
fn obstruct(b: &mut Buffer, dir: &Path) -> bool {
    b.path = Some(dir.join("f"));
    match sym::pick(9) {
        0 => b.path = None,
        1 => b.path = Some(PathBuf::new()),
        2 => b.path = Some(dir.join("no/such")),
        3 => b.path = Some(dir.join("sub")),
        4 => sym::fault(sym::OPEN, 0, [13, 24, 28][sym::pick(3)]),
        5 => sym::fault(sym::WRITE, 0, [5, 28, 1000][sym::pick(3)]),
        6 => {
            sym::fault(sym::WRITE, 0, 1001);
            sym::fault(sym::WRITE, 0, 28);
        }
        7 => {
            sym::fault(sym::WRITE, 0, 1001);
            return true;
        }
        _ => {
            sym::fault(sym::WRITE, 0, 4);
            return true;
        }
    }
    false
}

/// C08: a failed save leaves the buffer as it was, in any state.
pub fn save_fails(steps: usize) {
    let dir = directory(b"ab\ncd");
    let mut s = if sym::pick(2) == 0 {
        let b = Buffer::from_file(Path::new("f")).unwrap();
        let mut s = Session::new(b, String::from("ab\ncd"), Watch::Content);
        s.sync();
        s
    } else {
        Session::on(String::from("ab\ncd"), Watch::Content)
    };
    for _ in 0..steps {
        match sym::pick(4) {
            0 => history::small_edit(&mut s, 1),
            1 => history::small_edit(&mut s, 2),
            2 => s.undo(),
            _ => s.start(),
        }
    }
    let modified = s.b.modified();
    let cursor = *s.b.cursor;
    let works = obstruct(&mut s.b, &dir);
    let path = s.b.path.clone();
    // At least two bytes, so that one written is a part.
    sym::assume(s.now.text.len() > 1);
    let saved = s.b.save();
    check(saved.is_ok() == works, "saving reports a failure exactly if there is one");
    check(s.b.path == path && *s.b.cursor == cursor, "saving leaves path and cursor alone");
    s.verify("saving");
    if works {
        check(fs::read("f").unwrap() == s.now.text.as_bytes(), "interrupted writes are continued");
        check(!s.b.modified(), "just saved, so unmodified");
        cover(1);
    } else {
        let modified = modified || path.is_none();
        check(s.b.modified() == modified, "a failed save leaves the modified state alone");
        cover(if modified { 2 } else { 3 });
    }
    s.undo();
    s.redo();
    s.undo();
    s.undo();
}

impl Session {
    /// A buffer opened from the directory's "f".
    pub fn open(text: &str, watch: Watch) -> Session {
        let dir = directory(text.as_bytes());
        let b = Buffer::from_file(&dir.join("f")).unwrap();
        let mut s = Session::new(b, text.to_string(), watch);
        s.sync();
        s
    }

    pub fn save(&mut self) {
        check(self.b.save().is_ok(), "saving works");
        self.sync();
        self.verify("saving");
    }

    /// Reloads a file of this content.
    pub fn reload(&mut self, content: &str) {
        fs::write(self.b.path.as_ref().unwrap(), content).unwrap();
        let result = self.run(|b| b.reload().is_ok());
        check(result, "reloading works");
        if !model::same(content, &self.now.text) {
            self.modify(content.to_string());
        }
        self.sync();
        self.verify("reloading");
    }
}

/// C07: any sequence of edits, history calls, groups, saves and reloads.
pub fn modified(steps: usize, kinds: usize, groups: bool) {
    let mut s = Session::open("ab\n", Watch::Modified);
    s.verify_modified();
    session(&mut s, steps, kinds, groups);
    s.unwind();
}

fn session(s: &mut Session, steps: usize, kinds: usize, groups: bool) {
    for _ in 0..steps {
        let k = sym::pick(kinds + if groups { 6 } else { 4 });
        if k < kinds {
            history::small_edit(s, k);
            continue;
        }
        match k - kinds {
            0 => s.undo(),
            1 => s.redo(),
            2 => {
                s.save();
                cover(41);
            }
            3 => {
                let id = s.next;
                let new = match sym::pick(2) {
                    0 => s.now.text.clone(),
                    _ => format!("r{}\n", id),
                };
                s.reload(&new);
                cover(42);
            }
            4 => s.start(),
            _ => s.end(),
        }
    }
}

/// C07: a buffer that never had a file.
pub fn modified_new(steps: usize, kinds: usize) {
    let mut s = Session::new(Buffer::new(), String::new(), Watch::Modified);
    s.verify_modified();
    for _ in 0..steps {
        let k = sym::pick(kinds + 5);
        if k < kinds {
            history::small_edit(&mut s, k);
            continue;
        }
        match k - kinds {
            0 => s.undo(),
            1 => s.redo(),
            2 => s.start(),
            3 => s.end(),
            _ => {
                // Failing.
                check(s.b.save().is_err(), "without a path, saving fails");
                check(s.b.reload().is_err(), "without a path, reloading fails");
                s.verify("saving");
            }
        }
    }
    if sym::pick(2) == 0 {
        s.b.path = Some(PathBuf::from(sym::scratch()).join("new"));
        s.save();
        cover(43);
    }
    s.unwind();
}

/// C07: arbitrary edits between saving and undoing.
pub fn modified_edits(max: usize, classes: &[Class], edits: usize) {
    let text = gen::text(max, classes);
    let mut s = Session::open(&text, Watch::Modified);
    s.verify_modified();
    for _ in 0..edits {
        if sym::pick(2) == 0 {
            s.save();
        }
        history::any_edit(&mut s, classes, 1);
    }
    s.unwind();
}

/// Saves and reloads amid any history; of a buffer opened, or saved later.
pub fn history(steps: usize, kinds: usize, groups: bool, watch: Watch) {
    let mut s = if sym::pick(2) == 0 {
        Session::open("ab\n", watch)
    } else {
        let dir = directory(b"ab\n");
        let mut s = Session::on(String::from("ab\n"), watch);
        s.b.path = Some(dir.join("f"));
        s
    };
    session(&mut s, steps, kinds, groups);
    s.unwind();
}

/// A long history with a save in between.
pub fn long(n: usize, sizes: &[usize], watch: Watch) {
    let mut s = Session::open("ab\n", watch);
    for i in 0..n / 2 {
        history::small_edit(&mut s, [0, 2, 1][i % 3]);
    }
    for _ in 0..sym::pick(2) {
        s.undo();
    }
    if sym::pick(2) == 0 {
        s.save();
    } else {
        s.reload("r\n");
    }
    history::history_of(&mut s, n - n / 2, sizes);
}

/// C09: reloading any bytes after any edits, with the cursor anywhere.
pub fn reload(max: usize, classes: &[Class], new: usize, edits: usize) {
    let text = gen::text(max, classes);
    let mut s = Session::open(&text, Watch::Content);
    let syntaxes = SyntaxSet::load_defaults_newlines();
    for _ in 0..sym::between(0, edits) {
        history::any_edit(&mut s, classes, 1);
    }
    s.b.id = Some(7);
    s.b.syntax_definition = syntaxes.find_syntax_by_extension("rs").cloned();
    let calls = std::rc::Rc::new(std::cell::Cell::new(0));
    let counter = calls.clone();
    s.b.change_callback = Some(Box::new(move |_| counter.set(counter.get() + 1)));
    let (p, _) = gen::existing(&s.now.text);
    check(s.b.cursor.move_to(p), "moving to an existing position");
    let modified = s.b.modified();
    let path = s.b.path.clone();
    let before = s.now.text.clone();

    let mut content = gen::text_of(sym::between(0, new), classes).into_bytes();
    if sym::pick(3) == 0 {
        // What cannot be UTF-8.
        let b = sym::u8();
        sym::assume(b >= 0x80);
        content.push(b);
        content.push(b'a');
    }
    fs::write("f", &content).unwrap();
    let result = s.b.reload();
    match std::str::from_utf8(&content) {
        Ok(content) => {
            check(result.is_ok(), "a readable UTF-8 file can be reloaded");
            check(model::same(&s.b.data(), content), "reloading takes the file's content");
            check(!s.b.modified(), "just reloaded, so unmodified");
            if !model::same(content, &before) {
                s.modify(content.to_string());
                cover(1);
            } else {
                cover(2);
            }
        }
        Err(_) => {
            check(result.is_err(), "a file that isn't UTF-8 cannot be reloaded");
            check(s.b.modified() == modified, "a failed reload leaves the modified state alone");
            check(*s.b.cursor == p, "a failed reload leaves the cursor alone");
            cover(3);
        }
    }
    check(s.b.path == path, "reloading keeps the path");
    check(s.b.id == Some(7), "reloading keeps the id");
    check(s.b.syntax_definition.as_ref().map(|d| &*d.name) == Some("Rust"), "reloading keeps the syntax definition");
    check(fs::read("f").unwrap() == content, "reloading leaves the file alone");
    s.verify("reloading");
    s.undo();
    s.redo();
    s.undo();
    s.undo();
    calls.set(0);
    let had = s.b.data();
    s.b.cursor.position = ORIGIN;
    s.b.insert("!");
    check(s.b.data().len() == had.len() + 1 && calls.get() > 0, "reloading keeps the change callback");
}

/// C09: reasons for a reload to fail, in any state of the history.
pub fn reload_fails(steps: usize) {
    let mut s = Session::open("ab\ncd", Watch::Content);
    for _ in 0..steps {
        match sym::pick(5) {
            0 => history::small_edit(&mut s, 1),
            1 => history::small_edit(&mut s, 2),
            2 => s.undo(),
            3 => s.start(),
            _ => s.end(),
        }
    }
    let (p, _) = gen::existing(&s.now.text);
    s.b.cursor.move_to(p);
    let modified = s.b.modified();
    let path = s.b.path.clone().unwrap();
    fs::write(&path, "new").unwrap();
    let mut fails = true;
    match sym::pick(8) {
        0 => s.b.path = None,
        1 => fs::remove_file(&path).unwrap(),
        2 => s.b.path = Some(PathBuf::from("sub")),
        3 => fs::write(&path, [b'a', 0x80 | sym::u8()]).unwrap(),
        4 => sym::fault(sym::OPEN, 0, 13),
        5 => sym::fault(sym::READ, 0, 5),
        6 => {
            sym::fault(sym::READ, 0, 1001);
            sym::fault(sym::READ, 0, 5);
        }
        _ => {
            sym::fault(sym::READ, 0, [4, 1001][sym::pick(2)]);
            fails = false;
        }
    }
    let path = s.b.path.clone();
    let result = s.b.reload();
    check(result.is_err() == fails, "reloading reports a failure exactly if there is one");
    check(s.b.path == path, "reloading keeps the path");
    if fails {
        check(*s.b.cursor == p, "a failed reload leaves the cursor alone");
        let modified = modified || path.is_none();
        check(s.b.modified() == modified, "a failed reload leaves the modified state alone");
        cover(1);
    } else {
        s.modify(String::from("new"));
        check(!s.b.modified(), "just reloaded, so unmodified");
        cover(2);
    }
    s.verify("reloading");
    s.redo();
    s.undo();
    s.undo();
    s.redo();
}

/// Names of any bytes, short and long.
pub fn odd_name() -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let mut name = match sym::pick(6) {
        0 => b"".to_vec(),
        1 => b"n".to_vec(),
        2 => b"a b\xff".to_vec(),
        3 => "n\u{e9}\u{301}\u{1f600}".as_bytes().to_vec(),
        4 => vec![b'x'; 250],
        _ => return PathBuf::from(["...", "-", "~", "*", "\\", "a:b", "f~", "f.tmp", ".f.swp", "\n", "%20"][sym::pick(11)]),
    };
    let b = sym::u8();
    sym::assume((b != 0) & (b != b'/') & !(name.is_empty() & (b == b'.')));
    name.push(b);
    PathBuf::from(std::ffi::OsString::from_vec(name))
}

/// C08, C09: opened, saved and reloaded by any name.
pub fn named() {
    let dir = directory(b"ab\n");
    let name = odd_name();
    let path = match sym::pick(2) {
        0 => dir.join("sub").join(&name),
        _ => PathBuf::from("sub").join(&name),
    };
    let mut b = Buffer::new();
    b.insert("one\n");
    b.path = Some(path.clone());
    check(b.save().is_ok(), "saving to a writable path works");
    check(b.path.as_ref() == Some(&path), "saving leaves the path alone");
    check(fs::read(&path).unwrap() == b"one\n", "saving writes exactly the content");
    let mut b = Buffer::from_file(&path).unwrap();
    check(b.data() == "one\n", "opening yields the file's content");
    check(b.path == Some(dir.join("sub").join(&name)), "opening yields the canonical path");
    fs::write(&path, "two").unwrap();
    check(b.reload().is_ok(), "a readable UTF-8 file can be reloaded");
    check(b.data() == "two", "reloading takes the file's content");
    b.insert("x");
    check(b.save().is_ok(), "saving to a writable path works");
    check(fs::read(&path).unwrap() == b"xtwo", "saving writes exactly the content");
    check(fs::read_dir(dir.join("sub")).unwrap().count() == 1, "saving writes no other file");
    check(fs::read("f").unwrap() == b"ab\n", "saving writes no other file");
    cover(1);
}

/// Has a file hold something else, with or without leaving a trace: its
/// modification time can stay the same, and another file can take its place.
fn overwrite(path: &Path, content: &str) {
    let time = fs::metadata(path).unwrap().modified().unwrap();
    match sym::pick(3) {
        0 => fs::write(path, content).unwrap(),
        1 => {
            fs::write(path, content).unwrap();
            fs::File::options().write(true).open(path).unwrap().set_modified(time).unwrap();
        }
        _ => {
            fs::write("other", content).unwrap();
            fs::rename("other", path).unwrap();
        }
    }
}

/// C08, C09: a file that others write as well.
pub fn shared(steps: usize) {
    let mut s = Session::open("ab", Watch::Content);
    let path = s.b.path.clone().unwrap();
    let mut file = String::from("ab");
    for k in 0..steps {
        match sym::pick(5) {
            0 => {
                file = match sym::pick(3) {
                    0 => String::from("cd"),
                    1 => format!("e{}\n", k),
                    _ => s.now.text.clone(),
                };
                overwrite(&path, &file);
                cover(1);
            }
            1 => {
                s.save();
                file = s.now.text.clone();
                cover(2);
            }
            2 => {
                check(s.b.reload().is_ok(), "a readable UTF-8 file can be reloaded");
                check(model::same(&s.b.data(), &file), "reloading takes the file's content");
                if file != s.now.text {
                    s.modify(file.clone());
                }
                s.sync();
                cover(3);
            }
            3 => history::small_edit(&mut s, 0),
            _ => s.undo(),
        }
        s.verify("a modification");
        check(fs::read(&path).unwrap() == file.as_bytes(), "saving writes exactly the content, and nothing else writes");
    }
    let mut names: Vec<_> = fs::read_dir(path.parent().unwrap()).unwrap().map(|e| e.unwrap().file_name()).collect();
    names.sort();
    check(names == ["broken", "f", "link", "sub", "sublink"], "saving writes no other file");
}

/// C07: without a path, a buffer counts as modified.
pub fn pathless(steps: usize) {
    let mut s = Session::open("ab\n", Watch::Modified);
    session(&mut s, steps, 2, true);
    let path = s.b.path.take();
    check(s.b.modified(), "without a path, so modified");
    check(s.b.save().is_err() && s.b.reload().is_err(), "without a path, saving and reloading fail");
    check(s.b.modified(), "without a path, so modified");
    s.b.path = path;
    s.verify_modified();
    s.undo();
    s.save();
    s.unwind();
}
