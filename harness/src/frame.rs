//! C25 to C27: what operations leave alone, names, and the errors reported.

use crate::gen::{self, *};
use crate::history::{self, Session, Watch};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::{GapBuffer, Position, Range};
use scribe::{Buffer, Error, ErrorKind, Workspace};
use std::cell::Cell;
use std::fs;
use std::io;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use syntect::parsing::SyntaxSet;

const ORIGIN: Position = Position { line: 0, offset: 0 };

/// A buffer's attributes, none of which an edit is about.
struct Attributes {
    id: Option<usize>,
    path: Option<PathBuf>,
    syntax: Option<String>,
    calls: Rc<Cell<usize>>,
}

impl Attributes {
    fn set(b: &mut Buffer) -> Attributes {
        let syntaxes = SyntaxSet::load_defaults_newlines();
        let k = sym::pick(2);
        b.id = [Some(sym::usize()), None][k];
        if k == 1 && b.path.is_some() {
            // Not canonical.
            b.path = Some(PathBuf::from(["link", "./f"][sym::pick(2)]));
        }
        if k == 0 {
            b.syntax_definition = syntaxes.find_syntax_by_extension("rs").cloned();
        }
        let calls = Rc::new(Cell::new(0));
        let counter = calls.clone();
        b.change_callback = Some(Box::new(move |_| counter.set(counter.get() + 1)));
        Attributes {
            id: b.id,
            path: b.path.clone(),
            syntax: b.syntax_definition.as_ref().map(|d| d.name.clone()),
            calls,
        }
    }

    fn verify(&self, b: &Buffer) {
        check(b.id == self.id, "the id is left alone");
        check(b.path == self.path, "the path is left alone");
        check(
            b.syntax_definition.as_ref().map(|d| &d.name) == self.syntax.as_ref(),
            "the syntax definition is left alone",
        );
        check(b.change_callback.is_some(), "the change callback is left alone");
    }

    fn verify_callback(&self, b: &mut Buffer) {
        self.calls.set(0);
        let had = b.data();
        b.cursor.position = ORIGIN;
        b.insert("!");
        check(b.data().len() == had.len() + 1, "an insertion at the origin");
        check(self.calls.get() > 0, "the change callback is left alone");
    }
}

/// The cursor, at an existing position, stays there as long as it exists.
fn cursor_kept(b: &Buffer, p: Position, text: &str) {
    if model::offset(text, &p).is_some() {
        check(*b.cursor == p, "the cursor is left where it is");
        cover(21);
    }
}

/// C25: any edits but replacements, undone and redone, the cursor anywhere.
pub fn edits(max: usize, classes: &[Class], edits: usize, added: usize) {
    let mut s = Session::open(&gen::text(max, classes), Watch::Content);
    let a = Attributes::set(&mut s.b);
    for _ in 0..edits {
        let text = s.now.text.clone();
        let (p, at) = gen::existing(&text);
        s.b.cursor.position = p;
        match sym::pick(3) {
            0 => {
                let new = gen::text_of(1 + if added > 1 { sym::pick(added) } else { 0 }, classes);
                s.edit(model::splice(&text, at, &new), |b| b.insert(new));
                cover(1);
            }
            1 => {
                let to = model::boundaries(&text).iter().map(|x| x.1).find(|&o| o > at);
                s.edit(model::cut(&text, at, to.unwrap_or(at)), |b| b.delete());
                cover(2);
            }
            _ => {
                let (from, _) = gen::existing(&text);
                let r = Range::new(from, gen::position());
                s.edit(model::delete(&text, &r), |b| b.delete_range(r));
                cover(3);
            }
        }
        cursor_kept(&s.b, p, &s.now.text);
        a.verify(&s.b);
    }
    for _ in 0..2 {
        for k in 0..edits {
            let (p, _) = gen::existing(&s.now.text);
            s.b.cursor.position = p;
            if k == 0 {
                s.undo();
            } else {
                s.redo();
            }
            cursor_kept(&s.b, p, &s.now.text);
            a.verify(&s.b);
        }
    }
    a.verify_callback(&mut s.b);
}

/// C25: any sequence of steps. Unless content is replaced, none moves the cursor.
pub fn walk(steps: usize, replaced: bool) {
    let mut s = Session::open("ab\ncd", Watch::Content);
    let a = Attributes::set(&mut s.b);
    for _ in 0..steps {
        let k = sym::pick(if replaced { 9 } else { 7 });
        let places = model::boundaries(&s.now.text);
        let p = places[places.len() / 2].0;
        s.b.cursor.position = p;
        match k {
            0 => {
                let n = s.next;
                let new = ((b'A' + (n % 26) as u8) as char).to_string();
                let at = places[places.len() / 2].1;
                let want = model::splice(&s.now.text, at, &new);
                s.edit(want, |b| b.insert(new));
                cover(1);
            }
            1 => {
                let r = Range::new(ORIGIN, Position { line: 0, offset: 1 });
                let want = model::delete(&s.now.text, &r);
                s.edit(want, |b| b.delete_range(r));
                cover(3);
            }
            2 => s.undo(),
            3 => s.redo(),
            4 => s.start(),
            5 => s.end(),
            6 => {
                s.save();
                cover(4);
            }
            7 => {
                let n = s.next;
                let new = format!("r{}\nb", n);
                s.edit(new.clone(), |b| b.replace(new));
                cover(5);
            }
            _ => {
                let n = s.next;
                s.reload(&format!("r{}\n", n));
                cover(6);
            }
        }
        if !replaced {
            cursor_kept(&s.b, p, &s.now.text);
        }
        a.verify(&s.b);
        let file = s.synced.as_ref().unwrap();
        check(fs::read("f").unwrap() == file.text.as_bytes(), "only saving writes to the file");
    }
    let mut names: Vec<_> = fs::read_dir(".").unwrap().map(|e| e.unwrap().file_name()).collect();
    names.sort();
    check(names == ["broken", "f", "link", "sub", "sublink"], "no file comes or goes");
    a.verify_callback(&mut s.b);
}

/// C25: large insertions and deletions, and large groups, in a file of many lines.
pub fn large(lines: usize, sizes: &[usize]) {
    let c = gen::text_of(1, &[LETTER]);
    let mut text = String::new();
    for i in 0..lines {
        text.push_str(["line e\u{301} and more", "", "x", "\u{1f1e6}\u{1f1e7}\u{4e2d}"][i % 4]);
        text.push('\n');
    }
    text.push_str(&c);
    let mut s = Session::open(&text, Watch::Content);
    let a = Attributes::set(&mut s.b);
    let n = sizes[sym::pick(sizes.len())];
    // A place early, amid or late, for the edit and the cursor.
    let at = |s: &mut Session, k: usize| {
        let places = model::boundaries(&s.now.text);
        let (p, offset) = places[[0, places.len() / 3, places.len() - 1][k % 3]];
        s.b.cursor.position = p;
        (p, offset)
    };
    let place = sym::pick(3);
    let kind = sym::pick(4);
    let (mut p, offset) = at(&mut s, place);
    let text = s.now.text.clone();
    match kind {
        0 | 1 => {
            let new = if kind == 0 { "y".repeat(n) } else { "y\n".repeat(n) };
            s.edit(model::splice(&text, offset, &new), |b| b.insert(new));
            cover(1);
        }
        2 => {
            let r = Range::new(p, Position { line: p.line + n / 10, offset: 0 });
            s.edit(model::delete(&text, &r), |b| b.delete_range(r));
            cover(3);
        }
        _ => {
            s.start();
            for i in 0..n {
                let (q, offset) = at(&mut s, i % 3);
                p = q;
                let text = s.now.text.clone();
                s.edit(model::splice(&text, offset, "z"), |b| b.insert("z"));
            }
            s.end();
            cover(2);
        }
    }
    cursor_kept(&s.b, p, &s.now.text);
    a.verify(&s.b);
    let place = sym::pick(3);
    for k in 0..4 {
        let (p, _) = at(&mut s, place + k % 3);
        if k % 2 == 0 {
            s.undo();
        } else {
            s.redo();
        }
        cursor_kept(&s.b, p, &s.now.text);
        a.verify(&s.b);
    }
    let (p, _) = at(&mut s, 1);
    s.save();
    cursor_kept(&s.b, p, &s.now.text);
    a.verify(&s.b);
}

/// All files but one, and what they hold.
fn others(dir: &str, but: &str) -> Vec<(PathBuf, Option<Vec<u8>>)> {
    let mut out: Vec<_> = fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.file_name().unwrap() != but)
        .map(|p| {
            let content = fs::read(&p).ok();
            (p, content)
        })
        .collect();
    out.sort();
    out
}

/// C25: whatever was and is in the file and the buffer, saving writes to no
/// other file, opening, reloading and failing to save to none at all.
pub fn saving(steps: usize, kinds: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::create_dir("sub").unwrap();
    let had = [String::new(), "a".into(), "a\nb\r\n".into(), "x\u{e9}".repeat(40)][sym::pick(4)].clone();
    let name = ["f", "f.rs", ".f"][sym::pick(3)];
    let path = ["", "./sub/../", "sub/", "sub/../"][sym::pick(4)].to_string() + name;
    fs::write(&path, &had).unwrap();
    // Files of its directory named as some programs name theirs.
    let own = if path.starts_with("sub/f") || path.starts_with("sub/.f") { "sub" } else { "." };
    let around = sym::pick(2);
    if around == 1 {
        for other in ["~", ".bak", ".tmp", ".swp", ".orig", ".new"] {
            fs::write(format!("{}/{}{}", own, name, other), "other").unwrap();
            fs::write(format!("{}/.{}{}", own, name, other), "other").unwrap();
        }
        fs::write(format!("{}/#{}#", own, name), "other").unwrap();
    }
    let all = || (others(".", if own == "." { name } else { "" }), others("sub", if own == "sub" { name } else { "" }));
    let before = all();
    let path = if sym::pick(2) == 0 { PathBuf::from(path) } else { dir.join(path) };
    let mut b = Buffer::from_file(&path).unwrap();
    b.path = Some(path.clone());
    let mut file = had;
    for _ in 0..steps {
        let text = b.data();
        match sym::pick(kinds) {
            0 => {
                check(b.save().is_ok(), "saving to a writable path works");
                file = text;
                cover(1);
            }
            1 => b.delete_range(Range::new(ORIGIN, Position { line: usize::MAX, offset: 0 })),
            2 => b.insert(["y\n".to_string(), "z".repeat(100)][sym::pick(2)].clone()),
            3 => b.undo(),
            4 => {
                check(b.reload().is_ok(), "a readable UTF-8 file can be reloaded");
                cover(2);
            }
            5 => {
                sym::fault(sym::OPEN, 0, 13);
                check(b.save().is_err(), "what cannot be written is an error");
                cover(3);
            }
            _ => {
                fs::remove_file(&path).unwrap();
                check(b.save().is_ok(), "saving to a writable path works");
                file = text;
                cover(4);
            }
        }
        check(fs::read(&path).unwrap() == file.as_bytes(), "only saving writes to the file");
    }
    check(all() == before, "no other file is written, comes or goes");
}

/// All a buffer may be asked, and the answers.
fn ask(b: &Buffer, range: &Range, term: &str) -> (String, Option<String>, Vec<Position>, usize, bool, Option<String>, Option<String>) {
    (
        b.data(),
        b.read(range),
        b.search(term),
        b.line_count(),
        b.modified(),
        b.file_name(),
        b.file_extension(),
    )
}

/// C25: asking changes nothing, in any state of the history.
pub fn asking(steps: usize) {
    let mut s = Session::open("ab\nc", Watch::Content);
    let a = Attributes::set(&mut s.b);
    for _ in 0..steps {
        match sym::pick(6) {
            0 => history::small_edit(&mut s, 1),
            1 => history::small_edit(&mut s, 2),
            2 => s.undo(),
            3 => s.start(),
            4 => s.end(),
            _ => s.save(),
        }
    }
    let (p, _) = gen::existing(&s.now.text);
    check(s.b.cursor.move_to(p), "moving to an existing position");
    let modified = s.b.modified();
    let (from, _) = gen::existing(&s.now.text);
    let range = Range::new(from, gen::position());
    let term = gen::text_of(1, &[LETTER]);
    let first = ask(&s.b, &range, &term);
    check(first.0 == s.now.text && first.4 == modified, "asking changes no answer");
    check(ask(&s.b, &range, &term) == first, "asking changes no answer");
    check(*s.b.cursor == p, "asking leaves the cursor alone");
    check(s.b.modified() == modified, "asking leaves the modified state alone");
    a.verify(&s.b);
    cover(if modified { 1 } else { 2 });
    s.undo();
    s.redo();
    s.redo();
    s.undo();
    s.undo();
    a.verify_callback(&mut s.b);
}

/// C25: reading a gap buffer changes nothing, wherever its gap is.
pub fn reading(max: usize, classes: &[Class], gaps: &[usize]) {
    let text = gen::text(max, classes);
    let g = gen::gap_buffer(&text, gaps);
    let (p, q) = (gen::position(), gen::position());
    let r = Range::new(p, q);
    let answers = |g: &GapBuffer| (g.in_bounds(&p), g.read(&r), g.to_string());
    let first = answers(&g);
    check(first.2 == text, "reading changes nothing");
    check(answers(&g) == first, "reading changes no answer");
    cover(if first.0 { 1 } else { 2 });
}

/// C25: asking a workspace changes nothing.
pub fn asking_workspace(buffers: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::create_dir("sub").unwrap();
    fs::write("there", "there").unwrap();
    std::os::unix::fs::symlink("there", "link").unwrap();
    let mut w = Workspace::new(&dir, None).unwrap();
    let n = sym::between(0, buffers);
    for i in 0..n {
        let mut b = Buffer::new();
        b.insert(format!("{}x\ny", i));
        b.path = match sym::pick(5) {
            0 => None,
            1 => Some(dir.join(format!("{}.rs", i))),
            2 => Some(PathBuf::from("sub/../there")),
            3 => Some(dir.join("link")),
            _ => Some(PathBuf::from(format!("/elsewhere/{}", i))),
        };
        w.add_buffer(b);
    }
    for _ in 0..sym::pick(3) {
        w.previous_buffer();
    }
    fn all(w: &mut Workspace) -> (Option<usize>, Vec<Option<PathBuf>>, Option<PathBuf>, Option<usize>) {
        (
            w.current_buffer_index(),
            w.buffer_paths().iter().map(|p| p.map(|p| p.to_path_buf())).collect(),
            w.current_buffer_path().map(|p| p.to_path_buf()),
            w.current_buffer_tokens().ok().map(|t| t.iter().map_or(0, |i| i.count())),
        )
    }
    fn contents(w: &mut Workspace, n: usize) -> Vec<(Option<usize>, String, Position, Option<PathBuf>)> {
        (0..n)
            .map(|_| {
                let b = w.current_buffer.as_ref().unwrap();
                let out = (b.id, b.data(), *b.cursor, b.path.clone());
                w.next_buffer();
                out
            })
            .collect()
    }
    let before = contents(&mut w, n);
    let path = w.path.clone();
    let first = all(&mut w);
    check(all(&mut w) == first, "asking changes no answer");
    check(contents(&mut w, n) == before, "asking leaves the buffers alone");
    check(w.path == path, "asking leaves the workspace's path alone");
    cover(1);
}

/// C26: the last component, and whether there is one.
fn last(path: &[u8]) -> Option<&[u8]> {
    let mut end = path.len();
    loop {
        // Slashes at the end don't count, nor do components that are a dot.
        while end > 0 && path[end - 1] == b'/' {
            end -= 1;
        }
        let mut start = end;
        while start > 0 && path[start - 1] != b'/' {
            start -= 1;
        }
        let name = &path[start..end];
        if name.is_empty() || name == b".." {
            return None;
        }
        if name == b"." {
            if start == 0 {
                return None;
            }
            end = start;
            continue;
        }
        return Some(name);
    }
}

fn extension(name: &[u8]) -> Option<&[u8]> {
    let mut dot = None;
    for (i, &b) in name.iter().enumerate() {
        if b == b'.' {
            dot = Some(i);
        }
    }
    match dot {
        Some(i) if i > 0 && i + 1 < name.len() => Some(&name[i + 1..]),
        _ => None,
    }
}

/// C26: the names of any path.
pub fn names(max: usize) {
    use std::os::unix::ffi::OsStringExt;
    let mut b = Buffer::new();
    check(b.file_name().is_none() && b.file_extension().is_none(), "without a path, there is no name");
    let mut path = match sym::pick(7) {
        0 => b"".to_vec(),
        1 => b"/d.x/".to_vec(),
        2 => "sub/né.".as_bytes().to_vec(),
        3 => b"name".to_vec(),
        4 => b"d/averyveryverylongname.withalongextension".to_vec(),
        5 => b"a.b.c.D.e.f/G.h.i.j.k".to_vec(),
        _ => [&[b'n'; 300][..], b".", &[b'E'; 300][..]].concat(),
    };
    for _ in 0..sym::between(0, max) {
        let c = sym::u8();
        sym::assume(c != 0);
        path.push(c);
    }
    let given = PathBuf::from(std::ffi::OsString::from_vec(path.clone()));
    b.path = Some(given.clone());
    let name = last(&path);
    let got = b.file_name();
    match name {
        Some(name) => {
            let utf8 = std::str::from_utf8(name).is_ok();
            match &got {
                Some(got) => {
                    check(utf8, "a name that isn't UTF-8 isn't given");
                    check(model::same_bytes(got.as_bytes(), name), "the file name is the last component");
                    cover(1);
                }
                None => {
                    check(!utf8, "a path that has a name yields it");
                    cover(2);
                }
            }
            if utf8 {
                let got = b.file_extension();
                match extension(name) {
                    Some(want) => {
                        check(
                            got.map_or(false, |e| model::same_bytes(e.as_bytes(), want)),
                            "the extension is what follows the last dot",
                        );
                        cover(4);
                    }
                    None => {
                        check(got.is_none(), "a name without an extension yields none");
                        cover(5);
                    }
                }
            } else {
                b.file_extension();
            }
        }
        None => {
            check(got.is_none(), "a path without a name yields none");
            check(b.file_extension().is_none(), "a path without a name has no extension");
            cover(3);
        }
    }
    check(b.path == Some(given), "the path is left alone");
}

/// Whether the failure is the system's of that kind.
fn io_kind(e: &Error) -> Option<io::ErrorKind> {
    match e.kind() {
        ErrorKind::Io(e) => Some(e.kind()),
        _ => None,
    }
}

/// Something that cannot be read, and how so.
fn unreadable(dir: &Path) -> (PathBuf, io::ErrorKind) {
    let f = dir.join("f");
    match sym::pick(8) {
        0 => (dir.join("missing"), io::ErrorKind::NotFound),
        1 => (dir.join("no/such"), io::ErrorKind::NotFound),
        2 => (f.join("x"), io::ErrorKind::NotADirectory),
        3 => (dir.join("sub"), io::ErrorKind::IsADirectory),
        4 => {
            fs::write(&f, [b'a', 0x80 | sym::u8()]).unwrap();
            (f, io::ErrorKind::InvalidData)
        }
        5 => {
            sym::fault(sym::OPEN, 0, 13);
            (f, io::ErrorKind::PermissionDenied)
        }
        6 => {
            sym::fault(sym::READ, 0, 11);
            (f, io::ErrorKind::WouldBlock)
        }
        _ => {
            sym::fault(sym::READ, 0, 1001);
            sym::fault(sym::READ, 0, 12);
            (f, io::ErrorKind::OutOfMemory)
        }
    }
}

/// Something that cannot be written, and how so.
fn unwritable(dir: &Path) -> (PathBuf, io::ErrorKind) {
    let f = dir.join("f");
    match sym::pick(7) {
        0 => (dir.join("no/such"), io::ErrorKind::NotFound),
        1 => (f.join("x"), io::ErrorKind::NotADirectory),
        2 => (dir.join("sub"), io::ErrorKind::IsADirectory),
        3 => {
            sym::fault(sym::OPEN, 0, 13);
            (f, io::ErrorKind::PermissionDenied)
        }
        4 => {
            sym::fault(sym::WRITE, 0, 28);
            (f, io::ErrorKind::StorageFull)
        }
        5 => {
            sym::fault(sym::WRITE, 0, 1001);
            sym::fault(sym::WRITE, 0, 28);
            (f, io::ErrorKind::StorageFull)
        }
        _ => {
            sym::fault(sym::WRITE, 0, 1000);
            (f, io::ErrorKind::WriteZero)
        }
    }
}

/// C27: file operations fail with the system's error.
pub fn file_errors() {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f", "ab\ncd").unwrap();
    fs::create_dir("sub").unwrap();
    match sym::pick(4) {
        0 => {
            let (path, kind) = unreadable(&dir);
            let e = Buffer::from_file(&path).err();
            check(e.map(|e| e.kind()) == Some(kind), "opening fails with the system's error");
            cover(1);
        }
        1 => {
            let mut b = Buffer::from_file(&dir.join("f")).unwrap();
            let (path, kind) = unreadable(&dir);
            b.path = Some(path);
            let e = b.reload().err();
            check(e.as_ref().and_then(io_kind) == Some(kind), "reloading fails with the system's error");
            b.path = None;
            let e = b.reload().err();
            check(
                e.map_or(false, |e| matches!(e.kind(), ErrorKind::MissingPath)),
                "reloading without a path fails for that reason",
            );
            cover(2);
        }
        2 => {
            let mut b = Buffer::new();
            b.insert(gen::text_of(2, &[LETTER]));
            let (path, kind) = unwritable(&dir);
            b.path = Some(path);
            let e = b.save().err();
            check(e.map(|e| e.kind()) == Some(kind), "saving fails with the system's error");
            cover(3);
        }
        _ => {
            let mut w = Workspace::new(&dir, None).unwrap();
            if sym::pick(2) == 0 {
                w.add_buffer(Buffer::new());
            }
            let (path, kind) = unreadable(&dir);
            let e = w.open_buffer(&path).err();
            check(e.as_ref().and_then(io_kind) == Some(kind), "opening fails with the system's error");
            cover(4);
        }
    }
}

/// C27: a workspace's failures are reported as what they are.
pub fn workspace_errors() {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f", "x").unwrap();
    let (path, kind) = match sym::pick(3) {
        0 => (dir.join("missing"), io::ErrorKind::NotFound),
        1 => (dir.join("f/x"), io::ErrorKind::NotADirectory),
        _ => (PathBuf::new(), io::ErrorKind::NotFound),
    };
    let e = Workspace::new(&path, None).err();
    check(e.as_ref().and_then(io_kind) == Some(kind), "a workspace that cannot be is the system's error");
    let mut w = Workspace::new(&dir, None).unwrap();
    for _ in 0..sym::pick(2) {
        w.add_buffer(Buffer::new());
        w.close_current_buffer();
    }
    let empty = |e: Option<Error>| e.map_or(false, |e| matches!(e.kind(), ErrorKind::EmptyWorkspace));
    check(empty(w.current_buffer_tokens().err()), "without a buffer, the workspace is empty");
    check(empty(w.update_current_syntax().err()), "without a buffer, the workspace is empty");
    cover(1);
    w.add_buffer(Buffer::new());
    w.current_buffer.as_mut().unwrap().syntax_definition = None;
    check(
        w.current_buffer_tokens().err().map_or(false, |e| matches!(e.kind(), ErrorKind::MissingSyntax)),
        "without a definition, the syntax is missing",
    );
    cover(2);
}
