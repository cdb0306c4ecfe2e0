//! C20 to C24: workspaces.

use crate::gen::{self, *};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::Position;
use scribe::{Buffer, Workspace};
use std::fs;
use std::path::{Path, PathBuf};

/// What a buffer in the workspace ought to be.
#[derive(Clone, PartialEq)]
struct Tab {
    text: String,
    path: Option<PathBuf>,
    id: Option<usize>,
    cursor: Position,
}

struct Space {
    w: Workspace,
    tabs: Vec<Tab>,
    current: Option<usize>,
    /// All ids ever given.
    ids: Vec<usize>,
    serial: u32,
}

impl Space {
    fn new(path: &Path) -> Space {
        let w = Workspace::new(path, None).unwrap();
        Space { w, tabs: Vec::new(), current: None, ids: Vec::new(), serial: 0 }
    }

    fn text(&mut self) -> String {
        self.serial += 1;
        format!("{}", (b'A' + (self.serial % 26) as u8) as char).repeat(1 + self.serial as usize % 3)
    }

    fn add(&mut self, path: Option<PathBuf>) {
        let text = self.text();
        let mut b = Buffer::new();
        b.insert(text.clone());
        b.path = path.clone();
        self.w.add_buffer(b);
        self.added(text, path);
    }

    fn added(&mut self, text: String, path: Option<PathBuf>) {
        let at = self.current.map_or(0, |i| i + 1);
        let id = self.w.current_buffer.as_ref().and_then(|b| b.id);
        self.tabs.insert(at, Tab { text, path, id, cursor: Position { line: 0, offset: 0 } });
        self.current = Some(at);
    }

    fn close(&mut self) {
        self.w.close_current_buffer();
        if let Some(i) = self.current {
            self.tabs.remove(i);
            self.current = if self.tabs.is_empty() { None } else { Some(i.saturating_sub(1)) };
        }
    }

    fn next(&mut self) {
        self.w.next_buffer();
        if let Some(i) = self.current {
            self.current = Some((i + 1) % self.tabs.len());
        }
    }

    fn previous(&mut self) {
        self.w.previous_buffer();
        if let Some(i) = self.current {
            self.current = Some((i + self.tabs.len() - 1) % self.tabs.len());
        }
    }

    /// Edits the current buffer.
    fn edit(&mut self) {
        let text = self.text();
        if let Some(i) = self.current {
            let b = match self.w.current_buffer.as_mut() {
                Some(b) => b,
                None => {
                    check(false, "there is a current buffer");
                    return;
                }
            };
            b.cursor.move_to(Position { line: 0, offset: 0 });
            b.insert(text.clone());
            b.cursor.move_to(Position { line: 0, offset: 1 });
            self.tabs[i].text = text + &self.tabs[i].text;
            self.tabs[i].cursor = Position { line: 0, offset: 1 };
        }
    }

    /// The current buffer, and what is known of the others.
    fn verify_current(&mut self) {
        sym::observe(self.w.current_buffer_index().map_or(99, |i| i as u64));
        check(self.w.current_buffer_index() == self.current, "the current index is the current buffer's place");
        check(self.w.buffer_paths().len() == self.tabs.len(), "as many buffers as were added and not closed");
        match (self.current, &self.w.current_buffer) {
            (None, None) => cover(1),
            (Some(i), Some(b)) => {
                let t = &self.tabs[i];
                check(b.data() == t.text, "the current buffer is the one selected, its content unaltered");
                check(b.path == t.path, "the current buffer's path is unaltered");
                check(*b.cursor == t.cursor, "the current buffer's cursor is unaltered");
                cover(if i > 0 { 3 } else { 2 });
            }
            _ => check(false, "there is a current buffer exactly if there are buffers"),
        }
    }

    /// Every buffer, selecting them all in turn.
    fn verify_all(&mut self) {
        let n = self.tabs.len();
        let mut undone = false;
        for k in 0..n {
            self.next();
            self.verify_current();
            if k + 1 == n && n > 1 {
                // Histories are kept as well.
                let i = self.current.unwrap();
                let b = self.w.current_buffer.as_mut().unwrap();
                b.undo();
                check(b.data().len() < self.tabs[i].text.len(), "the current buffer's history is unaltered");
                b.redo();
                check(b.data() == self.tabs[i].text, "the current buffer's history is unaltered");
                undone = true;
            }
        }
        if undone {
            cover(4);
        }
        for _ in 0..n {
            self.previous();
            check(self.w.current_buffer_index() == self.current, "the current index is the current buffer's place");
            let i = self.current.unwrap();
            check(
                self.w.current_buffer.as_ref().map_or(false, |b| b.data() == self.tabs[i].text),
                "the current buffer is the one selected, its content unaltered",
            );
        }
        if n > 2 {
            cover(5);
        }
    }

    /// Buffers are told apart by their contents.
    fn verify_ids(&mut self) {
        for _ in 0..self.tabs.len() {
            self.verify_id();
            self.w.next_buffer();
        }
    }

    fn verify_id(&mut self) {
        if let Some(b) = self.w.current_buffer.as_ref() {
            let data = b.data();
            let mut tabs = self.tabs.iter().filter(|t| t.text == data);
            if let (Some(t), None) = (tabs.next(), tabs.next()) {
                check(b.id == t.id, "a buffer's id stays with it");
                cover(6);
            }
        }
    }

    fn new_id(&mut self) {
        if let Some(i) = self.current {
            match self.tabs[i].id {
                Some(id) => {
                    check(!self.ids.contains(&id), "a new buffer's id is one no buffer has or ever had");
                    self.ids.push(id);
                }
                None => check(false, "every buffer added has an id"),
            }
        }
    }
}

/// C20: any sequence of operations.
pub fn buffers(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    let mut s = Space::new(&dir);
    for _ in 0..steps {
        match sym::pick(5) {
            0 => {
                let path = if s.serial % 2 == 0 { None } else { Some(dir.join(format!("n{}", s.serial))) };
                s.add(path)
            }
            1 => s.close(),
            2 => s.next(),
            3 => s.previous(),
            _ => s.edit(),
        }
        s.verify_current();
    }
    s.verify_all();
}

/// C20: from workspaces of many buffers.
pub fn many(buffers: usize, steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    let mut s = Space::new(&dir);
    for _ in 0..buffers {
        s.add(None);
    }
    for _ in 0..sym::pick(buffers) {
        s.next();
    }
    for _ in 0..steps {
        match sym::pick(4) {
            0 => s.add(None),
            1 => s.close(),
            2 => s.next(),
            _ => s.previous(),
        }
        s.verify_current();
    }
    s.verify_all();
}

/// C20: buffers opened and selected by path among others.
pub fn selected(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    let names = ["f", "g", "h"];
    for n in names {
        fs::write(n, n).unwrap();
    }
    let mut s = Space::new(&dir);
    for _ in 0..steps {
        match sym::pick(6) {
            k @ 0..=2 => open(&mut s, names[k], &dir.join(names[k]), names[k]),
            3 => s.add(None),
            4 => s.close(),
            _ => s.previous(),
        }
        s.verify_current();
    }
    for _ in 0..s.tabs.len() {
        s.next();
        s.verify_current();
    }
    if s.tabs.len() > 2 {
        cover(5);
    }
}

/// C21: ids, through any sequence of operations.
pub fn ids(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f", "file").unwrap();
    let mut s = Space::new(&dir);
    for _ in 0..steps {
        match sym::pick(9) {
            0 => {
                s.add(None);
                s.new_id();
                cover(1);
            }
            8 => {
                // Empty, as many start.
                s.w.add_buffer(Buffer::new());
                s.added(String::new(), None);
                s.new_id();
                cover(7);
            }
            1 => {
                let mut b = Buffer::new();
                // An id from elsewhere.
                b.id = Some(sym::pick(3));
                let text = s.text();
                b.insert(text.clone());
                s.w.add_buffer(b);
                s.added(text, None);
                s.new_id();
                cover(2);
            }
            2 => {
                let path = dir.join("f");
                let open = s.tabs.iter().position(|t| t.path.as_ref() == Some(&path));
                check(s.w.open_buffer(&path).is_ok(), "a file can be opened");
                match open {
                    Some(i) => s.current = Some(i),
                    None => {
                        s.added(String::from("file"), Some(path));
                        s.new_id();
                        cover(3);
                    }
                }
            }
            3 => {
                s.close();
                cover(4);
            }
            4 => s.next(),
            5 => s.previous(),
            6 => s.edit(),
            _ => {
                if let Some(b) = s.w.current_buffer.as_mut() {
                    // With a path, it can be saved and reloaded.
                    let _ = b.save();
                    let _ = b.reload();
                    cover(5);
                }
            }
        }
        s.verify_id();
    }
    s.verify_ids();
}

/// C21: ids, after many buffers have come and gone.
pub fn many_ids(n: usize) {
    let dir = PathBuf::from(sym::scratch());
    let mut s = Space::new(&dir);
    let keep = [1, 2, 7, 1000][sym::pick(4)];
    let select = sym::pick(3);
    for i in 0..n {
        s.add(None);
        s.new_id();
        if i % keep != 0 || (keep == 1 && i > 2) {
            s.close();
        }
        match select {
            0 => s.next(),
            1 => s.previous(),
            _ => (),
        }
    }
    cover(1);
}

/// C21: more buffers than 65536, one after the other.
pub fn massive_ids(n: usize) {
    let dir = PathBuf::from(sym::scratch());
    let mut w = Workspace::new(&dir, None).unwrap();
    w.add_buffer(Buffer::new());
    let mut had = Vec::new();
    had.push(w.current_buffer.as_ref().and_then(|b| b.id));
    for _ in 0..n {
        w.add_buffer(Buffer::new());
        had.push(w.current_buffer.as_ref().and_then(|b| b.id));
        w.close_current_buffer();
    }
    let all = had.len();
    check(had.iter().all(|id| id.is_some()), "a buffer added has an id");
    had.sort();
    had.dedup();
    check(had.len() == all, "a new buffer's id is one no buffer has or ever had");
    cover(1);
}

/// Opens a path which leads to `file`, whose content is `content`.
fn open(s: &mut Space, path: impl AsRef<Path>, file: &Path, content: &str) {
    let ok = s.w.open_buffer(path.as_ref()).is_ok();
    check(ok, "a readable file can be opened");
    let same = |t: &Tab| t.path.as_ref().and_then(|p| p.canonicalize().ok()).as_deref() == Some(file);
    match s.tabs.iter().position(same) {
        Some(i) => {
            s.current = Some(i);
            cover(11);
        }
        None => {
            s.added(content.to_string(), Some(file.to_path_buf()));
            cover(12);
        }
    }
}

/// C22: opening by any spelling, in any sequence.
pub fn opening(before: usize, steps: usize, spellings: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f", "one").unwrap();
    fs::create_dir("sub").unwrap();
    fs::write("sub/f", "two").unwrap();
    fs::write("bad", [0xff]).unwrap();
    std::os::unix::fs::symlink("f", "link").unwrap();
    std::os::unix::fs::symlink("sub", "away").unwrap();
    let mut s = Space::new(&dir.join(["", "sub"][sym::pick(2)]));
    let f = dir.join("f");
    let g = dir.join("sub/f");
    for _ in 0..before {
        s.add(None);
    }
    if before > 0 && sym::pick(2) == 0 {
        open(&mut s, &g, &g, "two");
        s.previous();
    }
    for _ in 0..sym::pick(before) {
        s.next();
    }
    for _ in 0..steps {
        match sym::pick(8) {
            0 => {
                let path = match sym::pick(spellings) {
                    0 => f.clone(),
                    1 => PathBuf::from("f"),
                    2 => PathBuf::from("link"),
                    3 => PathBuf::from("away/../f"),
                    _ => PathBuf::from("././f"),
                };
                open(&mut s, path, &f, "one");
            }
            1 => {
                let path = match sym::pick(spellings.min(3)) {
                    0 => PathBuf::from("sub/f"),
                    1 => PathBuf::from("away/f"),
                    _ => g.clone(),
                };
                open(&mut s, path, &g, "two");
            }
            2 => {
                // What cannot be opened.
                let path = ["missing", "sub", "bad", "f/", "", "no/such", "sub/missing"]
                    [sym::pick(if spellings > 1 { spellings + 2 } else { 1 })];
                let path = match sym::pick(2) {
                    0 if path != "" => dir.join(path),
                    _ => PathBuf::from(path),
                };
                check(s.w.open_buffer(&path).is_err(), "what cannot be opened is an error");
                cover(13);
            }
            3 => {
                sym::fault(sym::OPEN, 0, 13);
                let path = dir.join("link");
                let opened = s.tabs.iter().any(|t| {
                    t.path.as_ref().and_then(|p| p.canonicalize().ok()).as_ref() == Some(&f)
                });
                sym::assume(!opened);
                check(s.w.open_buffer(&path).is_err(), "what cannot be read is an error");
                cover(14);
            }
            4 => s.edit(),
            5 => s.close(),
            6 => s.next(),
            _ => {
                // A buffer with a path assigned, if that isn't one open already.
                let path = [PathBuf::from("sub/../f"), g.clone()][sym::pick(2)].clone();
                let real = path.canonicalize().unwrap();
                let opened = s.tabs.iter().any(|t| {
                    t.path.as_ref().and_then(|p| p.canonicalize().ok()).as_ref() == Some(&real)
                });
                sym::assume(!opened);
                s.add(Some(path));
                cover(15);
            }
        }
        s.verify_current();
    }
    let n = s.tabs.len();
    for _ in 0..n {
        s.next();
        s.verify_current();
    }
    check(fs::read("f").unwrap() == b"one" && fs::read("sub/f").unwrap() == b"two", "opening leaves files alone");
}

/// C23: the paths reported, of any buffers, selected in any way.
pub fn paths(buffers: usize, steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::create_dir("ws").unwrap();
    let root = dir.join("ws");
    let mut s = Space::new(&["ws", "ws/../ws"][sym::pick(2)].as_ref());
    check(s.w.path == root, "the workspace's path is canonical");
    let mut expected: Vec<Option<PathBuf>> = Vec::new();
    for k in 0..buffers + steps {
        let op = if k < buffers { 0 } else { sym::pick(4) };
        match op {
            0 => {
                let (path, want) = match sym::pick(11) {
                    8 => (Some(root.clone()), Some(PathBuf::new())),
                    9 => (Some(root.join(odd())), Some(odd())),
                    10 => (Some(dir.join(odd())), Some(dir.join(odd()))),
                    0 => (None, None),
                    1 => (Some(root.join("f")), Some(PathBuf::from("f"))),
                    2 => (Some(root.join("sub/f")), Some(PathBuf::from("sub/f"))),
                    3 => (Some(dir.join("ws2/f")), Some(dir.join("ws2/f"))),
                    4 => (Some(dir.join("f")), Some(dir.join("f"))),
                    5 => (Some(PathBuf::from("/ws/f")), Some(PathBuf::from("/ws/f"))),
                    6 => (Some(PathBuf::from("ws/f")), Some(PathBuf::from("ws/f"))),
                    _ => (Some(root.join("ws/f")), Some(PathBuf::from("ws/f"))),
                };
                s.add(path);
                expected.insert(s.current.unwrap(), want);
            }
            1 => {
                if let Some(i) = s.current {
                    expected.remove(i);
                }
                s.close();
            }
            2 => s.next(),
            _ => s.previous(),
        }
        verify_paths(&mut s, &expected);
    }
}

/// A name that isn't UTF-8.
fn odd() -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(b"a\xff/ws/b"))
}

fn verify_paths(s: &mut Space, expected: &[Option<PathBuf>]) {
    let current = s.w.current_buffer_path().map(|p| p.to_path_buf());
    match s.current {
        Some(i) => {
            check(
                as_text(&current) == as_text(&expected[i]),
                "the current buffer's path: relative inside the workspace, complete outside",
            );
            cover(if expected[i].is_some() { 1 } else { 2 });
        }
        None => {
            check(current.is_none(), "without a current buffer, there is no path");
            cover(3);
        }
    }
    let index = s.w.current_buffer_index();
    let all: Vec<Option<PathBuf>> = s.w.buffer_paths().iter().map(|p| p.map(|p| p.to_path_buf())).collect();
    check(all.len() == expected.len(), "one path per open buffer");
    for (a, b) in all.iter().zip(expected) {
        check(as_text(a) == as_text(b), "a buffer's path: relative inside the workspace, complete outside, in order");
    }
    match index {
        Some(i) => check(i < all.len() && all[i] == current, "the path at the current index is the current buffer's"),
        None => check(all.is_empty(), "there is a current index if there are buffers"),
    }
    if all.len() > 1 {
        cover(4);
    }
}

fn as_text(p: &Option<PathBuf>) -> Option<Vec<u8>> {
    use std::os::unix::ffi::OsStrExt;
    p.as_ref().map(|p| p.as_os_str().as_bytes().to_vec())
}

/// C23: names which differ from the workspace's in any character.
pub fn neighbours(more: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::create_dir("ws").unwrap();
    let mut s = Space::new(&dir.join("ws"));
    let mut name = b"ws".to_vec();
    for _ in 0..sym::between(0, more) {
        let b = sym::u8();
        sym::assume(b > 0 && b < 128 && b != b'/' && b != b'.');
        name.push(b);
    }
    if sym::pick(3) == 0 {
        name[1] = sym::u8();
        sym::assume(name[1] > b'/' && name[1] < 128);
    }
    let inside = model::same_bytes(&name, b"ws");
    let path = dir.join(std::str::from_utf8(&name).unwrap()).join("f");
    s.add(Some(path.clone()));
    let want = if inside { PathBuf::from("f") } else { path };
    verify_paths(&mut s, &[Some(want)]);
    cover(if inside { 5 } else { 6 });
}

/// The syntax a name calls for.
fn syntax(w: &Workspace, name: Option<&str>) -> String {
    let name = match name {
        Some(n) => n,
        None => return String::from("Plain Text"),
    };
    let b = name.as_bytes();
    let mut dot = None;
    for i in 1..b.len() {
        if b[i] == b'.' {
            dot = Some(i);
        }
    }
    let key = match dot {
        Some(i) if i + 1 < b.len() => &name[i + 1..],
        _ => name,
    };
    for s in w.syntax_set.syntaxes().iter().rev() {
        for e in &s.file_extensions {
            if e.len() == key.len() {
                let mut d = 0;
                for (x, y) in e.bytes().zip(key.bytes()) {
                    // Regardless of case.
                    let lower = |c: u8| c | (((c >= b'A') & (c <= b'Z')) as u8) << 5;
                    d |= lower(x) ^ lower(y);
                }
                if d == 0 {
                    return s.name.clone();
                }
            }
        }
    }
    String::from("Plain Text")
}

/// Names that matter, and arbitrary ones.
fn name(max: usize) -> String {
    let fixed = [
        "n.rs", "n.a", "x.named", ".named", "n.rs.c", "Rakefile", "rakefile.rs",
        "a.rs", "Makefile", "makefile", ".rs", "rs", "a.", "c", "a.b.c", "Makefile.am", "a.Makefile", "x.RS", "usr",
        "Userfile", "n.verylongextension", "a.verylongextensions", "AVeryLongFileName", "averylongfilename.x", "a.txt", ".a.rs", "...", "a b.h", "Plain Text",
    ];
    let k = sym::pick(fixed.len() + 2);
    if k < fixed.len() {
        return fixed[k].to_string();
    }
    let mut out = if k == fixed.len() { b"n.".to_vec() } else { Vec::new() };
    for i in 0..sym::between(1, max) {
        let b = sym::u8();
        sym::assume(b > 32 && b < 127 && b != b'/');
        if k > fixed.len() && i == 0 {
            sym::assume(b != b'.');
        }
        out.push(b);
    }
    String::from_utf8(out).unwrap()
}

fn definition(w: &Workspace) -> Option<String> {
    w.current_buffer.as_ref().and_then(|b| b.syntax_definition.as_ref()).map(|d| d.name.clone())
}

/// C24: buffers added, with and without paths and definitions; renamed ones.
pub fn syntaxes(max: usize, rename: bool) {
    let dir = PathBuf::from(sym::scratch());
    fs::create_dir("defs").unwrap();
    let user = sym::pick(2) == 1;
    let defs = dir.join("defs");
    let mut w = Workspace::new(&dir, if user { Some(&defs) } else { None }).unwrap();
    check(w.update_current_syntax().is_err(), "without a current buffer, there is no syntax to update");
    let mut b = Buffer::new();
    let mut named = None;
    if sym::pick(3) > 0 {
        let n = name(if rename { 1 } else { max });
        b.path = Some(match sym::pick(2) {
            0 => PathBuf::from(&n),
            _ => dir.join("x.rs").join(&n),
        });
        named = Some(n);
    }
    let had = sym::pick(2) == 1;
    if had {
        b.syntax_definition = w.syntax_set.find_syntax_by_extension("h").cloned();
    }
    if !rename && sym::pick(2) == 1 {
        w.add_buffer(Buffer::new());
    }
    w.add_buffer(b);
    let got = definition(&w);
    if had {
        let want = w.syntax_set.find_syntax_by_extension("h").map(|d| d.name.clone());
        check(got == want, "a definition a buffer already has is kept");
        cover(1);
    } else {
        check(got == Some(syntax(&w, named.as_deref())), "a buffer added has the syntax its name calls for");
        cover(if named.is_some() { 2 } else { 3 });
    }
    if rename {
        let n = if sym::pick(3) == 0 { None } else { Some(name(max)) };
        w.current_buffer.as_mut().unwrap().path = n.as_ref().map(|n| dir.join(n));
        check(w.update_current_syntax().is_ok(), "the current buffer's syntax can be updated");
        check(definition(&w) == Some(syntax(&w, n.as_deref())), "an updated syntax is the one the new name calls for");
        cover(4);
    }
    let d = definition(&w);
    if d.as_deref() == Some("Plain Text") {
        cover(5);
    } else {
        cover(6);
    }
    if user && d.as_deref() == Some("User") {
        cover(7);
    }
}

/// C24: files opened, among other buffers.
pub fn opened(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    let names = ["a.rs", "Makefile", "b", "d.h"];
    for n in names {
        fs::write(n, "x").unwrap();
    }
    let mut w = Workspace::new(&dir, None).unwrap();
    for _ in 0..steps {
        let k = sym::pick(names.len() + 3);
        if k < names.len() {
            check(w.open_buffer(Path::new(names[k])).is_ok(), "a readable file can be opened");
            cover(1);
        } else {
            match k - names.len() {
                0 => w.add_buffer(Buffer::new()),
                1 => w.next_buffer(),
                _ => w.close_current_buffer(),
            }
        }
        let n = w.current_buffer.as_ref().and_then(|b| b.file_name());
        if w.current_buffer.is_some() {
            check(definition(&w) == Some(syntax(&w, n.as_deref())), "a buffer opened has the syntax its name calls for");
            cover(2);
        } else {
            check(w.update_current_syntax().is_err(), "without a current buffer, there is no syntax to update");
            cover(3);
        }
    }
}

/// A definition that was assigned stays, whatever else happens.
pub fn kept(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f.rs", gen::text_of(1, &[LETTER])).unwrap();
    let mut w = Workspace::new(&dir, None).unwrap();
    w.add_buffer(Buffer::new());
    w.open_buffer(Path::new("f.rs")).unwrap();
    w.current_buffer.as_mut().unwrap().syntax_definition = w.syntax_set.find_syntax_by_extension("c").cloned();
    for _ in 0..steps {
        match sym::pick(5) {
            0 => w.next_buffer(),
            1 => w.add_buffer(Buffer::new()),
            2 => check(w.open_buffer(Path::new("f.rs")).is_ok(), "an open file can be opened"),
            3 => {
                if let Some(b) = w.current_buffer.as_mut() {
                    let _ = b.reload();
                }
            }
            _ => {
                if let Some(b) = w.current_buffer.as_mut() {
                    b.insert("x");
                    let _ = b.save();
                }
            }
        }
    }
    check(w.open_buffer(Path::new("f.rs")).is_ok(), "an open file can be opened");
    check(definition(&w).as_deref() == Some("C"), "a definition a buffer already has is kept");
    cover(1);
}

/// C20: buffers in any state, each left as it is while others are selected,
/// added, opened or closed.
pub fn states(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f", "file").unwrap();
    let mut w = Workspace::new(&dir, None).unwrap();
    w.add_buffer(Buffer::new());
    w.open_buffer(Path::new("f")).unwrap();
    let calls = std::rc::Rc::new(std::cell::Cell::new(0));
    let counter = calls.clone();
    let state = sym::pick(6);
    let definition = w.syntax_set.find_syntax_by_extension("c").cloned();
    let b = w.current_buffer.as_mut().unwrap();
    b.change_callback = Some(Box::new(move |_| counter.set(counter.get() + 1)));
    let id = b.id;
    b.syntax_definition = definition;
    b.insert("one\ntwo\n");
    match state {
        0 => b.undo(),
        1 => b.start_operation_group(),
        2 => {
            b.start_operation_group();
            b.insert("g");
        }
        3 => b.save().unwrap(),
        4 => {
            b.start_operation_group();
            b.insert("g");
            b.save().unwrap();
        }
        _ => b.path = None,
    }
    let text = b.data();
    // A remembered column the lines in between don't have.
    b.cursor.move_to(Position { line: 0, offset: 3 });
    b.cursor.move_down();
    b.cursor.move_down();
    let cursor = *b.cursor;
    let (path, modified) = (b.path.clone(), b.modified());
    let called = calls.get();
    for _ in 0..steps {
        match sym::pick(6) {
            0 => w.add_buffer(Buffer::new()),
            1 => w.next_buffer(),
            2 => w.previous_buffer(),
            3 => {
                let _ = w.open_buffer(Path::new(["missing", "f"][(path.is_some()) as usize]));
            }
            4 => {
                // But the one that's looked at.
                if w.current_buffer.as_ref().unwrap().id != id {
                    w.close_current_buffer();
                }
            }
            _ => {
                let b = w.current_buffer.as_mut().unwrap();
                if b.id != id {
                    b.insert("x");
                    b.undo();
                    b.start_operation_group();
                }
                w.buffer_paths();
                let _ = w.current_buffer_tokens();
            }
        }
    }
    for _ in 0..w.buffer_paths().len() {
        if w.current_buffer.as_ref().unwrap().id != id {
            w.next_buffer();
        }
    }
    let b = w.current_buffer.as_mut().unwrap();
    check(b.id == id, "no other buffer is lost");
    check(b.data() == text, "a buffer's content is left alone");
    check(*b.cursor == cursor, "a buffer's cursor is left alone");
    check(b.path == path && b.modified() == modified, "a buffer's path and modified state are left alone");
    check(b.syntax_definition.as_ref().map(|d| &*d.name) == Some("C"), "a buffer's definition is left alone");
    check(calls.get() == called, "a buffer isn't modified by selecting others");
    b.cursor.move_up();
    b.cursor.move_up();
    check(*b.cursor == Position { line: 0, offset: 3 }, "a buffer's remembered column is left alone");
    // Its history, and an open group.
    match state {
        0 => {
            b.redo();
            check(b.data() == "one\ntwo\nfile", "a buffer's history is left alone");
        }
        1 | 2 | 4 => {
            b.insert("h");
            b.undo();
            check(b.data() == "one\ntwo\nfile", "a buffer's open group is left alone");
        }
        _ => {
            b.undo();
            check(b.data() == "file", "a buffer's history is left alone");
        }
    }
    check(calls.get() > called, "a buffer's change callback is left alone");
    cover(1 + state as u32);
}

/// C20: very many buffers.
pub fn massive(n: usize) {
    let dir = PathBuf::from(sym::scratch());
    let mut w = Workspace::new(&dir, None).unwrap();
    for _ in 0..n {
        w.add_buffer(Buffer::new());
    }
    let current = |w: &Workspace| w.current_buffer.as_ref().and_then(|b| b.id);
    let last = current(&w);
    check(w.current_buffer_index() == Some(n - 1), "the current index is the current buffer's place");
    w.next_buffer();
    check(w.current_buffer_index() == Some(0), "selecting wraps at the ends");
    let first = current(&w);
    check(first != last, "as many buffers as were added and not closed");
    w.previous_buffer();
    check(w.current_buffer_index() == Some(n - 1) && current(&w) == last, "selecting wraps at the ends");
    w.previous_buffer();
    let before = current(&w);
    w.next_buffer();
    w.close_current_buffer();
    check(current(&w) == before && before != last, "closing selects the buffer before");
    check(w.current_buffer_index() == Some(n - 2), "the current index is the current buffer's place");
    check(w.buffer_paths().len() == n - 1, "as many buffers as were added and not closed");
    w.next_buffer();
    check(current(&w) == first, "selecting wraps at the ends");
    cover(1);
}

/// C23: however the workspace's directory and what is opened are spelled.
pub fn spelled(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::create_dir_all("ws/sub").unwrap();
    fs::create_dir("ws.d").unwrap();
    for f in ["ws/f", "ws/sub/g", "out", "ws.d/f"] {
        fs::write(f, f).unwrap();
    }
    std::os::unix::fs::symlink("ws", "link").unwrap();
    std::os::unix::fs::symlink(".", "ws/loop").unwrap();
    std::os::unix::fs::symlink("../../out", "ws/sub/away").unwrap();
    let k = sym::pick(10);
    let given = ["", "ws", "ws/", "./ws/.", "out/../ws", "ws/../ws", "link", "link/", "ws/loop", "ws/sub/.."][k];
    if k == 4 {
        check(Workspace::new(Path::new(given), None).is_err(), "a path through a file leads nowhere");
        return;
    }
    let mut w = Workspace::new(&if k == 0 { dir.join("ws") } else { PathBuf::from(given) }, None).unwrap();
    check(w.path == dir.join("ws"), "the workspace's path is canonical");
    for _ in 0..steps {
        let (path, want, text) = match sym::pick(9) {
            0 => (PathBuf::from("ws/f"), PathBuf::from("f"), "ws/f"),
            1 => (dir.join("ws/f"), PathBuf::from("f"), "ws/f"),
            2 => (PathBuf::from("link/f"), PathBuf::from("f"), "ws/f"),
            3 => (PathBuf::from("ws/loop/loop/sub/../f"), PathBuf::from("f"), "ws/f"),
            4 => (PathBuf::from("link/sub/g"), PathBuf::from("sub/g"), "ws/sub/g"),
            5 => (dir.join("ws/sub/./g"), PathBuf::from("sub/g"), "ws/sub/g"),
            6 => (PathBuf::from("out"), dir.join("out"), "out"),
            7 => (PathBuf::from("ws/sub/away"), dir.join("out"), "out"),
            _ => (dir.join("ws/../ws.d/f"), dir.join("ws.d/f"), "ws.d/f"),
        };
        check(w.open_buffer(&path).is_ok(), "a readable file can be opened");
        check(w.current_buffer.as_ref().map_or(false, |b| b.data() == text), "the buffer opened is current");
        check(w.current_buffer_path() == Some(&*want), "the path is relative inside the workspace, complete outside");
        let at = w.current_buffer_index().unwrap();
        check(w.buffer_paths()[at] == Some(&*want), "the list has the current buffer's path at the current index");
        cover(if want.is_absolute() { 2 } else { 1 });
    }
}

/// C23: a workspace at the root.
pub fn rooted(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    let mut s = Space::new(Path::new(["/", "/.", "/.."][sym::pick(3)]));
    check(s.w.path == Path::new("/"), "the workspace's path is canonical");
    let mut expected: Vec<Option<PathBuf>> = Vec::new();
    for _ in 0..steps {
        match sym::pick(3) {
            0 => {
                let (path, want) = match sym::pick(5) {
                    0 => (None, None),
                    1 => (Some(dir.join("f")), Some(dir.join("f").strip_prefix("/").unwrap().to_path_buf())),
                    2 => (Some(PathBuf::from("/f")), Some(PathBuf::from("f"))),
                    3 => (Some(PathBuf::from("f")), Some(PathBuf::from("f"))),
                    _ => (Some(PathBuf::from("/")), Some(PathBuf::new())),
                };
                s.add(path);
                expected.insert(s.current.unwrap(), want);
            }
            1 => s.next(),
            _ => s.previous(),
        }
        verify_paths(&mut s, &expected);
    }
}

/// C22: what others do to the files has no effect on open buffers.
pub fn altered(steps: usize) {
    let dir = PathBuf::from(sym::scratch());
    fs::write("f", "one").unwrap();
    fs::write("g", "two").unwrap();
    let mut s = Space::new(&dir);
    let f = dir.join("f");
    let mut text = String::from("one");
    for k in 0..steps {
        match sym::pick(6) {
            0 => {
                text = format!("new{}", k);
                fs::write("f", &text).unwrap();
                cover(1);
            }
            1 => {
                text = format!("moved{}", k);
                fs::write("h", &text).unwrap();
                fs::rename("h", "f").unwrap();
                cover(2);
            }
            2 => open(&mut s, ["f", "./f"][sym::pick(2)], &f, &text),
            3 => open(&mut s, "g", &dir.join("g"), "two"),
            4 => s.edit(),
            _ => {
                s.close();
            }
        }
        s.verify_current();
    }
    let n = s.tabs.len();
    for _ in 0..n {
        s.next();
        s.verify_current();
    }
    check(fs::read("f").unwrap() == text.as_bytes(), "opening leaves files alone");
}

/// C22: two files whose names differ in one byte, whatever it is, are two files.
pub fn alike() {
    use std::os::unix::ffi::OsStringExt;
    let dir = PathBuf::from(sym::scratch());
    let (before, after) = [("", ""), ("f", ""), ("", "f"), ("f", ".rs")][sym::pick(4)];
    let a = [b'a', b'A', b' ', 0xe9, 0xff][sym::pick(5)];
    let b = sym::u8();
    sym::assume(b != a && b != 0 && b != b'/' && (before != "" || b != b'.'));
    let named = |b| PathBuf::from(std::ffi::OsString::from_vec([before.as_bytes(), &[b], after.as_bytes()].concat()));
    let (f, g) = (named(a), named(b));
    // In the workspace's own directory or in one whose name is such a one.
    let (f, g) = match sym::pick(2) {
        0 => (f, g),
        _ => {
            fs::create_dir(&f).unwrap();
            fs::create_dir(&g).unwrap();
            (f.join("x"), g.join("x"))
        }
    };
    fs::write(&f, "one").unwrap();
    fs::write(&g, "two").unwrap();
    let mut s = Space::new(&dir);
    let empty = |s: &mut Space| {
        s.w.add_buffer(Buffer::new());
        s.added(String::new(), None);
    };
    let others = sym::pick(3);
    if others == 2 {
        empty(&mut s);
    }
    open(&mut s, &f, &dir.join(&f), "one");
    if others == 1 {
        empty(&mut s);
    }
    open(&mut s, &g, &dir.join(&g), "two");
    let count = if others == 0 { 2 } else { 3 };
    check(s.tabs.len() == count, "files of different names are different files");
    s.verify_current();
    s.edit();
    open(&mut s, dir.join(&f), &dir.join(&f), "one");
    open(&mut s, dir.join(&g), &dir.join(&g), "two");
    check(s.tabs.len() == count, "a file that is open isn't opened again");
    s.verify_current();
    cover(21);
}


/// C22: files of any name.
pub fn odd_names() {
    let dir = PathBuf::from(sym::scratch());
    let name = crate::files::odd_name();
    fs::create_dir("d").unwrap();
    let file = dir.join("d").join(&name);
    fs::write(&file, "odd").unwrap();
    let mut s = Space::new(&dir);
    open(&mut s, &file, &file, "odd");
    s.edit();
    s.add(None);
    open(&mut s, Path::new("d").join(&name), &file, "odd");
    s.verify_current();
    check(s.tabs.len() == 2, "a file that is open isn't opened again");
    check(s.w.current_buffer_path() == Some(&*Path::new("d").join(&name)), "relative inside the workspace");
    s.close();
    open(&mut s, Path::new("d/../d").join(&name), &file, "odd");
    s.verify_current();
}
