//! C16, C17: tokens, of any text under any syntax definition: what the
//! definition does with a line is arbitrary.

use crate::gen::{self, *};
use crate::model;
use crate::sym::{self, check, cover};
use scribe::buffer::{Token, TokenSet};
use scribe::{Buffer, ErrorKind, Workspace};
use std::path::Path;
use syntect::parsing::{
    model_set_parser, ClearAmount, ParsingError, Scope, ScopeStack, ScopeStackOp, SyntaxSet,
};

type Events = Vec<(usize, ScopeStackOp)>;

/// What the definition does: its scope changes per line.
struct Grammar {
    lines: Vec<String>,
    events: Vec<Events>,
    /// The line whose parsing fails.
    fails: Option<usize>,
    mistaken: bool,
    /// The definition that is to be asked.
    name: String,
}

static mut GRAMMAR: Option<Grammar> = None;

fn grammar() -> &'static mut Grammar {
    #[allow(static_mut_refs)]
    unsafe {
        GRAMMAR.as_mut().unwrap()
    }
}

fn parse(number: usize, line: &str, name: &str) -> Result<Events, ParsingError> {
    let g = grammar();
    if !model::same(name, &g.name) {
        g.mistaken = true;
    }
    if number < g.lines.len() {
        if !model::same(line, &g.lines[number]) {
            g.mistaken = true;
            return Ok(Vec::new());
        }
    } else {
        g.mistaken |= !line.is_empty();
        return Ok(Vec::new());
    }
    if g.fails == Some(number) {
        return Err(ParsingError::MissingMainContext);
    }
    Ok(g.events[number].clone())
}

/// Changes that are pushes, or not valid.
pub const FAILING: usize = 100;

/// An arbitrary scope change.
fn change(kinds: usize) -> ScopeStackOp {
    if kinds == FAILING {
        return if sym::pick(2) == 0 { ScopeStackOp::Push(Scope::model_raw(sym::u64(), 0)) } else { ScopeStackOp::Restore };
    }
    match sym::pick(kinds) {
        0 => ScopeStackOp::Push(Scope::model_raw(sym::u64(), 0)),
        1 => ScopeStackOp::Pop(1),
        2 => ScopeStackOp::Noop,
        3 => ScopeStackOp::Clear(ClearAmount::All),
        4 => ScopeStackOp::Restore,
        5 => ScopeStackOp::Pop(2),
        _ => ScopeStackOp::Clear(ClearAmount::TopN(1)),
    }
}

/// Up to `most` changes per line at any offsets, the line's end included.
fn changes(line: &str, most: usize, kinds: usize) -> Events {
    let mut places: Vec<usize> = line.char_indices().map(|(i, _)| i).collect();
    places.push(line.len());
    let mut first = 0;
    let mut out = Vec::new();
    for _ in 0..sym::between(0, most) {
        let k = first + sym::pick(places.len() - first);
        first = k;
        out.push((places[k], change(kinds)));
    }
    out
}

/// Lines as a parser gets them, without a last empty one.
fn lines(text: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut start = 0;
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            out.push(text[start..i + 1].to_string());
            start = i + 1;
        }
    }
    if start < text.len() {
        out.push(text[start..].to_string());
    }
    out
}

/// The stack at each byte of a text.
struct Stacks {
    different: Vec<ScopeStack>,
    at: Vec<usize>,
}

/// The stack at each byte of the text. None if a change isn't valid, along
/// with the byte it's at, and its line.
fn stacks() -> (Stacks, Option<(usize, usize)>) {
    let g = grammar();
    let mut stack = ScopeStack::new();
    let mut out = Stacks { different: vec![stack.clone()], at: Vec::new() };
    let mut base = 0;
    for (n, line) in g.lines.iter().enumerate() {
        let mut k = 0;
        for i in 0..line.len() + 1 {
            while k < g.events[n].len() && g.events[n][k].0 == i {
                if stack.apply(&g.events[n][k].1).is_err() {
                    return (out, Some((base + i, n)));
                }
                out.different.push(stack.clone());
                k += 1;
            }
            if i < line.len() {
                out.at.push(out.different.len() - 1);
            }
        }
        base += line.len();
    }
    (out, None)
}

fn same_stack(a: &ScopeStack, b: &ScopeStack) -> bool {
    if a.scopes.len() != b.scopes.len() {
        return false;
    }
    let mut d = 0;
    for (x, y) in a.scopes.iter().zip(&b.scopes) {
        let (x, y) = (x.model_parts(), y.model_parts());
        d |= (x.0 ^ y.0) | (x.1 ^ y.1);
    }
    d == 0
}

/// Checks a token, and returns where the next one starts.
fn token(text: &str, at: usize, token: &Token, stacks: &Stacks) -> usize {
    match token {
        Token::Newline => {
            check(text.as_bytes().get(at) == Some(&b'\n'), "newlines are where the text's line feeds are");
            at + 1
        }
        Token::Lexeme(l) => {
            let end = at + l.value.len();
            check(end <= text.len(), "the tokens don't exceed the text");
            check(
                model::same_bytes(l.value.as_bytes(), &text.as_bytes()[at..end]),
                "the tokens, concatenated, are the text",
            );
            for b in l.value.bytes() {
                check(b != b'\n', "no lexeme contains a line feed");
            }
            if end > at {
                if let Some(p) = model::position(text, at) {
                    check(l.position == p, "a lexeme carries its first character's position");
                    sym::observe(p.line as u64);
                    sym::observe(p.offset as u64);
                    cover(if p.offset > 0 { 1 } else { 2 });
                } else {
                    cover(3);
                }
                let mut last = usize::MAX;
                for i in at..end {
                    if i < stacks.at.len() && stacks.at[i] != last {
                        last = stacks.at[i];
                        check(same_stack(&l.scope, &stacks.different[last]), "a lexeme carries the scope of its text");
                    }
                }
                if !l.scope.is_empty() {
                    cover(4);
                }
            }
            end
        }
    }
}

fn install(text: &str, most: usize, kinds: usize) {
    let lines = lines(text);
    let events = lines.iter().map(|l| changes(l, most, kinds)).collect();
    unsafe { GRAMMAR = Some(Grammar { lines, events, fails: None, mistaken: false, name: "Rust".to_string() }) };
    model_set_parser(Some(parse));
}

/// C16: valid scope changes anywhere.
pub fn tokens(max: usize, classes: &[Class], most: usize, kinds: usize, workspace: bool) {
    let text = gen::text(max, classes);
    install(&text, most, kinds);
    let (stacks, invalid) = stacks();
    sym::assume(invalid.is_none());
    if !workspace {
        let syntaxes = SyntaxSet::load_defaults_newlines();
        let syntax = syntaxes.find_syntax_by_extension("rs").unwrap();
        let set = TokenSet::new(text.clone(), syntax, &syntaxes);
        all(&text, &set, &stacks);
        all(&text, &set, &stacks);
    } else {
        let dir = sym::scratch();
        let mut w = Workspace::new(Path::new(&dir), None).unwrap();
        let mut b = Buffer::new();
        // By way of an edit, so that the gap is somewhere.
        b.insert("zz");
        b.insert(text.clone());
        let p = model::boundaries(&text).pop().unwrap().0;
        let end = model::boundaries(&b.data()).pop().unwrap().0;
        b.delete_range(scribe::buffer::Range::new(p, end));
        sym::assume(model::same(&b.data(), &text));
        b.path = Some(Path::new(&dir).join("a.rs"));
        w.add_buffer(b);
        match w.current_buffer_tokens() {
            Ok(set) => all(&text, &set, &stacks),
            Err(_) => check(false, "a buffer with a syntax definition has tokens"),
        };
    }
}

/// C16: changes at every char of shaped and of big texts, or at every other.
pub fn dense(classes: &[Class]) {
    let text = gen::text(0, classes);
    let stride = if text.len() > 65536 { 20000 } else { 1 + sym::pick(2) };
    let depth = 1 + sym::pick(2);
    let lines = lines(&text);
    let mut n = 0;
    let mut open = 0;
    let mut events = Vec::new();
    for line in &lines {
        let mut here = Vec::new();
        for (k, (i, _)) in line.char_indices().enumerate() {
            if k % stride == 0 {
                if open == depth {
                    here.push((i, ScopeStackOp::Pop(depth)));
                    open = 0;
                } else {
                    let scope = if n < 4 { sym::u64() } else { n };
                    here.push((i, ScopeStackOp::Push(Scope::model_raw(scope, 0))));
                    open += 1;
                    n += 1;
                }
            }
        }
        events.push(here);
    }
    unsafe { GRAMMAR = Some(Grammar { lines, events, fails: None, mistaken: false, name: "Rust".to_string() }) };
    model_set_parser(Some(parse));
    let (stacks, invalid) = stacks();
    check(invalid.is_none(), "the scope changes are valid");
    let syntaxes = SyntaxSet::load_defaults_newlines();
    let syntax = syntaxes.find_syntax_by_extension("rs").unwrap();
    let set = TokenSet::new(text.clone(), syntax, &syntaxes);
    all(&text, &set, &stacks);
}

fn all(text: &str, set: &TokenSet, stacks: &Stacks) {
    let mut it = match set.iter() {
        Ok(it) => it,
        Err(_) => {
            check(false, "without a failure, there are tokens");
            return;
        }
    };
    let mut at = 0;
    let mut n = 0;
    while let Some(t) = it.next() {
        at = token(text, at, &t, stacks);
        n += 1;
        check(n < 3 * text.len() + 30, "the tokens end");
    }
    check(at == text.len(), "the tokens, concatenated, are the text");
    check(it.error.is_none(), "without a failure, no error is recorded");
    check(!grammar().mistaken, "the definition is given the text, line by line");
}

/// C16: a workspace's current buffer's tokens, with a scope change in every line.
pub fn of_workspace(w: &Workspace, text: &str) {
    of_workspace_by(w, text, "Rust")
}

fn of_workspace_by(w: &Workspace, text: &str, name: &str) {
    let lines = lines(text);
    let change = |n: usize, l: &String| {
        let middle = l.char_indices().map(|x| x.0).find(|&i| i >= l.len() / 2).unwrap_or(l.len());
        vec![(0, ScopeStackOp::Push(Scope::model_raw(n as u64 + 7, 0))), (middle, ScopeStackOp::Pop(1))]
    };
    let events = lines.iter().enumerate().map(|(n, l)| change(n, l)).collect();
    unsafe { GRAMMAR = Some(Grammar { lines, events, fails: None, mistaken: false, name: name.to_string() }) };
    model_set_parser(Some(parse));
    let (stacks, invalid) = stacks();
    check(invalid.is_none(), "the scope changes are valid");
    match w.current_buffer_tokens() {
        Ok(set) => all(text, &set, &stacks),
        Err(_) => check(false, "a buffer with a syntax definition has tokens"),
    };
}

/// C16: scopes nested deeper than any usual, within a line or across lines.
pub fn nested(depths: &[usize]) {
    let depth = depths[sym::pick(depths.len())];
    let across = sym::pick(2) == 0;
    let mut lines = Vec::new();
    let mut events = Vec::new();
    let mut line = String::new();
    let mut here = Vec::new();
    let scope = sym::u64();
    for i in 0..2 * depth + 2 {
        let at = line.len();
        line.push_str(["a", "\u{e9}", "e\u{301}"][i % 3]);
        if i < depth {
            let scope = if i == 0 || i + 1 == depth { scope } else { i as u64 };
            here.push((at, ScopeStackOp::Push(Scope::model_raw(scope, 0))));
        } else if i > depth && i <= 2 * depth {
            here.push((at, ScopeStackOp::Pop(1)));
        }
        if across && i % 8 == 7 {
            line.push('\n');
            lines.push(std::mem::take(&mut line));
            events.push(std::mem::take(&mut here));
        }
    }
    if !line.is_empty() {
        lines.push(line);
        events.push(here);
    }
    let text = lines.concat();
    unsafe { GRAMMAR = Some(Grammar { lines, events, fails: None, mistaken: false, name: "Rust".to_string() }) };
    model_set_parser(Some(parse));
    let (stacks, invalid) = stacks();
    check(invalid.is_none(), "the scope changes are valid");
    let syntaxes = SyntaxSet::load_defaults_newlines();
    let syntax = syntaxes.find_syntax_by_extension("rs").unwrap();
    let set = TokenSet::new(text.clone(), syntax, &syntaxes);
    all(&text, &set, &stacks);
}

/// C16: a workspace's tokens are the current buffer's, by its definition, as both are.
pub fn definitions(steps: usize) {
    let dir = sym::scratch();
    let mut w = Workspace::new(Path::new(&dir), None).unwrap();
    let syntaxes = SyntaxSet::load_defaults_newlines();
    let names = ["rs", "py", "txt"];
    let found = |k: usize| syntaxes.find_syntax_by_extension(names[k]).unwrap_or(syntaxes.find_syntax_plain_text());
    let mut texts = Vec::new();
    let mut definitions = Vec::new();
    for k in 0..2 {
        let mut b = Buffer::new();
        texts.push(["ab\nc", "abc\n"][k].to_string());
        b.insert(texts[k].clone());
        b.path = Some(Path::new(&dir).join(format!("{}.{}", k, names[k])));
        w.add_buffer(b);
        definitions.push(k);
    }
    let mut at = 1;
    for _ in 0..steps {
        match sym::pick(5) {
            0 => {
                w.next_buffer();
                at = 1 - at;
                cover(11);
            }
            1 => {
                // A text as long as before.
                let b = w.current_buffer.as_mut().unwrap();
                let n = texts[at].len().saturating_sub(1);
                texts[at] = ["d\u{e9}\n".to_string(), "f".repeat(n), "\n".repeat(n + 1)][sym::pick(3)].clone();
                b.replace(texts[at].clone());
                cover(12);
            }
            2 => {
                let k = sym::pick(3);
                w.current_buffer.as_mut().unwrap().syntax_definition = Some(found(k).clone());
                definitions[at] = k;
                cover(13);
            }
            3 => {
                let k = sym::pick(3);
                let b = w.current_buffer.as_mut().unwrap();
                b.path = Some(Path::new(&dir).join(format!("g.{}", names[k])));
                check(w.update_current_syntax().is_ok(), "the current buffer's syntax can be updated");
                definitions[at] = k;
                cover(14);
            }
            _ => {
                let b = w.current_buffer.as_mut().unwrap();
                b.cursor.position = scribe::buffer::Position { line: 0, offset: 0 };
                b.insert("\u{e9}");
                texts[at].insert(0, '\u{e9}');
                cover(15);
            }
        }
        let b = w.current_buffer.as_ref().unwrap();
        // Where the content or the definition isn't the one expected, that isn't this property's.
        sym::assume(model::same(&b.data(), &texts[at]));
        let name = b.syntax_definition.as_ref().unwrap().name.clone();
        sym::assume(model::same(&name, &found(definitions[at]).name));
        of_workspace_by(&w, &texts[at], &name);
    }
}

/// C17: a failure at any line or scope change.
pub fn failures(max: usize, classes: &[Class], most: usize, kinds: usize, workspace: bool) {
    let text = gen::text(max, classes);
    install(&text, most, kinds);
    let fails = sym::pick(grammar().lines.len() + 1);
    judge(text, fails, workspace);
}

/// C17: a failure far into the text.
pub fn failures_far(classes: &[Class]) {
    let text = gen::text(0, classes);
    let lines = lines(&text);
    let n = lines.len();
    let line = if n > 65536 { 65536 } else { [1, 2, 100, 255, 256, 257, n - 1][sym::pick(7)] };
    sym::assume(line < n);
    let scope = sym::pick(2) == 1;
    let events = (0..n)
        .map(|i| match i {
            0 => vec![(0, ScopeStackOp::Push(Scope::model_raw(7, 0)))],
            i if scope && i == line => vec![(0, ScopeStackOp::Restore)],
            _ => vec![],
        })
        .collect();
    unsafe { GRAMMAR = Some(Grammar { lines, events, fails: None, mistaken: false, name: "Rust".to_string() }) };
    model_set_parser(Some(parse));
    judge(text, if scope { n } else { line }, false);
}

/// What is obtained if the parsing of a line, if there is one, fails.
fn judge(text: String, fails: usize, workspace: bool) {
    let n = grammar().lines.len();
    if fails < n {
        grammar().fails = Some(fails);
    }
    let (stacks, invalid) = stacks();
    // Whichever comes first.
    let mut parsing = None;
    let mut scope = invalid;
    if fails < n && invalid.map_or(true, |x| x.1 >= fails) {
        parsing = Some(fails);
        scope = None;
    }
    let starts: Vec<usize> = grammar().lines.iter().scan(0, |at, l| {
        *at += l.len();
        Some(*at - l.len())
    }).collect();
    let syntaxes = SyntaxSet::load_defaults_newlines();
    let syntax = syntaxes.find_syntax_by_extension("rs").unwrap();
    let mut w = None;
    let set = if workspace {
        let dir = sym::scratch();
        w = Some(Workspace::new(Path::new(&dir), None).unwrap());
        let w = w.as_mut().unwrap();
        let mut b = Buffer::new();
        b.insert(text.clone());
        b.syntax_definition = Some(syntax.clone());
        w.add_buffer(b);
        w.current_buffer_tokens()
    } else {
        Ok(TokenSet::new(text.clone(), syntax, &syntaxes))
    };
    let set = match set {
        Ok(set) => set,
        Err(_) => {
            check(false, "a buffer with a syntax definition has tokens");
            return;
        }
    };
    let mut it = match set.iter() {
        Ok(it) => it,
        Err(e) => {
            check(
                parsing == Some(0) || scope.map_or(false, |x| x.1 == 0),
                "an error result is for a failure in the first line",
            );
            if parsing.is_some() {
                check(matches!(e.kind(), ErrorKind::ParsingError(_)), "the error is the failure");
            } else {
                check(matches!(e.kind(), ErrorKind::ScopeError(_)), "the error is the failure");
            }
            cover(11);
            return;
        }
    };
    check(parsing != Some(0), "failing to parse the first line is an error result");
    let mut at = 0;
    let mut count = 0;
    while let Some(t) = it.next() {
        at = token(&text, at, &t, &stacks);
        count += 1;
        check(count < 3 * text.len() + 30, "the tokens end");
    }
    if let Some(line) = parsing {
        check(at >= starts[line] - 1 && at <= starts[line], "the tokens up to the failing line");
        check(
            it.error.as_ref().map_or(false, |e| matches!(e.kind(), ErrorKind::ParsingError(_))),
            "a parsing failure is recorded",
        );
        cover(12);
    } else if let Some((byte, line)) = scope {
        check(at >= starts[line] && at <= byte, "the tokens up to the invalid scope change");
        check(
            it.error.as_ref().map_or(false, |e| matches!(e.kind(), ErrorKind::ScopeError(_))),
            "an invalid scope change is recorded",
        );
        cover(13);
    } else {
        check(at == text.len(), "without a failure, the tokens are the text");
        check(it.error.is_none(), "without a failure, no error is recorded");
        cover(14);
    }
    drop(it);
    drop(set);
    drop(w);
}

/// C17: asking for tokens there are none of.
pub fn unavailable() {
    let dir = sym::scratch();
    let mut w = Workspace::new(Path::new(&dir), None).unwrap();
    check(w.current_buffer_tokens().is_err(), "without a buffer, there are no tokens");
    let mut b = Buffer::new();
    b.insert(gen::text(1, BREAKS));
    w.add_buffer(b);
    check(w.current_buffer_tokens().is_ok(), "a buffer with a syntax definition has tokens");
    if sym::pick(2) == 0 {
        w.current_buffer.as_mut().unwrap().syntax_definition = None;
        check(w.current_buffer_tokens().is_err(), "without a definition, there are no tokens");
        cover(1);
    } else {
        w.close_current_buffer();
        check(w.current_buffer_tokens().is_err(), "without a buffer, there are no tokens");
        cover(2);
    }
}
