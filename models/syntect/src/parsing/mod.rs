mod scope;
pub use self::scope::*;

use crate::LoadingError;
use std::collections::BTreeMap;
use std::fmt;
use std::path::Path;

#[derive(Debug)]
#[non_exhaustive]
pub enum ParsingError {
    MissingMainContext,
    MissingContext(usize),
    BadMatchIndex(usize),
    UnresolvedContextReference(usize),
}
impl fmt::Display for ParsingError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("parsing error")
    }
}
impl std::error::Error for ParsingError {}

#[derive(Clone, Debug)]
pub struct SyntaxReference {
    pub name: String,
    pub file_extensions: Vec<String>,
    pub scope: Scope,
    pub first_line_match: Option<String>,
    pub hidden: bool,
    pub variables: BTreeMap<String, String>,
}

pub type SyntaxDefinition = SyntaxReference;

#[derive(Debug, Default)]
pub struct SyntaxSet {
    syntaxes: Vec<SyntaxReference>,
}

#[derive(Clone, Default)]
pub struct SyntaxSetBuilder {
    syntaxes: Vec<SyntaxReference>,
}

fn syntax(name: &str, extensions: &[&str], id: u64) -> SyntaxReference {
    SyntaxReference {
        name: name.to_string(),
        file_extensions: extensions.iter().map(|e| e.to_string()).collect(),
        scope: Scope::model_raw(id << 48, 0),
        first_line_match: None,
        hidden: false,
        variables: BTreeMap::new(),
    }
}

impl SyntaxSet {
    pub fn new() -> SyntaxSet {
        SyntaxSet::default()
    }

    /// A few of syntect's default syntaxes.
    pub fn load_defaults_newlines() -> SyntaxSet {
        SyntaxSet {
            syntaxes: vec![
                syntax("Plain Text", &["txt"], 60001),
                syntax("C", &["c", "h"], 60002),
                syntax("Makefile", &["make", "Makefile", "mk"], 60003),
                syntax("Rust", &["rs"], 60004),
                // Whole names, with and without an extension.
                syntax("Named", &["named", "n.rs", "Rakefile", ".named", "n.a", "verylongextension", "AVeryLongFileName"], 60007),
            ],
        }
    }
    pub fn load_defaults_nonewlines() -> SyntaxSet {
        SyntaxSet::load_defaults_newlines()
    }
    pub fn load_from_folder<P: AsRef<Path>>(folder: P) -> Result<SyntaxSet, LoadingError> {
        let mut builder = SyntaxSetBuilder::new();
        builder.add_from_folder(folder, false)?;
        Ok(builder.build())
    }
    pub fn syntaxes(&self) -> &[SyntaxReference] {
        &self.syntaxes[..]
    }
    // The lookups below are syntect's.
    pub fn find_syntax_by_scope(&self, scope: Scope) -> Option<&SyntaxReference> {
        self.syntaxes.iter().rev().find(|&s| s.scope == scope)
    }
    pub fn find_syntax_by_name<'a>(&'a self, name: &str) -> Option<&'a SyntaxReference> {
        self.syntaxes.iter().rev().find(|&s| name == s.name)
    }
    pub fn find_syntax_by_extension<'a>(&'a self, extension: &str) -> Option<&'a SyntaxReference> {
        self.syntaxes.iter().rev().find(|&s| {
            s.file_extensions
                .iter()
                .any(|e| e.eq_ignore_ascii_case(extension))
        })
    }
    pub fn find_syntax_by_token<'a>(&'a self, s: &str) -> Option<&'a SyntaxReference> {
        {
            let ext_res = self.find_syntax_by_extension(s);
            if ext_res.is_some() {
                return ext_res;
            }
        }
        self.syntaxes
            .iter()
            .rev()
            .find(|&syntax| syntax.name.eq_ignore_ascii_case(s))
    }
    pub fn find_syntax_by_first_line<'a>(&'a self, _s: &str) -> Option<&'a SyntaxReference> {
        None
    }
    pub fn find_syntax_by_path<'a>(&'a self, _path: &str) -> Option<&'a SyntaxReference> {
        None
    }
    pub fn find_syntax_for_file<P: AsRef<Path>>(
        &self,
        path_obj: P,
    ) -> std::io::Result<Option<&SyntaxReference>> {
        let path: &Path = path_obj.as_ref();
        let file_name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");
        let extension = path.extension().and_then(|x| x.to_str()).unwrap_or("");
        let ext_syntax = self
            .find_syntax_by_extension(file_name)
            .or_else(|| self.find_syntax_by_extension(extension));
        if ext_syntax.is_none() {
            std::fs::File::open(path)?;
        }
        Ok(ext_syntax)
    }
    pub fn find_syntax_plain_text(&self) -> &SyntaxReference {
        self.find_syntax_by_name("Plain Text")
            .expect("All syntax sets ought to have a plain text syntax")
    }
    pub fn into_builder(self) -> SyntaxSetBuilder {
        SyntaxSetBuilder { syntaxes: self.syntaxes }
    }
}

impl SyntaxSetBuilder {
    pub fn new() -> SyntaxSetBuilder {
        SyntaxSetBuilder::default()
    }
    pub fn add(&mut self, syntax: SyntaxDefinition) {
        self.syntaxes.push(syntax);
    }
    pub fn syntaxes(&self) -> &[SyntaxDefinition] {
        &self.syntaxes[..]
    }
    pub fn add_plain_text_syntax(&mut self) {
        self.syntaxes.push(syntax("Plain Text", &["txt"], 60001));
    }
    /// The model's folder contributes one syntax; a folder that cannot be
    /// read is an error, as in syntect.
    pub fn add_from_folder<P: AsRef<Path>>(
        &mut self,
        folder: P,
        _lines_include_newline: bool,
    ) -> Result<(), LoadingError> {
        std::fs::metadata(folder)?;
        self.syntaxes.push(syntax("User", &["usr", "Userfile", "c"], 60005));
        Ok(())
    }
    pub fn build(self) -> SyntaxSet {
        SyntaxSet { syntaxes: self.syntaxes }
    }
}

/// What the parser does with one line: `line_number` counts the lines this
/// parse state has been given, `name` is the syntax it was created for.
pub type ParseHook =
    fn(line_number: usize, line: &str, name: &str) -> Result<Vec<(usize, ScopeStackOp)>, ParsingError>;

static mut PARSE_HOOK: Option<ParseHook> = None;

/// Not part of syntect: installs the parser (single-threaded use).
pub fn model_set_parser(hook: Option<ParseHook>) {
    unsafe { PARSE_HOOK = hook }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct ParseState {
    name: String,
    lines: usize,
}

impl ParseState {
    pub fn new(syntax: &SyntaxReference) -> ParseState {
        ParseState { name: syntax.name.clone(), lines: 0 }
    }
    pub fn parse_line(
        &mut self,
        line: &str,
        _syntax_set: &SyntaxSet,
    ) -> Result<Vec<(usize, ScopeStackOp)>, ParsingError> {
        let number = self.lines;
        self.lines += 1;
        match unsafe { PARSE_HOOK } {
            Some(hook) => hook(number, line, &self.name),
            None => Ok(Vec::new()),
        }
    }
}
