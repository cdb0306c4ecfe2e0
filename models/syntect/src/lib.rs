//! Stand-in for syntect. The scope types are syntect's own; the parser is
//! replaced by a hook which the harness fills with arbitrary scope events, and
//! the syntax set holds a handful of syntaxes under syntect's lookup rules.
pub mod parsing;

use std::fmt;
use std::io::Error as IoError;

#[derive(Debug)]
#[non_exhaustive]
pub enum LoadingError {
    Io(IoError),
    BadPath,
}
impl fmt::Display for LoadingError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("loading error")
    }
}
impl std::error::Error for LoadingError {}
impl From<IoError> for LoadingError {
    fn from(e: IoError) -> Self {
        LoadingError::Io(e)
    }
}

#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    LoadingError(LoadingError),
    ParsingError(parsing::ParsingError),
    ScopeError(parsing::ScopeError),
    Io(IoError),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("syntect error")
    }
}
impl std::error::Error for Error {}
impl From<LoadingError> for Error {
    fn from(e: LoadingError) -> Self {
        Error::LoadingError(e)
    }
}
impl From<parsing::ParsingError> for Error {
    fn from(e: parsing::ParsingError) -> Self {
        Error::ParsingError(e)
    }
}
impl From<parsing::ScopeError> for Error {
    fn from(e: parsing::ScopeError) -> Self {
        Error::ScopeError(e)
    }
}

pub mod util {
    /// As in syntect: lines with their endings.
    pub struct LinesWithEndings<'a> {
        input: &'a str,
    }
    impl<'a> LinesWithEndings<'a> {
        pub fn from(input: &'a str) -> LinesWithEndings<'a> {
            LinesWithEndings { input }
        }
    }
    impl<'a> Iterator for LinesWithEndings<'a> {
        type Item = &'a str;
        fn next(&mut self) -> Option<&'a str> {
            if self.input.is_empty() {
                return None;
            }
            let split = self.input.find('\n').map(|i| i + 1).unwrap_or_else(|| self.input.len());
            let (line, rest) = self.input.split_at(split);
            self.input = rest;
            Some(line)
        }
    }
}
