//! The part of the runtime of rust-peg that redscript's compiler uses (see ../peg-macros).
pub use standin_peg_macros::parser;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RuleResult<T> {
    Matched(usize, T),
    Failed,
}

pub trait ParseLiteral {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()>;
}

impl ParseLiteral for str {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()> {
        if self.as_bytes()[pos..].starts_with(literal.as_bytes()) {
            RuleResult::Matched(pos + literal.len(), ())
        } else {
            RuleResult::Failed
        }
    }
}

pub mod str {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }

    impl std::fmt::Display for LineCol {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}:{}", self.line, self.column)
        }
    }
}

pub mod error {
    use std::collections::BTreeSet;
    use std::fmt;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ExpectedSet {
        expected: BTreeSet<&'static str>,
    }

    impl ExpectedSet {
        pub fn tokens(&self) -> impl Iterator<Item = &'static str> + '_ {
            self.expected.iter().copied()
        }
    }

    impl fmt::Display for ExpectedSet {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let mut all = self.tokens();
            match (self.expected.len(), all.next()) {
                (_, None) => Ok(()),
                (1, Some(one)) => write!(f, "{one}"),
                (_, Some(first)) => {
                    write!(f, "one of {first}")?;
                    all.try_for_each(|t| write!(f, ", {t}"))
                }
            }
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }

    impl<L: fmt::Display> fmt::Display for ParseError<L> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "error at {}: expected {}", self.location, self.expected)
        }
    }

    impl<L: fmt::Display + fmt::Debug> std::error::Error for ParseError<L> {}

    pub struct ErrorState {
        pub suppress_fail: usize,
        max_err_pos: usize,
        reparsing: bool,
        expected: BTreeSet<&'static str>,
    }

    impl ErrorState {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Self { suppress_fail: 0, max_err_pos: 0, reparsing: false, expected: BTreeSet::new() }
        }

        pub fn reparse_for_error(&mut self) {
            self.suppress_fail = 0;
            self.reparsing = true;
        }

        pub fn mark_failure(&mut self, pos: usize, expected: &'static str) {
            if self.suppress_fail > 0 {
            } else if self.reparsing {
                if pos == self.max_err_pos {
                    self.expected.insert(expected);
                }
            } else if pos > self.max_err_pos {
                self.max_err_pos = pos;
            }
        }

        pub fn into_parse_error(self, input: &str) -> ParseError<super::str::LineCol> {
            let before = &input[..self.max_err_pos];
            let line = before.as_bytes().iter().filter(|&&c| c == b'\n').count() + 1;
            let column = before.chars().rev().take_while(|&c| c != '\n').count() + 1;
            ParseError {
                location: super::str::LineCol { line, column, offset: self.max_err_pos },
                expected: ExpectedSet { expected: self.expected },
            }
        }
    }
}
