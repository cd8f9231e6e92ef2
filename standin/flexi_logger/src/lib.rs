//! Stand-in for flexi_logger: accepts the configuration and logs nothing.
use std::fmt::Display;
use std::io::{self, Write};
use std::path::PathBuf;

pub enum Age {
    Day,
}
pub enum Cleanup {
    KeepLogFiles(usize),
}
pub enum Criterion {
    Age(Age),
}
pub enum Duplicate {
    All,
}
pub enum Naming {
    Timestamps,
}

pub struct FileSpec;
impl FileSpec {
    pub fn default() -> Self {
        FileSpec
    }
    pub fn directory(self, _: impl Into<PathBuf>) -> Self {
        self
    }
    pub fn basename(self, _: impl Into<String>) -> Self {
        self
    }
}

pub struct LogSpecification;
pub struct LogSpecBuilder;
impl LogSpecBuilder {
    pub fn new() -> Self {
        LogSpecBuilder
    }
    pub fn default(&mut self, _: log::LevelFilter) -> &mut Self {
        self
    }
    pub fn build(&self) -> LogSpecification {
        LogSpecification
    }
}

pub struct Stamp;
impl Stamp {
    pub fn to_rfc2822(&self) -> String {
        String::new()
    }
}
pub struct DeferredNow;
impl DeferredNow {
    pub fn now(&mut self) -> Stamp {
        Stamp
    }
}

pub struct Logger;
impl Logger {
    pub fn with(_: LogSpecification) -> Self {
        Logger
    }
    pub fn log_to_file(self, _: FileSpec) -> Self {
        self
    }
    pub fn duplicate_to_stdout(self, _: Duplicate) -> Self {
        self
    }
    pub fn rotate(self, _: Criterion, _: Naming, _: Cleanup) -> Self {
        self
    }
    pub fn format(self, _: fn(&mut dyn Write, &mut DeferredNow, &log::Record<'_>) -> io::Result<()>) -> Self {
        self
    }
    pub fn start(self) -> Result<(), Box<dyn Display>> {
        Ok(())
    }
}
