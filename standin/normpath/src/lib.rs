//! Stand-in: the code under test uses this crate on Windows only.
pub trait PathExt {}
impl PathExt for std::path::Path {}
