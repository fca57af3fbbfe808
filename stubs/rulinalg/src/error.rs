use std::{error, fmt};

#[derive(Debug)]
pub struct Error { kind: ErrorKind, error: Box<dyn error::Error + Send + Sync> }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    InvalidArg, InvalidState, DecompFailure, AlgebraFailure, DivByZero, ScalarDivByZero, InvalidSlice,
}

impl Error {
    pub fn new<E>(kind: ErrorKind, error: E) -> Error
        where E: Into<Box<dyn error::Error + Send + Sync>>
    { Error { kind, error: error.into() } }
    pub fn kind(&self) -> &ErrorKind { &self.kind }
    pub fn into_inner(self) -> Option<Box<dyn error::Error + Send + Sync>> { Some(self.error) }
}
impl error::Error for Error {
    #[allow(deprecated)]
    fn description(&self) -> &str { self.error.description() }
    #[allow(deprecated)]
    fn cause(&self) -> Option<&dyn error::Error> { None }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.error.fmt(f) }
}
