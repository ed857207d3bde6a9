#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SimpleError { err: String }
impl SimpleError { pub fn new<T: Into<String>>(t: T) -> Self { SimpleError { err: t.into() } } }
impl std::fmt::Display for SimpleError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.err.fmt(f) } }
impl std::error::Error for SimpleError {}
#[macro_export]
macro_rules! bail {
    ($e:expr) => { return Err(::std::convert::From::from($e)) };
    ($fmt:expr, $($arg:tt)+) => { return Err(::std::convert::From::from($crate::SimpleError::new(format!($fmt, $($arg)+)))) };
}
