//! Stand-in for env_logger: accepts the set-up and logs nothing.
pub struct Env;
impl Default for Env { fn default() -> Self { Env } }
pub struct Builder;
pub mod fmt { pub struct Formatter(pub Vec<u8>); }
impl std::io::Write for fmt::Formatter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Builder {
    pub fn from_env(_: Env) -> Self { Builder }
    pub fn format<F>(&mut self, _f: F) -> &mut Self
    where F: Fn(&mut fmt::Formatter, &log::Record) -> std::io::Result<()> + Sync + Send + 'static { self }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
