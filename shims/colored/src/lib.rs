//! Stand-in for colored without a terminal: text stays as it is.
use std::fmt;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ColoredString(String);
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl std::ops::Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.0 } }
macro_rules! colours { ($($c:ident)*) => {
    pub trait Colorize: Sized { fn text(self) -> String; $(fn $c(self) -> ColoredString { ColoredString(self.text()) })* }
} }
colours!(black red green yellow blue magenta purple cyan white bright_black bright_red bright_green bright_yellow bright_blue bright_magenta bright_cyan bright_white bold dimmed italic underline normal clear reversed on_red on_green on_yellow on_blue);
impl<'a> Colorize for &'a str { fn text(self) -> String { self.to_string() } }
impl Colorize for ColoredString { fn text(self) -> String { self.0 } }
