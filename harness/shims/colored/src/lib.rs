//! Stand-in for colored 2 (not in the offline cache): no colours.
pub trait Colorize: Sized + ToString { fn blue(self) -> String { self.to_string() } fn yellow(self) -> String { self.to_string() } fn bold(self) -> String { self.to_string() } fn red(self) -> String { self.to_string() } fn green(self) -> String { self.to_string() } }
impl Colorize for &str {} impl Colorize for String {}
