//! JSON output without dependencies.
use std::fmt::Write as _;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Default)]
pub struct Obj(String);
impl Obj {
    pub fn new() -> Obj {
        Obj::default()
    }
    pub fn raw(mut self, k: &str, v: impl std::fmt::Display) -> Obj {
        if !self.0.is_empty() {
            self.0.push(',');
        }
        let _ = write!(self.0, "{}:{}", esc(k), v);
        self
    }
    pub fn str(self, k: &str, v: &str) -> Obj {
        self.raw(k, esc(v))
    }
    pub fn done(self) -> String {
        format!("{{{}}}", self.0)
    }
}
pub fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
