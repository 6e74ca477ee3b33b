//! Minimal JSON value and writer (the driver has no dependencies).
use std::io::Write;
pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn write(&self, w: &mut impl Write) -> std::io::Result<()> {
        match self {
            J::Null => w.write_all(b"null"),
            J::B(b) => w.write_all(if *b { b"true" } else { b"false" }),
            J::I(i) => write!(w, "{i}"),
            J::S(s) => wstr(s, w),
            J::A(v) => {
                w.write_all(b"[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        w.write_all(b",")?;
                    }
                    x.write(w)?;
                }
                w.write_all(b"]")
            }
            J::O(v) => {
                w.write_all(b"{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        w.write_all(b",")?;
                    }
                    wstr(k, w)?;
                    w.write_all(b":")?;
                    x.write(w)?;
                }
                w.write_all(b"}")
            }
        }
    }
}
fn wstr(s: &str, w: &mut impl Write) -> std::io::Result<()> {
    w.write_all(b"\"")?;
    for c in s.chars() {
        match c {
            '"' => w.write_all(b"\\\"")?,
            '\\' => w.write_all(b"\\\\")?,
            '\n' => w.write_all(b"\\n")?,
            '\r' => w.write_all(b"\\r")?,
            '\t' => w.write_all(b"\\t")?,
            c if (c as u32) < 0x20 => write!(w, "\\u{:04x}", c as u32)?,
            c => write!(w, "{c}")?,
        }
    }
    w.write_all(b"\"")
}
