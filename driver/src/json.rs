//! Minimal JSON writer.
use std::fmt::Write;
#[derive(Clone, Debug)]
pub enum J { Null, B(bool), I(i128), U(u128), S(String), A(Vec<J>), O(Vec<(String, J)>) }
pub fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
pub fn u<T: TryInto<u128>>(x: T) -> J { J::U(x.try_into().ok().unwrap()) }
#[macro_export]
macro_rules! obj { ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k.to_string(), $v)),*]) } }
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::U(i) => { let _ = write!(o, "{}", i); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } J::S(k.clone()).write(o); o.push(':'); x.write(o); } o.push('}'); }
        }
    }
}
