use std::fmt::Write;
pub enum J { N(f64), I(i64), S(String), B(bool), A(Vec<J>), O(Vec<(String, J)>) }
pub fn s(x: impl Into<String>) -> J { J::S(x.into()) }
pub fn o(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect()) }
impl J {
    pub fn text(&self) -> String { let mut t = String::new(); self.put(&mut t, 0); t.push('\n'); t }
    fn put(&self, t: &mut String, d: usize) {
        let nl = |t: &mut String, d: usize| { t.push('\n'); for _ in 0..d { t.push(' '); } };
        match self {
            J::N(x) => { let _ = write!(t, "{:.3}", x); } J::I(x) => { let _ = write!(t, "{}", x); } J::B(b) => { let _ = write!(t, "{}", b); }
            J::S(s) => { t.push('"'); for c in s.chars() { match c { '"' => t.push_str("\\\""), '\\' => t.push_str("\\\\"), '\n' => t.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(t, "\\u{:04x}", c as u32); } c => t.push(c) } } t.push('"'); }
            J::A(v) => { t.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { t.push(','); } nl(t, d + 1); x.put(t, d + 1); } t.push(']'); }
            J::O(v) => { t.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { t.push(','); } nl(t, d + 1); J::S(k.clone()).put(t, 0); t.push_str(": "); x.put(t, d + 1); } t.push('}'); }
        }
    }
}
