//! Minimal JSON output.
#[derive(Clone, Debug)]
pub enum J {
    B(bool),
    I(i64),
    N(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn show(&self, ind: usize) -> String {
        let pad = " ".repeat(ind + 1);
        match self {
            J::B(b) => b.to_string(),
            J::I(i) => i.to_string(),
            J::N(n) => format!("{:.3}", n),
            J::S(s) => esc(s),
            J::A(v) if v.is_empty() => "[]".into(),
            J::A(v) => {
                let x: Vec<String> = v.iter().map(|e| format!("{}{}", pad, e.show(ind + 1))).collect();
                format!("[\n{}\n{}]", x.join(",\n"), " ".repeat(ind))
            }
            J::O(v) => {
                let x: Vec<String> = v.iter().map(|(k, e)| format!("{}{}: {}", pad, esc(k), e.show(ind + 1))).collect();
                format!("{{\n{}\n{}}}", x.join(",\n"), " ".repeat(ind))
            }
        }
    }
}
#[macro_export]
macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k.to_string(), $v)),*]) } }
