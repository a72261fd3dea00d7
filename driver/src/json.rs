use std::fmt::Write;

pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
pub fn i<T: TryInto<i128>>(x: T) -> J {
    J::I(x.try_into().unwrap_or(-1))
}

fn esc(out: &mut String, v: &str) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    pub fn render(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(out, "{}", n);
            }
            J::S(v) => esc(out, v),
            J::A(v) => {
                out.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    x.render(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    esc(out, n);
                    out.push(':');
                    x.render(out);
                }
                out.push('}');
            }
            J::M(v) => {
                out.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    esc(out, n);
                    out.push(':');
                    x.render(out);
                }
                out.push('}');
            }
        }
    }
}
