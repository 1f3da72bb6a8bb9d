//! Just enough JSON to write evidence files.

use std::fmt::{Display, Formatter, Result};

pub enum Json {
    Int(u64),
    Num(f64),
    Bool(bool),
    Str(String),
    Array(Vec<Json>),
    Object(Vec<(&'static str, Json)>),
}

impl Display for Json {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        match self {
            Json::Int(v) => write!(f, "{v}"),
            Json::Num(v) => write!(f, "{v:.3}"),
            Json::Bool(v) => write!(f, "{v}"),
            Json::Str(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        c if (c as u32) < 0x20 => write!(f, "\\u{:04x}", c as u32)?,
                        c => write!(f, "{c}")?,
                    }
                }
                write!(f, "\"")
            }
            Json::Array(items) => {
                write!(f, "[")?;
                for (i, item) in items.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",\n")?;
                    }
                    write!(f, "{item}")?;
                }
                write!(f, "]")
            }
            Json::Object(fields) => {
                write!(f, "{{")?;
                for (i, (key, value)) in fields.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",\n")?;
                    }
                    write!(f, "\"{key}\": {value}")?;
                }
                write!(f, "}}")
            }
        }
    }
}
