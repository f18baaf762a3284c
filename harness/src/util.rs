use std::collections::HashMap;
use std::io::{stdin, BufRead};

pub type Fields = HashMap<String, String>;

/// Lines of `key=value` tokens.
pub fn cases() -> impl Iterator<Item = Fields> {
    stdin().lock().lines().map(|l| {
        l.expect("stdin")
            .split_whitespace()
            .map(|t| {
                let (k, v) = t.split_once('=').expect("token without =");
                (k.to_owned(), v.to_owned())
            })
            .collect()
    })
}

pub fn hex_bytes(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}
pub fn hex(s: &str) -> u32 {
    u32::from_str_radix(s, 16).expect("hex number")
}
pub fn nums<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let v: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\u{:04x}", c as u32 & 0xffff)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn bytes_of(s: &str) -> String {
    nums(s.as_bytes().iter())
}
