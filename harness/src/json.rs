//! Just enough JSON, so that the harness needs nothing but what the crate under test needs.

use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> String {
        self.get(k).and_then(|j| j.as_str()).unwrap_or("").to_owned()
    }
}

pub fn s(v: &str) -> String {
    let mut o = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn obj(fields: &[(&str, String)]) -> String {
    let v: Vec<String> = fields.iter().map(|(k, v)| format!("{}: {}", s(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn obj_owned(fields: Vec<(String, String)>) -> String {
    let v: Vec<String> = fields.iter().map(|(k, v)| format!("{}: {}", s(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn arr(items: &[String]) -> String {
    format!("[{}]", items.join(", "))
}

pub fn parse(text: &str) -> Result<J, String> {
    let mut p = P {
        b: text.as_bytes(),
        i: 0,
    };
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.i))
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.b.get(self.i) {
            Some(b'{') => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let J::Str(k) = self.value()? else {
                        return Err("key".into());
                    };
                    self.eat(b':')?;
                    m.insert(k, self.value()?);
                    self.ws();
                    if self.b.get(self.i) == Some(&b',') {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b'}')?;
                    return Ok(J::Obj(m));
                }
            }
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.b.get(self.i) == Some(&b',') {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b']')?;
                    return Ok(J::Arr(v));
                }
            }
            Some(b'"') => {
                self.i += 1;
                let mut out: Vec<u8> = vec![];
                loop {
                    match self.b.get(self.i) {
                        None => return Err("unterminated string".into()),
                        Some(b'"') => {
                            self.i += 1;
                            return String::from_utf8(out).map(J::Str).map_err(|e| e.to_string());
                        }
                        Some(b'\\') => {
                            let e = *self.b.get(self.i + 1).ok_or("escape")?;
                            self.i += 2;
                            match e {
                                b'n' => out.push(b'\n'),
                                b'r' => out.push(b'\r'),
                                b't' => out.push(b'\t'),
                                b'b' => out.push(8),
                                b'f' => out.push(12),
                                b'u' => {
                                    let h = std::str::from_utf8(
                                        self.b.get(self.i..self.i + 4).ok_or("\\u")?,
                                    )
                                    .map_err(|e| e.to_string())?;
                                    let mut n =
                                        u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                    self.i += 4;
                                    if (0xd800..0xdc00).contains(&n) {
                                        let h = std::str::from_utf8(
                                            self.b.get(self.i + 2..self.i + 6).ok_or("\\u")?,
                                        )
                                        .map_err(|e| e.to_string())?;
                                        let l = u32::from_str_radix(h, 16)
                                            .map_err(|e| e.to_string())?;
                                        self.i += 6;
                                        n = 0x10000 + ((n - 0xd800) << 10) + (l.wrapping_sub(0xdc00) & 0x3ff);
                                    }
                                    let c = char::from_u32(n).ok_or("surrogate")?;
                                    out.extend(c.encode_utf8(&mut [0; 4]).bytes());
                                }
                                c => out.push(c),
                            }
                        }
                        Some(&c) => {
                            out.push(c);
                            self.i += 1;
                        }
                    }
                }
            }
            Some(b't') if self.b[self.i..].starts_with(b"true") => {
                self.i += 4;
                Ok(J::Bool(true))
            }
            Some(b'f') if self.b[self.i..].starts_with(b"false") => {
                self.i += 5;
                Ok(J::Bool(false))
            }
            Some(b'n') if self.b[self.i..].starts_with(b"null") => {
                self.i += 4;
                Ok(J::Null)
            }
            Some(_) => {
                let s = self.i;
                while self.i < self.b.len()
                    && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9')
                {
                    self.i += 1;
                }
                std::str::from_utf8(&self.b[s..self.i])
                    .ok()
                    .and_then(|t| t.parse().ok())
                    .map(J::Num)
                    .ok_or_else(|| format!("bad value at {s}"))
            }
            None => Err("end".into()),
        }
    }
}
