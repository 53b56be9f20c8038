//! Minimal JSON, enough for cases and observations.

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub use J::*;

impl J {
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            Obj(fields) => fields.iter().find(|f| f.0 == key).map(|f| &f.1),
            _ => None,
        }
    }
    pub fn has(&self, key: &str) -> bool { self.get(key).is_some() }
    pub fn at(&self, key: &str) -> &J {
        self.get(key).unwrap_or_else(|| fail(&format!("case has no field {}", key)))
    }
    pub fn arr(&self) -> &[J] {
        match self { Arr(items) => items, _ => fail("array expected in case") }
    }
    pub fn int(&self) -> i64 {
        match self { Int(v) => *v, _ => fail("integer expected in case") }
    }
    pub fn bool(&self) -> bool {
        match self { Bool(v) => *v, _ => fail("boolean expected in case") }
    }
    pub fn str(&self) -> &str {
        match self { Str(v) => v, _ => fail("string expected in case") }
    }
    /// Text given as array of codepoints.
    pub fn text(&self) -> String {
        self.arr().iter().map(|c| std::char::from_u32(c.int() as u32).expect("codepoint")).collect()
    }
    pub fn int_or(&self, key: &str, default: i64) -> i64 {
        self.get(key).map(J::int).unwrap_or(default)
    }
    pub fn bool_or(&self, key: &str, default: bool) -> bool {
        self.get(key).map(J::bool).unwrap_or(default)
    }
    pub fn str_or<'a>(&'a self, key: &str, default: &'a str) -> &'a str {
        self.get(key).map(J::str).unwrap_or(default)
    }
    pub fn write(&self, out: &mut String) {
        match self {
            Null => out.push_str("null"),
            Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Int(i) => out.push_str(&i.to_string()),
            Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut units = [0u16; 2];
                            for u in c.encode_utf16(&mut units) {
                                out.push_str(&format!("\\u{:04x}", u));
                            }
                        },
                        c => out.push(c),
                    }
                }
                out.push('"');
            },
            Arr(items) => {
                out.push('[');
                for (i, item) in items.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    item.write(out);
                }
                out.push(']');
            },
            Obj(fields) => {
                out.push('{');
                for (i, field) in fields.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    Str(field.0.clone()).write(out);
                    out.push(':');
                    field.1.write(out);
                }
                out.push('}');
            },
        }
    }
    pub fn to_line(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

/// Text as array of codepoints.
pub fn cps(text: &str) -> J {
    Arr(text.chars().map(|c| Int(c as i64)).collect())
}

pub fn obj(fields: Vec<(&str, J)>) -> J {
    Obj(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn s(text: &str) -> J { Str(text.to_string()) }

/// The case itself is wrong: an error of the machinery, never a verdict about the code.
pub fn fail(message: &str) -> ! {
    eprintln!("HARNESS-ERROR {}", message);
    std::process::exit(9)
}

pub fn parse(text: &str) -> J {
    let mut p = P { b: text.as_bytes(), i: 0 };
    p.ws();
    p.value()
}

struct P<'a> { b: &'a [u8], i: usize }

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() { self.i += 1; }
    }
    fn peek(&self) -> u8 {
        if self.i < self.b.len() { self.b[self.i] } else { fail("unexpected end of json") }
    }
    fn value(&mut self) -> J {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut fields = Vec::new();
                self.ws();
                while self.peek() != b'}' {
                    let key = self.string();
                    self.ws();
                    self.i += 1;
                    self.ws();
                    let value = self.value();
                    fields.push((key, value));
                    self.ws();
                    if self.peek() == b',' { self.i += 1; self.ws(); }
                }
                self.i += 1;
                Obj(fields)
            },
            b'[' => {
                self.i += 1;
                let mut items = Vec::new();
                self.ws();
                while self.peek() != b']' {
                    items.push(self.value());
                    self.ws();
                    if self.peek() == b',' { self.i += 1; self.ws(); }
                }
                self.i += 1;
                Arr(items)
            },
            b'"' => Str(self.string()),
            b't' => { self.i += 4; Bool(true) },
            b'f' => { self.i += 5; Bool(false) },
            b'n' => { self.i += 4; Null },
            _ => {
                let start = self.i;
                while self.i < self.b.len() && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit()) {
                    self.i += 1;
                }
                let text = std::str::from_utf8(&self.b[start..self.i]).unwrap();
                Int(text.parse().unwrap_or_else(|_| fail(&format!("bad number '{}'", text))))
            },
        }
    }
    fn string(&mut self) -> String {
        self.i += 1;
        let mut out = Vec::new();
        loop {
            match self.peek() {
                b'"' => { self.i += 1; return String::from_utf8(out).expect("utf8"); },
                b'\\' => {
                    let c = self.b[self.i + 1];
                    self.i += 2;
                    match c {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'u' => {
                            let hex = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                            self.i += 4;
                            let c = std::char::from_u32(u32::from_str_radix(hex, 16).unwrap()).unwrap();
                            let mut buf = [0; 4];
                            out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                        },
                        c => out.push(c),
                    }
                },
                c => { out.push(c); self.i += 1; },
            }
        }
    }
}
