//! A small strict JSON reader that keeps duplicate keys and raw numbers, and
//! notes constructs on which reasonable readers differ.

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct Parsed {
    pub v: J,
    /// Something implementations legitimately disagree on was seen.
    pub odd: bool,
}

/// `None`: not JSON. `Some` with `odd`: do not judge.
pub fn parse(b: &[u8]) -> Option<Parsed> {
    let s = std::str::from_utf8(b).ok()?;
    let mut p = P { c: s.as_bytes(), s, i: 0, odd: false };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.c.len() {
        return None;
    }
    Some(Parsed { v, odd: p.odd })
}

struct P<'a> {
    c: &'a [u8],
    s: &'a str,
    i: usize,
    odd: bool,
}

impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.c.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> Option<()> {
        if self.c[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self, d: usize) -> Option<J> {
        if d > 60 {
            self.odd = true;
        }
        if d > 400 {
            return None;
        }
        match self.peek()? {
            b'n' => self.eat("null").map(|_| J::Null),
            b't' => self.eat("true").map(|_| J::Bool(true)),
            b'f' => self.eat("false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("]").is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(d + 1)?);
                    self.ws();
                    if self.eat("]").is_some() {
                        return Some(J::Arr(v));
                    }
                    self.eat(",")?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.eat("}").is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(":")?;
                    self.ws();
                    let x = self.value(d + 1)?;
                    if v.iter().any(|y| y.0 == k) {
                        self.odd = true;
                    }
                    v.push((k, x));
                    self.ws();
                    if self.eat("}").is_some() {
                        return Some(J::Obj(v));
                    }
                    self.eat(",")?;
                }
            }
            _ => self.number(),
        }
    }
    fn number(&mut self) -> Option<J> {
        let st = self.i;
        let _ = self.eat("-");
        let digits = |p: &mut Self| {
            let s = p.i;
            while matches!(p.peek(), Some(b'0'..=b'9')) {
                p.i += 1;
            }
            p.i - s
        };
        let first = self.peek()?;
        let n = digits(self);
        if n == 0 || (n > 1 && first == b'0') {
            return None;
        }
        if self.eat(".").is_some() && digits(self) == 0 {
            return None;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if digits(self) == 0 {
                return None;
            }
        }
        Some(J::Num(self.s[st..self.i].to_string()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.s.get(self.i..self.i + 4)?;
        if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
            return None;
        }
        self.i += 4;
        u32::from_str_radix(h, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut o = String::new();
        loop {
            let ch = self.s[self.i..].chars().next()?;
            self.i += ch.len_utf8();
            match ch {
                '"' => return Some(o),
                '\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    match e {
                        b'"' => o.push('"'),
                        b'\\' => o.push('\\'),
                        b'/' => o.push('/'),
                        b'b' => o.push('\u{8}'),
                        b'f' => o.push('\u{c}'),
                        b'n' => o.push('\n'),
                        b'r' => o.push('\r'),
                        b't' => o.push('\t'),
                        b'u' => {
                            let mut c = self.hex4()?;
                            if (0xd800..0xdc00).contains(&c) && self.eat("\\u").is_some() {
                                let d = self.hex4()?;
                                if (0xdc00..0xe000).contains(&d) {
                                    c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
                                }
                            }
                            match char::from_u32(c) {
                                Some(x) => o.push(x),
                                None => {
                                    self.odd = true;
                                    o.push('\u{fffd}');
                                }
                            }
                        }
                        _ => return None,
                    }
                }
                c if (c as u32) < 0x20 => return None,
                c => o.push(c),
            }
        }
    }
}

/// A number token that is a plain non-negative integer.
pub fn uint(t: &str) -> Option<u128> {
    if t.bytes().all(|b| b.is_ascii_digit()) {
        t.parse().ok()
    } else {
        None
    }
}

pub fn quote(s: &str, style: u8) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if style & 1 == 1 && !c.is_ascii() => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04X}"));
                }
            }
            '/' if style & 2 == 2 => o.push_str("\\/"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
