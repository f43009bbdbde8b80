//! A small JSON reader and writer, which keeps numbers as written.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        (self.b.get(self.i) == Some(&c)).then(|| self.i += 1)
    }
    fn word(&mut self, w: &str, j: J) -> Option<J> {
        self.b[self.i..].starts_with(w.as_bytes()).then(|| {
            self.i += w.len();
            j
        })
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut v = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(v).ok(),
                b'\\' => {
                    let c = *self.b.get(self.i)?;
                    self.i += 1;
                    match c {
                        b'n' => v.push(b'\n'),
                        b't' => v.push(b'\t'),
                        b'r' => v.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
                            self.i += 4;
                            let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                            v.extend(c.to_string().bytes());
                        }
                        c => v.push(c),
                    }
                }
                c => v.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        match *self.b.get(self.i)? {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => Some(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b']').is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.eat(b']').is_some() {
                        return Some(J::Arr(v));
                    }
                    self.eat(b',')?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b'}').is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    if self.eat(b'}').is_some() {
                        return Some(J::Obj(v));
                    }
                    self.eat(b',')?;
                }
            }
            _ => {
                let s = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    self.i += 1;
                }
                (self.i > s).then(|| J::Num(String::from_utf8_lossy(&self.b[s..self.i]).into_owned()))
            }
        }
    }
}

impl J {
    pub fn parse(s: &str) -> Option<J> {
        let mut p = P { b: s.as_bytes(), i: 0 };
        let v = p.value()?;
        p.ws();
        (p.i == s.len()).then_some(v)
    }
    pub fn text(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Num(n) => n.clone(),
            J::Str(s) => quote(s),
            J::Arr(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            J::Obj(v) => {
                format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", quote(k), x.text())).collect::<Vec<_>>().join(","))
            }
        }
    }
    /// The value at a path of positions.
    pub fn at(&mut self, path: &[usize]) -> Option<&mut J> {
        let Some((i, rest)) = path.split_first() else { return Some(self) };
        match self {
            J::Arr(v) => v.get_mut(*i)?.at(rest),
            J::Obj(v) => v.get_mut(*i)?.1.at(rest),
            _ => None,
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            J::Num(n) => n.parse().ok(),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::Num(n) => n.parse().ok(),
            _ => None,
        }
    }
}
