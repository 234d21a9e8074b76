//! Parser for derived `Debug` output, so that private fields can be compared by name. A name that
//! is not there is "unobserved", never a failure.

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    Node(String, Vec<(String, D)>),
    List(Vec<D>),
    Tok(String),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Option<D> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let d = p.value()?;
    p.ws();
    (p.i == p.b.len()).then_some(d)
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.b.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        (self.peek()? == c).then(|| self.i += 1)
    }
    fn word(&mut self) -> String {
        self.ws();
        let s = self.i;
        while self.i < self.b.len() && !b"{}()[],: \n\"".contains(&self.b[self.i]) {
            self.i += 1;
        }
        // Paths such as a::b
        String::from_utf8_lossy(&self.b[s..self.i]).into_owned()
    }
    fn value(&mut self) -> Option<D> {
        match self.peek()? {
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                while self.peek()? != b']' {
                    v.push(self.value()?);
                    if self.peek()? == b',' {
                        self.i += 1;
                    }
                }
                self.i += 1;
                Some(D::List(v))
            }
            b'"' => {
                let s = self.i;
                self.i += 1;
                while *self.b.get(self.i)? != b'"' {
                    if self.b[self.i] == b'\\' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                self.i += 1;
                Some(D::Tok(String::from_utf8_lossy(&self.b[s + 1..self.i - 1]).into_owned()))
            }
            b'{' => self.body(String::new()),
            b'(' => self.body(String::new()),
            _ => {
                let w = self.word();
                if w == "DeviceSQLString" && self.b.get(self.i) == Some(&b'(') {
                    self.i += 1;
                    let s = self.i;
                    while *self.b.get(self.i)? != b')' {
                        self.i += 1;
                    }
                    let t = String::from_utf8_lossy(&self.b[s..self.i]).into_owned();
                    self.i += 1;
                    return Some(D::Tok(t));
                }
                match self.peek() {
                    Some(b'{') | Some(b'(') => self.body(w),
                    _ if w.is_empty() => None,
                    _ => Some(D::Tok(w)),
                }
            }
        }
    }
    fn body(&mut self, name: String) -> Option<D> {
        let open = self.peek()?;
        self.i += 1;
        let close = if open == b'{' { b'}' } else { b')' };
        let mut f = vec![];
        while self.peek()? != close {
            if open == b'{' {
                let k = match self.value()? {
                    D::Tok(t) => t,
                    d => format!("{d:?}"),
                };
                self.eat(b':')?;
                f.push((k, self.value()?));
            } else {
                let k = f.len().to_string();
                f.push((k, self.value()?));
            }
            if self.peek()? == b',' {
                self.i += 1;
            }
        }
        self.i += 1;
        Some(D::Node(name, f))
    }
}

impl D {
    pub fn get(&self, path: &str) -> Option<&D> {
        let mut d = self;
        for k in path.split('.') {
            d = match d {
                D::Node(_, f) => &f.iter().find(|(n, _)| n == k)?.1,
                D::List(v) => v.get(k.parse::<usize>().ok()?)?,
                D::Tok(_) => return None,
            };
        }
        Some(d)
    }
    /// Unwraps single-element tuple nodes down to a token.
    pub fn tok(&self) -> Option<&str> {
        match self {
            D::Tok(t) => Some(t),
            D::Node(_, f) if f.len() == 1 && f[0].0 == "0" => f[0].1.tok(),
            _ => None,
        }
    }
}

/// Compare expected `(path, token)` pairs; returns the number observed.
pub fn compare(d: &D, expected: &[(String, String)]) -> Result<usize, String> {
    let mut n = 0;
    for (p, e) in expected {
        if let Some(t) = d.get(p).and_then(D::tok) {
            n += 1;
            if t != e {
                return Err(format!("field {p}: decoded {t:?}, the bytes say {e:?}"));
            }
        }
    }
    Ok(n)
}
