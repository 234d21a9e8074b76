use crate::src::Src;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Str {
    /// Encoded in the form the constructor picks: short ASCII, long ASCII or UTF-16.
    Auto(String),
    /// ASCII kept in the long form although it would fit the short one.
    LongAscii(String),
    /// ASCII kept in the UTF-16 form.
    WideAscii(String),
    Isrc(String),
}

impl std::fmt::Debug for Str {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (n, s) = match self {
            Str::Auto(s) => ("", s),
            Str::LongAscii(s) => ("long:", s),
            Str::WideAscii(s) => ("wide:", s),
            Str::Isrc(s) => ("isrc:", s),
        };
        if s.len() > 200 {
            let mut e = 60;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            write!(f, "{n}{:?}..[{} bytes]", &s[..e], s.len())
        } else {
            write!(f, "{n}{s:?}")
        }
    }
}

pub fn long(flags: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![flags];
    v.extend_from_slice(&((content.len() + 4) as u16).to_le_bytes());
    v.push(0);
    v.extend_from_slice(content);
    v
}

pub fn utf16le(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(u16::to_le_bytes).collect()
}

/// The byte pattern of an ISRC inside a UTF-16 body: 0x03, printable ASCII, NUL. A UTF-16 string
/// with these very bytes cannot be told apart from an ISRC (known finding `isrc-lookalike`).
pub fn looks_like_isrc(body: &[u8]) -> bool {
    body.len() >= 3
        && body[0] == 3
        && body[body.len() - 1] == 0
        && body[1..body.len() - 1].iter().all(|b| (0x20..0x7f).contains(b))
}

impl Str {
    pub fn text(&self) -> &str {
        match self {
            Str::Auto(s) | Str::LongAscii(s) | Str::WideAscii(s) | Str::Isrc(s) => s,
        }
    }
    pub fn is_wide(&self) -> bool {
        match self {
            Str::Auto(s) => !s.is_ascii(),
            Str::WideAscii(_) => true,
            _ => false,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Str::Auto(s) if s.is_ascii() && s.len() <= 126 => {
                let mut v = vec![(((s.len() as u16 + 1) << 1) | 1) as u8];
                v.extend_from_slice(s.as_bytes());
                v
            }
            Str::Auto(s) if s.is_ascii() => long(0x40, s.as_bytes()),
            Str::Auto(s) | Str::WideAscii(s) => long(0x90, &utf16le(s)),
            Str::LongAscii(s) => long(0x40, s.as_bytes()),
            Str::Isrc(s) => {
                let mut b = vec![3];
                b.extend_from_slice(s.as_bytes());
                b.push(0);
                long(0x90, &b)
            }
        }
    }
    /// Whether this value is inside the ambiguous class.
    pub fn ambiguous(&self) -> bool {
        self.is_wide() && looks_like_isrc(&utf16le(self.text()))
    }
}

pub fn ascii_char(s: &mut Src) -> char {
    match s.weighted(&[8, 3, 2, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => (0x20 + s.below(0x5f) as u8) as char,
        2 => *s.pick(&['0', '9', '/', '.', '-', '_', ' ', '\'', '"', '\\']),
        _ => s.below(128) as u8 as char,
    }
}

pub fn wide_char(s: &mut Src) -> char {
    match s.weighted(&[4, 3, 3, 2, 2, 1]) {
        0 => char::from_u32(0xC0 + s.below(0x40) as u32).unwrap(),
        // Low byte 0x03: the first content byte is the one that marks an ISRC.
        1 => char::from_u32(0x0103 + 0x100 * s.below(0xD0) as u32).unwrap_or('\u{103}'),
        2 => char::from_u32(0x3040 + s.below(0x6000) as u32).unwrap_or('あ'),
        3 => char::from_u32(0x1F300 + s.below(0x300) as u32).unwrap_or('🎵'),
        4 => char::from_u32(0x80 + s.below(0xD780) as u32).unwrap_or('é'),
        _ => *s.pick(&['\u{80}', '\u{ff}', '\u{100}', '\u{300}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}']),
    }
}

pub fn ascii_text(s: &mut Src, max: usize) -> String {
    let n = match s.weighted(&[6, 2, 2]) {
        0 => s.usize(0, 12.min(max)),
        1 => s.usize(0, max.min(60)),
        _ => s.usize(120.min(max), 132.min(max)),
    };
    if n > 16 {
        let f = s.fill(n);
        return f.iter().map(|b| (0x20 + (b % 0x5f)) as char).collect();
    }
    (0..n).map(|_| ascii_char(s)).collect()
}

/// Non-ASCII text of at most `max` chars.
pub fn wide_text(s: &mut Src, max: usize) -> String {
    let n = s.usize(1, max.min(12).max(1));
    let mut t: Vec<char> = (0..n).map(|_| if s.chance(2, 3) { wide_char(s) } else { ascii_char(s) }).collect();
    if t.iter().all(char::is_ascii) {
        let i = s.usize(0, t.len() - 1);
        t[i] = wide_char(s);
    }
    t.into_iter().collect()
}

pub fn text(s: &mut Src, max: usize) -> String {
    if s.chance(1, 3) {
        wide_text(s, max)
    } else {
        ascii_text(s, max)
    }
}

pub fn isrc(s: &mut Src) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    (0..12).map(|_| A[s.below(36) as usize] as char).collect()
}

/// Any string value that a file may hold, outside the ambiguous class.
pub fn any(s: &mut Src, max: usize) -> Str {
    let v = match s.weighted(&[10, 5, 2, 1, 1]) {
        0 => Str::Auto(ascii_text(s, max)),
        1 => Str::Auto(wide_text(s, max)),
        2 => Str::LongAscii(ascii_text(s, max)),
        3 => Str::WideAscii(ascii_text(s, max.min(40))),
        _ => Str::Isrc(isrc(s)),
    };
    if v.ambiguous() {
        Str::Auto("x".into())
    } else {
        v
    }
}

/// Text that survives a Debug dump unambiguously.
pub fn plain(s: &mut Src, max: usize) -> Str {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789";
    let n = s.usize(1, max.max(1));
    let t: String = (0..n).map(|_| A[s.below(A.len() as u64) as usize] as char).collect();
    match s.weighted(&[6, 1, 1, 1]) {
        0 => Str::Auto(t),
        1 => Str::LongAscii(t),
        2 => Str::Auto(format!("{t}é")),
        _ => Str::WideAscii(t),
    }
}
