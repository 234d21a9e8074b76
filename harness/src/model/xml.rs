//! Rekordbox XML documents: value tree, writer with free presentation, and a small parser.
use crate::src::{Rng, Src};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Hash, PartialEq)]
pub enum V {
    T(String),
    I(i64),
    /// Bits of a finite f64.
    F(u64),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K {
    T,
    I32,
    I64,
    F,
}
pub type Attr = (&'static str, K, bool);
pub const TRACK: &[Attr] = &[
    ("TrackID", K::I32, true),
    ("Name", K::T, false),
    ("Artist", K::T, false),
    ("Composer", K::T, false),
    ("Album", K::T, false),
    ("Grouping", K::T, false),
    ("Genre", K::T, false),
    ("Kind", K::T, false),
    ("Size", K::I64, false),
    ("TotalTime", K::F, false),
    ("DiscNumber", K::I32, false),
    ("TrackNumber", K::I32, false),
    ("Year", K::I32, false),
    ("AverageBpm", K::F, false),
    ("DateModified", K::T, false),
    ("DateAdded", K::T, false),
    ("BitRate", K::I32, false),
    ("SampleRate", K::F, false),
    ("Comments", K::T, false),
    ("PlayCount", K::I32, false),
    ("LastPlayed", K::T, false),
    ("Rating", K::I32, false),
    ("Location", K::T, true),
    ("Remixer", K::T, false),
    ("Tonality", K::T, false),
    ("Label", K::T, false),
    ("Mix", K::T, false),
    ("Colour", K::T, false),
];
pub const TEMPO: &[Attr] = &[("Inizio", K::F, true), ("Bpm", K::F, true), ("Metro", K::T, true), ("Battito", K::I32, true)];
pub const MARK: &[Attr] = &[("Name", K::T, true), ("Type", K::I32, true), ("Start", K::F, true), ("End", K::F, false), ("Num", K::I32, true)];

pub type Vals = Vec<Option<V>>;
#[derive(Debug, Clone, Hash)]
pub struct TrackM {
    pub vals: Vals,
    pub tempos: Vec<Vals>,
    pub marks: Vec<Vals>,
}
#[derive(Debug, Clone, Hash)]
pub enum NodeM {
    Folder(String, Vec<NodeM>),
    Playlist { name: String, keytype: String, keys: Vec<i32> },
}
#[derive(Debug, Clone, Hash)]
pub struct DocM {
    pub version: String,
    pub product: [String; 3],
    pub entries: i32,
    pub tracks: Vec<TrackM>,
    pub root: (String, Vec<NodeM>),
}

pub fn text(s: &mut Src) -> String {
    const CS: &[char] = &[
        'a', 'Z', '0', ' ', '&', '<', '>', '"', '\'', ';', '#', '=', '/', '-', '!', '?', '[', ']', '.', '%', 'é', 'ß', '\u{85}', '\u{a0}', 'あ', '\u{2028}', '\u{feff}', '\u{fffd}', '🎵',
        '\u{10ffff}', '\t', '\n', '\r',
    ];
    match s.weighted(&[6, 3, 2, 1]) {
        0 => s.list(0, 30, 5, |s| *s.pick(CS)).into_iter().collect(),
        1 => (*s.pick(&["1", "", "&amp;", "&#10;", "<!--", "]]>", "<TRACK/>", "2020-01-31", "file://localhost/C:/a%20b.mp3", "Hip-Hop & R'n'B", "  two  spaces  ", "0xFF0000", "4/4", "true", "nil", "\r\n"])).into(),
        2 => s
            .list(0, 20, 6, |s| {
                let c = s.int(0x20, 0x10fffd) as u32;
                char::from_u32(c).filter(|c| *c as u32 & 0xfffe != 0xfffe).unwrap_or('x')
            })
            .into_iter()
            .collect(),
        _ => "long ".repeat(s.usize(1, 200)),
    }
}

fn float(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => s.int(0, 20000) as f64 / 100.0,
        1 => s.int(0, 1000) as f64 - 10.0,
        2 => s.int(0, 999_999_999) as f64 / 1e6,
        _ => {
            let f = f64::from_bits(s.below(0));
            if f.is_finite() {
                f
            } else {
                1e300
            }
        }
    }
}

fn val(s: &mut Src, k: K) -> V {
    match k {
        K::T => V::T(text(s)),
        K::I32 => V::I(i64::from(s.u32() as i32)),
        K::I64 => V::I(s.num(64) as i64),
        K::F => V::F(float(s).to_bits()),
    }
}
fn vals(s: &mut Src, t: &[Attr]) -> Vals {
    let p = s.int(0, 4);
    t.iter().map(|a| (a.2 || s.chance(p, 4)).then(|| val(s, a.1))).collect()
}
fn node(s: &mut Src, depth: u32) -> NodeM {
    if depth > 0 && s.chance(2, 5) {
        NodeM::Folder(text(s), s.list(0, 5, 2, |s| node(s, depth - 1)))
    } else {
        NodeM::Playlist { name: text(s), keytype: if s.chance(1, 4) { text(s) } else { (*s.pick(&["0", "1"])).into() }, keys: s.list(0, 8, 2, |s| s.u32() as i32) }
    }
}
fn deep(s: &mut Src) -> NodeM {
    let mut n = node(s, 4);
    if s.chance(1, 50) {
        // At most 128 levels.
        for _ in 0..s.usize(1, 123) {
            n = NodeM::Folder("f".into(), vec![n]);
        }
    }
    n
}
pub fn gen(s: &mut Src) -> DocM {
    DocM {
        version: text(s),
        product: [text(s), text(s), text(s)],
        entries: s.u32() as i32,
        tracks: s.list(0, 6, 2, |s| TrackM { vals: vals(s, TRACK), tempos: s.list(0, 5, 1, |s| vals(s, TEMPO)), marks: s.list(0, 5, 1, |s| vals(s, MARK)) }),
        root: (text(s), s.list(0, 5, 2, |s| deep(s))),
    }
}

/// Element with attributes (name, value) and children.
#[derive(Debug, Clone, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: BTreeMap<String, V>,
    pub kids: Vec<El>,
}

fn el(name: &str, attrs: Vec<(&str, V)>, kids: Vec<El>) -> El {
    El { name: name.into(), attrs: attrs.into_iter().map(|(a, v)| (a.to_string(), v)).collect(), kids }
}
fn el_vals(name: &str, t: &[Attr], v: &Vals, kids: Vec<El>) -> El {
    el(name, t.iter().zip(v).filter_map(|(a, v)| Some((a.0, v.clone()?))).collect(), kids)
}
fn node_el(n: &NodeM) -> El {
    match n {
        NodeM::Folder(name, kids) => {
            el("NODE", vec![("Type", V::T("0".into())), ("Name", V::T(name.clone())), ("Count", V::I(kids.len() as i64))], kids.iter().map(node_el).collect())
        }
        NodeM::Playlist { name, keytype, keys } => el(
            "NODE",
            vec![("Type", V::T("1".into())), ("Name", V::T(name.clone())), ("Entries", V::I(keys.len() as i64)), ("KeyType", V::T(keytype.clone()))],
            keys.iter().map(|k| el("TRACK", vec![("Key", V::I((*k).into()))], vec![])).collect(),
        ),
    }
}

impl DocM {
    pub fn tree(&self) -> El {
        let t = |s: &String| V::T(s.clone());
        let tracks = self
            .tracks
            .iter()
            .map(|m| {
                let mut kids: Vec<El> = m.tempos.iter().map(|v| el_vals("TEMPO", TEMPO, v, vec![])).collect();
                kids.extend(m.marks.iter().map(|v| el_vals("POSITION_MARK", MARK, v, vec![])));
                el_vals("TRACK", TRACK, &m.vals, kids)
            })
            .collect();
        el(
            "DJ_PLAYLISTS",
            vec![("Version", t(&self.version))],
            vec![
                el("PRODUCT", vec![("Name", t(&self.product[0])), ("Version", t(&self.product[1])), ("Company", t(&self.product[2]))], vec![]),
                el("COLLECTION", vec![("Entries", V::I(self.entries.into()))], tracks),
                el("PLAYLISTS", vec![], vec![node_el(&NodeM::Folder(self.root.0.clone(), self.root.1.clone()))]),
            ],
        )
    }
}

/// Presentation of a document: 0 is plain.
pub struct Style(Option<Rng>);
impl Style {
    pub fn new(seed: u64) -> Self {
        Style((seed != 0).then(|| Rng::new(seed)))
    }
    fn below(&mut self, n: u64) -> u64 {
        self.0.as_mut().map_or(0, |r| r.below(n))
    }
    fn space(&mut self, min: bool) -> &'static str {
        let o = if min { [" ", " ", "\n", "\t", "  \r\n "] } else { ["", "", " ", "\n  ", "\t"] };
        o[self.below(5) as usize]
    }
    fn misc(&mut self) -> String {
        let mut o = self.space(false).to_string();
        if self.below(12) == 11 {
            o += ["<!-- a <comment> & more -->", "<!---->", "<?pi some data?>"][self.below(3) as usize];
            o += self.space(false);
        }
        o
    }
    fn escape(&mut self, s: &str, quote: char) -> String {
        let mut o = String::new();
        let rate = [40, 2, 1000][self.below(3) as usize];
        for c in s.chars() {
            let must = matches!(c, '&' | '<' | '\t' | '\n' | '\r') || c == quote;
            let want = must || c == '>' || self.below(rate) == rate - 1;
            let named = match c {
                '&' => Some("&amp;"),
                '<' => Some("&lt;"),
                '>' => Some("&gt;"),
                '"' => Some("&quot;"),
                '\'' => Some("&apos;"),
                _ => None,
            };
            if !want {
                o.push(c);
                continue;
            }
            let n = c as u32;
            o += &match (self.below(4), named) {
                (0 | 1, Some(e)) => e.to_string(),
                (0 | 2, _) => format!("&#{n};"),
                (1, _) => format!("&#x{n:X};"),
                _ => format!("&#x{n:04x};"),
            };
        }
        o
    }
    fn value(&mut self, v: &V) -> String {
        match v {
            V::T(s) => s.clone(),
            V::I(i) => match self.below(6) {
                5 if *i >= 0 => format!("0{i}"),
                _ => i.to_string(),
            },
            V::F(b) => {
                let f = f64::from_bits(*b);
                match self.below(6) {
                    4 => format!("{f:e}"),
                    5 if f.fract() == 0.0 && f.abs() < 1e9 => format!("{f:.3}"),
                    3 if f.fract() == 0.0 && f.abs() < 1e9 => format!("{f:.2}"),
                    _ => f.to_string(),
                }
            }
        }
    }
    pub fn element(&mut self, e: &El, out: &mut String) {
        out.push('<');
        out.push_str(&e.name);
        let mut attrs: Vec<_> = e.attrs.iter().collect();
        for i in (1..attrs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            if self.0.is_some() {
                attrs.swap(i, j);
            }
        }
        for (k, v) in attrs {
            *out += self.space(true);
            *out += k;
            if self.below(8) == 7 {
                *out += " ";
            }
            out.push('=');
            if self.below(8) == 7 {
                *out += " ";
            }
            let q = if self.below(3) == 2 { '\'' } else { '"' };
            let v = self.value(v);
            out.push(q);
            *out += &self.escape(&v, q);
            out.push(q);
        }
        *out += self.space(false);
        if e.kids.is_empty() && self.below(3) != 2 {
            *out += "/>";
            return;
        }
        out.push('>');
        let mut kids: Vec<&El> = e.kids.iter().collect();
        // Position marks may precede the tempo marks.
        if e.kids.iter().any(|k| k.name == "TEMPO") && self.below(4) == 3 {
            kids.sort_by_key(|k| k.name == "TEMPO");
        }
        for k in kids {
            *out += &self.misc();
            self.element(k, out);
        }
        *out += &self.misc();
        *out += "</";
        *out += &e.name;
        *out += self.space(false);
        out.push('>');
    }
    pub fn document(&mut self, e: &El) -> String {
        let mut o = String::new();
        match self.below(4) {
            1 => o += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n",
            2 => o += "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>",
            3 => o += "<?xml version=\"1.0\"?>\r\n<!-- exported -->\r\n",
            _ => {}
        }
        self.element(e, &mut o);
        o += &self.misc();
        o
    }
}

/// Parser for serialised documents; attribute values come out as texts.
pub fn parse(s: &str) -> Result<El, String> {
    let mut p = Ps { s, i: 0 };
    p.misc()?;
    let e = p.element(0)?;
    p.misc()?;
    if p.i != s.len() {
        return Err(format!("text after the root element at {}", p.i));
    }
    Ok(e)
}
struct Ps<'a> {
    s: &'a str,
    i: usize,
}
impl<'a> Ps<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn ws(&mut self) {
        let r = self.rest();
        self.i += r.len() - r.trim_start_matches([' ', '\t', '\n', '\r']).len();
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            let r = self.rest();
            let end = if r.starts_with("<!--") {
                r.find("-->").map(|i| i + 3)
            } else if r.starts_with("<?") {
                r.find("?>").map(|i| i + 2)
            } else {
                return Ok(());
            };
            self.i += end.ok_or("unterminated comment or declaration")?;
        }
    }
    fn name(&mut self) -> Result<&'a str, String> {
        let r = self.rest();
        let n = r.find(|c: char| !(c.is_alphanumeric() || c == '_' || c == '-' || c == '.')).unwrap_or(r.len());
        if n == 0 {
            return Err(format!("name expected at {:?}", r.chars().take(20).collect::<String>()));
        }
        self.i += n;
        Ok(&r[..n])
    }
    fn eat(&mut self, t: &str) -> bool {
        let b = self.rest().starts_with(t);
        if b {
            self.i += t.len();
        }
        b
    }
    fn expect(&mut self, t: &str) -> Result<(), String> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("{t:?} expected at {:?}", self.rest().chars().take(20).collect::<String>()))
        }
    }
    fn element(&mut self, depth: u32) -> Result<El, String> {
        if depth > 200 {
            return Err("nested too deeply".into());
        }
        self.expect("<")?;
        let name = self.name()?.to_string();
        let mut attrs = BTreeMap::new();
        loop {
            self.ws();
            if self.eat("/>") {
                return Ok(El { name, attrs, kids: vec![] });
            }
            if self.eat(">") {
                break;
            }
            let a = self.name()?.to_string();
            self.ws();
            self.expect("=")?;
            self.ws();
            let q = if self.eat("\"") {
                '"'
            } else {
                self.expect("'")?;
                '\''
            };
            let r = self.rest();
            let n = r.find(q).ok_or("unterminated attribute")?;
            self.i += n + 1;
            if attrs.insert(a.clone(), V::T(unescape(&r[..n])?)).is_some() {
                return Err(format!("attribute {a} given twice"));
            }
        }
        let mut kids = vec![];
        loop {
            self.misc()?;
            if self.eat("</") {
                let n = self.name()?;
                if n != name {
                    return Err(format!("</{n}> closes <{name}>"));
                }
                self.ws();
                self.expect(">")?;
                return Ok(El { name, attrs, kids });
            }
            kids.push(self.element(depth + 1)?);
        }
    }
}
fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let s = s.replace("\r\n", "\n");
    let mut r = s.as_str();
    while let Some(c) = r.chars().next() {
        if c == '<' {
            return Err("raw < in an attribute".into());
        }
        if c == '&' {
            let e = r.find(';').ok_or("unterminated reference")?;
            let n = &r[1..e];
            o.push(match n {
                "amp" => '&',
                "lt" => '<',
                "gt" => '>',
                "quot" => '"',
                "apos" => '\'',
                _ => {
                    let v = n.strip_prefix("#x").map(|h| u32::from_str_radix(h, 16)).or_else(|| n.strip_prefix('#').map(str::parse));
                    v.and_then(Result::ok).and_then(char::from_u32).ok_or_else(|| format!("unknown reference &{n};"))?
                }
            });
            r = &r[e + 1..];
        } else {
            // Attribute value normalisation of raw white space.
            o.push(if matches!(c, '\t' | '\n' | '\r') { ' ' } else { c });
            r = &r[c.len_utf8()..];
        }
    }
    Ok(o)
}
