//! Reference model of analysis files: values, their big-endian encoding, song-structure encryption.
use crate::src::Src;

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct CueM {
    pub head_size: u32,
    pub hot_cue: u32,
    pub status: u32,
    pub unknown1: u32,
    pub order_first: u16,
    pub order_last: u16,
    pub looped: bool,
    pub unknown2: u8,
    pub unknown3: u16,
    pub time: u32,
    pub loop_time: u32,
    pub rest: [u32; 4],
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct ExtM {
    pub head_size: u32,
    pub hot_cue: u32,
    pub looped: bool,
    pub unknown1: u8,
    pub unknown2: u16,
    pub time: u32,
    pub loop_time: u32,
    pub color: u8,
    pub unknown3: u8,
    pub unknown4: u16,
    pub unknown5: u32,
    pub num: u16,
    pub den: u16,
    pub comment: String,
    pub color_index: u8,
    pub rgb: (u8, u8, u8),
    pub rest: [u32; 5],
    pub trailing: Vec<u8>,
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Song {
    pub encrypted: bool,
    pub mood: u8,
    pub unknown1: u32,
    pub unknown2: u16,
    pub end_beat: u16,
    pub unknown3: u16,
    pub bank: u8,
    pub unknown4: u8,
    pub phrases: Vec<[u8; 24]>,
}

#[derive(Clone, Hash, PartialEq)]
pub enum Sec {
    Beats { u1: u32, u2: u32, beats: Vec<(u16, u16, u32)> },
    Cues { hot: bool, unknown: u16, memory: u32, cues: Vec<CueM> },
    ExtCues { hot: bool, cues: Vec<ExtM> },
    Path(String),
    Vbr { u1: u32, data: Vec<u8> },
    Preview { unknown: u32, data: Vec<u8> },
    Tiny { unknown: u32, data: Vec<u8> },
    Detail(Vec<u8>),
    ColorPreview { unknown: u32, data: Vec<[u8; 6]> },
    ColorDetail { unknown: u32, data: Vec<u16> },
    BandPreview(Vec<[u8; 3]>),
    BandDetail(Vec<[u8; 3]>),
    Song(Song),
    Unknown { tag: [u8; 4], head: Vec<u8>, data: Vec<u8> },
}

impl std::fmt::Debug for Sec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Sec::Beats { u1, u2, beats } => write!(f, "Beats({u1:#x},{u2:#x},{beats:?})"),
            Sec::Cues { hot, unknown, memory, cues } => write!(f, "Cues(hot:{hot},{unknown},{memory},{cues:?})"),
            Sec::ExtCues { hot, cues } => write!(f, "ExtCues(hot:{hot},{cues:?})"),
            Sec::Path(p) => write!(f, "Path({p:?})"),
            Sec::Song(s) => write!(f, "{s:?}"),
            s => {
                let b = s.encode();
                write!(f, "{}[{} bytes]", String::from_utf8_lossy(&b[..4]), b.len())
            }
        }
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct File {
    pub head: Vec<u8>,
    pub secs: Vec<Sec>,
}

pub const KNOWN_TAGS: &[&[u8; 4]] = &[
    b"PMAI", b"PQTZ", b"PCOB", b"PCO2", b"PCP2", b"PCPT", b"PPTH", b"PVBR", b"PWAV", b"PWV2", b"PWV3", b"PWV4", b"PWV5",
    b"PWV6", b"PWV7", b"PSSI",
];

const KEY: [u8; 19] = [
    0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8, 0xE9, 0xF4, 0xE1,
];

pub fn mask(body: &mut [u8], len_entries: usize) {
    for (i, b) in body.iter_mut().enumerate() {
        *b ^= ((u32::from(KEY[i % 19]) + len_entries as u32) % 256) as u8;
    }
}

#[derive(Default)]
struct W(Vec<u8>);
impl W {
    fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    fn u16(&mut self, v: u16) -> &mut Self {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    fn u32(&mut self, v: u32) -> &mut Self {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    fn raw(&mut self, v: &[u8]) -> &mut Self {
        self.0.extend_from_slice(v);
        self
    }
}

fn section(tag: &[u8; 4], head: &[u8], body: &[u8]) -> Vec<u8> {
    let size = 12 + head.len();
    let mut w = W::default();
    w.raw(tag).u32(size as u32).u32((size + body.len()) as u32).raw(head).raw(body);
    w.0
}

pub fn utf16be(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(u16::to_be_bytes).collect()
}

impl CueM {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::default();
        w.raw(b"PCPT").u32(self.head_size).u32(56).u32(self.hot_cue).u32(self.status).u32(self.unknown1);
        w.u16(self.order_first).u16(self.order_last).u8(1 + u8::from(self.looped)).u8(self.unknown2).u16(self.unknown3);
        w.u32(self.time).u32(self.loop_time);
        for r in self.rest {
            w.u32(r);
        }
        assert_eq!(w.0.len(), 56);
        w.0
    }
}

impl ExtM {
    pub fn comment_bytes(&self) -> Vec<u8> {
        if self.comment.is_empty() {
            return vec![];
        }
        let mut b = utf16be(&self.comment);
        // Blank comments have no terminator.
        if b.iter().any(|x| *x != 0) {
            b.extend_from_slice(&[0, 0]);
        }
        b
    }
    pub fn total(&self) -> u32 {
        (68 + self.comment_bytes().len() + self.trailing.len()) as u32
    }
    pub fn encode(&self) -> Vec<u8> {
        let c = self.comment_bytes();
        let mut w = W::default();
        w.raw(b"PCP2").u32(self.head_size).u32(self.total()).u32(self.hot_cue);
        w.u8(1 + u8::from(self.looped)).u8(self.unknown1).u16(self.unknown2).u32(self.time).u32(self.loop_time);
        w.u8(self.color).u8(self.unknown3).u16(self.unknown4).u32(self.unknown5).u16(self.num).u16(self.den);
        w.u32(c.len() as u32).raw(&c);
        w.u8(self.color_index).u8(self.rgb.0).u8(self.rgb.1).u8(self.rgb.2);
        for r in self.rest {
            w.u32(r);
        }
        w.raw(&self.trailing);
        assert_eq!(w.0.len() as u32, self.total());
        w.0
    }
}

impl Song {
    pub fn encode(&self) -> Vec<u8> {
        let n = self.phrases.len();
        let mut d = W::default();
        d.u16(u16::from(self.mood)).u32(self.unknown1).u16(self.unknown2).u16(self.end_beat).u16(self.unknown3);
        d.u8(self.bank).u8(self.unknown4);
        for p in &self.phrases {
            d.raw(p);
        }
        if self.encrypted {
            mask(&mut d.0, n);
        }
        let mut h = W::default();
        h.u32(24).u16(n as u16).raw(&d.0[..14]);
        section(b"PSSI", &h.0, &d.0[14..])
    }
}

impl Sec {
    pub fn encode(&self) -> Vec<u8> {
        let mut h = W::default();
        let mut b = W::default();
        match self {
            Sec::Beats { u1, u2, beats } => {
                h.u32(*u1).u32(*u2).u32(beats.len() as u32);
                for (n, t, ms) in beats {
                    b.u16(*n).u16(*t).u32(*ms);
                }
                section(b"PQTZ", &h.0, &b.0)
            }
            Sec::Cues { hot, unknown, memory, cues } => {
                h.u32(u32::from(*hot)).u16(*unknown).u16(cues.len() as u16).u32(*memory);
                for c in cues {
                    b.raw(&c.encode());
                }
                section(b"PCOB", &h.0, &b.0)
            }
            Sec::ExtCues { hot, cues } => {
                h.u32(u32::from(*hot)).u16(cues.len() as u16).u16(0);
                for c in cues {
                    b.raw(&c.encode());
                }
                section(b"PCO2", &h.0, &b.0)
            }
            Sec::Path(p) => {
                let mut t = utf16be(p);
                t.extend_from_slice(&[0, 0]);
                h.u32(t.len() as u32);
                section(b"PPTH", &h.0, &t)
            }
            Sec::Vbr { u1, data } => {
                h.u32(*u1);
                section(b"PVBR", &h.0, data)
            }
            Sec::Preview { unknown, data } => {
                h.u32(data.len() as u32).u32(*unknown);
                section(b"PWAV", &h.0, data)
            }
            Sec::Tiny { unknown, data } => {
                h.u32(data.len() as u32).u32(*unknown);
                section(b"PWV2", &h.0, data)
            }
            Sec::Detail(data) => {
                h.u32(1).u32(data.len() as u32).u32(0x0096_0000);
                section(b"PWV3", &h.0, data)
            }
            Sec::ColorPreview { unknown, data } => {
                h.u32(6).u32(data.len() as u32).u32(*unknown);
                section(b"PWV4", &h.0, &data.concat())
            }
            Sec::ColorDetail { unknown, data } => {
                h.u32(2).u32(data.len() as u32).u32(*unknown);
                for v in data {
                    b.u16(*v);
                }
                section(b"PWV5", &h.0, &b.0)
            }
            Sec::BandPreview(data) => {
                h.u32(3).u32(data.len() as u32);
                section(b"PWV6", &h.0, &data.concat())
            }
            Sec::BandDetail(data) => {
                h.u32(3).u32(data.len() as u32).u32(0x0096_0000);
                section(b"PWV7", &h.0, &data.concat())
            }
            Sec::Song(s) => s.encode(),
            Sec::Unknown { tag, head, data } => section(tag, head, data),
        }
    }
}

impl File {
    pub fn encode(&self) -> Vec<u8> {
        let body: Vec<u8> = self.secs.iter().flat_map(Sec::encode).collect();
        section(b"PMAI", &self.head, &body)
    }
}

pub fn text(s: &mut Src, max: usize) -> String {
    let style = s.below(4);
    let mean = *s.pick(&[3, 8, 30]);
    s.list(0, max, mean, |s| match style {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => char::from_u32(s.int(1, 0xff) as u32).unwrap_or('x'),
        2 => char::from_u32(s.int(0x100, 0xd7ff) as u32).unwrap_or('x'),
        _ => match s.below(5) {
            0 => char::from_u32(s.int(0x1_0000, 0x10_ffff) as u32).unwrap_or('x'),
            1 => *s.pick(&['/', '"', '\\', '\u{feff}', '\u{fffe}', '\u{e000}', '\u{ffff}', '\u{1}']),
            2 => char::from_u32(s.int(0xe000, 0xffff) as u32).unwrap_or('x'),
            // One zero byte in each half.
            3 => char::from_u32((s.int(1, 0xd7) << 8) as u32).unwrap_or('x'),
            _ => (b' ' + s.below(95) as u8) as char,
        },
    })
    .into_iter()
    .collect()
}

/// Texts that may hold zeros, also at their end.
fn comment(s: &mut Src) -> String {
    if s.chance(1, 3) {
        return String::new();
    }
    let mut t = text(s, 120);
    match s.below(12) {
        0 => t += &"\0".repeat(s.usize(1, 4)),
        1 => t.insert(0, '\0'),
        2 => t = t.chars().flat_map(|c| [c, '\0']).collect(),
        _ => {}
    }
    t
}

fn count(s: &mut Src) -> usize {
    match s.weighted(&[6, 3, 1]) {
        0 => s.usize(0, 6),
        1 => s.usize(0, 60),
        _ => s.usize(0, 1500),
    }
}

pub fn cue(s: &mut Src) -> CueM {
    CueM {
        head_size: if s.chance(1, 8) { s.int(12, 56) as u32 } else { 28 },
        hot_cue: s.u32(),
        status: *s.pick(&[0, 4, 1]),
        unknown1: s.u32(),
        order_first: s.u16(),
        order_last: s.u16(),
        looped: s.bool(),
        unknown2: s.u8(),
        unknown3: s.u16(),
        time: s.u32(),
        loop_time: s.u32(),
        rest: [s.u32(), s.u32(), s.u32(), s.u32()],
    }
}

pub fn ext_cue(s: &mut Src) -> ExtM {
    ExtM {
        head_size: if s.chance(1, 8) { s.int(12, 60) as u32 } else { 16 },
        hot_cue: s.u32(),
        looped: s.bool(),
        unknown1: s.u8(),
        unknown2: s.u16(),
        time: s.u32(),
        loop_time: s.u32(),
        color: s.below(9) as u8,
        unknown3: s.u8(),
        unknown4: s.u16(),
        unknown5: s.u32(),
        num: s.u16(),
        den: s.u16(),
        comment: comment(s),
        color_index: s.u8(),
        rgb: (s.u8(), s.u8(), s.u8()),
        rest: [s.u32(), s.u32(), s.u32(), s.u32(), s.u32()],
        trailing: {
            let n = *s.pick(&[0usize, 20, 4, 1, 47]);
            s.fill(n)
        },
    }
}

pub fn song(s: &mut Src, max: usize) -> Song {
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.usize(0, 8),
        1 => s.usize(0, 80),
        _ => s.usize(0, max),
    };
    let f = s.fill(24 * n);
    let mut phrases: Vec<[u8; 24]> = f.chunks(24).map(|c| <[u8; 24]>::try_from(c).unwrap_or([0; 24])).collect();
    if n > 0 && s.bool() {
        let k = s.usize(0, n - 1);
        let b = s.bytes(24);
        phrases[k].copy_from_slice(&b);
    }
    Song {
        encrypted: s.bool(),
        mood: s.int(1, 3) as u8,
        unknown1: s.u32(),
        unknown2: s.u16(),
        end_beat: s.u16(),
        unknown3: s.u16(),
        bank: s.below(9) as u8,
        unknown4: s.u8(),
        phrases,
    }
}

pub fn tag(s: &mut Src) -> [u8; 4] {
    loop {
        let mut t = match s.below(3) {
            0 => *b"PQT2",
            1 => {
                let mut t = **s.pick(KNOWN_TAGS);
                let i = s.below(4) as usize;
                t[i] ^= 1 << s.below(8);
                t
            }
            _ => [s.u8(), s.u8(), s.u8(), s.u8()],
        };
        if KNOWN_TAGS.contains(&&t) {
            t[3] = t[3].wrapping_add(0x40);
        }
        if !KNOWN_TAGS.contains(&&t) {
            return t;
        }
    }
}

pub fn sec(s: &mut Src) -> Sec {
    match s.below(14) {
        0 => Sec::Beats {
            u1: s.u32(),
            u2: s.u32(),
            beats: {
                let n = count(s);
                if n > 60 {
                    let f = s.fill(8 * n);
                    f.chunks(8)
                        .map(|c| {
                            (
                                u16::from_be_bytes([c[0], c[1]]),
                                u16::from_be_bytes([c[2], c[3]]),
                                u32::from_be_bytes([c[4], c[5], c[6], c[7]]),
                            )
                        })
                        .collect()
                } else {
                    s.exact(n, |s| (s.u16(), s.u16(), s.u32()))
                }
            },
        },
        1 => Sec::Cues { hot: s.bool(), unknown: s.u16(), memory: s.u32(), cues: s.list(0, 40, 3, cue) },
        2 => Sec::ExtCues { hot: s.bool(), cues: s.list(0, 40, 3, ext_cue) },
        3 => Sec::Path(text(s, 300)),
        4 => Sec::Vbr {
            u1: s.u32(),
            data: {
                let n = count(s);
                s.fill(n)
            },
        },
        5 => Sec::Preview { unknown: s.u32(), data: column_bytes(s, 1) },
        6 => Sec::Tiny { unknown: s.u32(), data: column_bytes(s, 1) },
        7 => Sec::Detail(column_bytes(s, 1)),
        8 => Sec::ColorPreview { unknown: s.u32(), data: cols(s) },
        9 => Sec::ColorDetail {
            unknown: s.u32(),
            data: column_bytes(s, 2).chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect(),
        },
        10 => Sec::BandPreview(cols(s)),
        11 => Sec::BandDetail(cols(s)),
        12 => Sec::Song(song(s, 600)),
        // What would be another kind of section but for its tag.
        _ if s.chance(1, 3) => {
            let like = loop {
                match sec(s) {
                    Sec::Unknown { .. } => {}
                    x => break x,
                }
            };
            let b = like.encode();
            let n = (u32::from_be_bytes([b[4], b[5], b[6], b[7]]) as usize).clamp(12, b.len());
            Sec::Unknown { tag: tag(s), head: b[12..n].to_vec(), data: b[n..].to_vec() }
        }
        _ => Sec::Unknown {
            tag: tag(s),
            head: {
                let n = *s.pick(&[0usize, 4, 44, 1, 13]);
                s.fill(n)
            },
            data: {
                let n = count(s);
                s.fill(n)
            },
        },
    }
}

fn column_bytes(s: &mut Src, each: usize) -> Vec<u8> {
    let n = each * count(s);
    if n <= 12 {
        s.bytes(n)
    } else {
        s.fill(n)
    }
}

fn cols<const N: usize>(s: &mut Src) -> Vec<[u8; N]> {
    column_bytes(s, N).chunks(N).map(|c| <[u8; N]>::try_from(c).unwrap_or([0; N])).collect()
}

/// A section that needs more than 16 bits for its size (or for the length of its header).
pub fn large_sec(s: &mut Src) -> Sec {
    let n = match s.below(4) {
        0 => s.usize(65500, 65560),
        1 => s.usize(131050, 131100),
        2 => s.usize(65536, 400_000),
        _ => s.usize(32700, 70_000),
    };
    match s.below(11) {
        0 => Sec::Unknown { tag: tag(s), head: s.bytes(4), data: s.fill(n) },
        1 => Sec::Unknown { tag: tag(s), head: s.fill(n), data: s.bytes(4) },
        2 => Sec::Vbr { u1: s.u32(), data: s.fill(n) },
        3 => Sec::Preview { unknown: s.u32(), data: s.fill(n) },
        4 => Sec::Tiny { unknown: s.u32(), data: s.fill(n) },
        5 => Sec::Detail(s.fill(n)),
        6 => Sec::ColorDetail { unknown: s.u32(), data: s.fill(2 * n).chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect() },
        7 => Sec::BandDetail(s.fill(3 * n).chunks(3).map(|c| [c[0], c[1], c[2]]).collect()),
        8 => Sec::Path(s.fill(n).iter().map(|b| (b'a' + b % 26) as char).collect()),
        9 => Sec::Song(song(s, 6000)),
        _ => Sec::Beats {
            u1: s.u32(),
            u2: s.u32(),
            beats: s.fill(n).chunks_exact(2).map(|c| (u16::from(c[0]), u16::from(c[1]), u32::from(c[0]) << 16 | u32::from(c[1]))).collect(),
        },
    }
}

/// A file with one large section.
pub fn large_file(s: &mut Src) -> File {
    let mut f = file(s);
    f.secs.truncate(3);
    if s.chance(1, 10) {
        let n = s.usize(200, 70_000);
        f.head = s.fill(n);
    }
    let at = s.usize(0, f.secs.len());
    f.secs.insert(at, large_sec(s));
    f
}

pub fn file(s: &mut Src) -> File {
    let head = match s.below(4) {
        0 => vec![0; 16],
        1 => s.fill(16),
        2 => vec![],
        _ => {
            let n = s.usize(0, 40);
            s.fill(n)
        }
    };
    File { head, secs: s.list(0, 12, 3, sec) }
}
