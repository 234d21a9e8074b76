//! DeviceSQL strings.
use crate::engine::{no_panic, CheckResult, Ctx, Group, Known, Property, G};
use crate::model::dsql::{self, Str};
use crate::src::Src;
use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::string::{DeviceSQLString, StringError};
use std::io::Cursor;

pub fn write(d: &DeviceSQLString) -> Result<Vec<u8>, String> {
    let mut w = Cursor::new(vec![]);
    d.write(&mut w).map_err(|e| format!("write: {e}"))?;
    Ok(w.into_inner())
}

/// Parse from `bytes` followed by `tail`; the tail must stay unread.
pub fn read(bytes: &[u8], tail: &[u8]) -> Result<DeviceSQLString, String> {
    let mut all = bytes.to_vec();
    all.extend_from_slice(tail);
    let mut c = Cursor::new(&all);
    let d = DeviceSQLString::read(&mut c).map_err(|e| format!("decoding {:02x?} fails: {}", &bytes[..bytes.len().min(40)], short(&e)))?;
    if c.position() != bytes.len() as u64 {
        return Err(format!("decoding used {} of the {} bytes of the string", c.position(), bytes.len()));
    }
    Ok(d)
}

pub fn short(e: &binrw::Error) -> String {
    let s = format!("{e}");
    s.chars().filter(|c| !c.is_control()).take(200).collect()
}

fn same_text(d: &DeviceSQLString, text: &str) -> CheckResult {
    if d.to_string() != text {
        return Err(format!("Display shows {:?}, expected {text:?}", d.to_string()));
    }
    let got = d.clone().into_string().map_err(|e| format!("into_string: {e}"))?;
    if got != text {
        return Err(format!("text {got:?}, expected {text:?}"));
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct Construct {
    text: Str,
    tail: Vec<u8>,
}

fn gen_construct(s: &mut Src) -> Construct {
    let text = match s.weighted(&[10, 8, 1]) {
        0 => dsql::ascii_text(s, 200),
        1 => dsql::wide_text(s, 60),
        _ => {
            // Near the limits of the length field.
            let n = match s.below(5) {
                0 => s.usize(32740, 32780),
                1 => s.usize(16360, 16400),
                2 => s.usize(65500, 65560),
                3 => s.usize(10900, 10940),
                _ => s.usize(200, 33000),
            };
            let unit = *s.pick(&["a", "é", "あ", "🎵"]);
            let mut t = unit.repeat(n / if s.bool() { 1 } else { unit.len() });
            if s.bool() {
                t.push_str(*s.pick(&["é", "あ", "b", "🎵"]));
            }
            t
        }
    };
    let tail = if s.bool() { vec![] } else { vec![0x41, 0, 0x42, 0, 0, 0, 0x90] };
    Construct { text: Str::Auto(text), tail }
}

fn check_construct(c: &Construct, ctx: &mut Ctx) -> CheckResult {
    let text = c.text.text();
    let units = text.encode_utf16().count();
    let content = if text.is_ascii() { text.len() } else { units * 2 };
    ctx.nt(!text.is_empty());
    ctx.tag(if text.is_ascii() {
        if text.len() <= 126 { "short" } else { "long-ascii" }
    } else {
        "utf16"
    });
    let made = DeviceSQLString::new(text);
    let parsed: Result<DeviceSQLString, StringError> = text.parse();
    if made.is_ok() != parsed.is_ok() || matches!((&made, &parsed), (Ok(a), Ok(b)) if a != b) {
        return Err("new() and parse() disagree".into());
    }
    let d = match made {
        Err(e) => {
            ctx.tag("rejected");
            if text.len() <= 32_000 {
                return Err(format!("text of {} bytes is rejected: {e}", text.len()));
            }
            if e != StringError::TooLong {
                return Err(format!("over-long text is rejected with {e:?}"));
            }
            return Ok(());
        }
        Ok(d) => d,
    };
    if content + 4 > 65_535 {
        return Err(format!("a string of {content} content bytes is accepted, the length field cannot hold it"));
    }
    same_text(&d, text)?;
    let b = write(&d)?;
    let want = c.text.encode();
    if b != want {
        return Err(format!("encoded as {:02x?}.., documented form is {:02x?}..", &b[..b.len().min(24)], &want[..want.len().min(24)]));
    }
    if c.text.ambiguous() {
        ctx.tag("ambiguous-skipped");
        return Ok(());
    }
    let back = read(&b, &c.tail)?;
    same_text(&back, text)?;
    if back != d {
        return Err("decoded value differs from the constructed one".into());
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct Decode {
    strs: Vec<Str>,
}

fn gen_decode(s: &mut Src) -> Decode {
    Decode { strs: s.list(1, 8, 2, |s| dsql::any(s, 200)) }
}

/// Any stored form, several strings in one stream: each decodes to its text, uses exactly its own
/// bytes and is written back unchanged.
fn check_decode(c: &Decode, ctx: &mut Ctx) -> CheckResult {
    let mut all = vec![];
    for x in &c.strs {
        all.extend(x.encode());
    }
    ctx.nt(c.strs.iter().any(|x| !x.text().is_empty()));
    let mut cur = Cursor::new(&all);
    for x in &c.strs {
        ctx.tag(match x {
            Str::Auto(_) => "auto",
            Str::LongAscii(_) => "long-ascii",
            Str::WideAscii(_) => "utf16-ascii",
            Str::Isrc(_) => "isrc",
        });
        let enc = x.encode();
        let at = cur.position();
        let d = DeviceSQLString::read(&mut cur).map_err(|e| format!("decoding {x:?} fails: {}", short(&e)))?;
        if cur.position() != at + enc.len() as u64 {
            return Err(format!("decoding {x:?} used {} bytes of {}", cur.position() - at, enc.len()));
        }
        same_text(&d, x.text())?;
        let w = write(&d)?;
        if w != enc {
            return Err(format!("{x:?} rewritten as {:02x?}, was {:02x?}", &w[..w.len().min(40)], &enc[..enc.len().min(40)]));
        }
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct Isrc {
    text: String,
}

fn gen_isrc(s: &mut Src) -> Isrc {
    let text = match s.weighted(&[5, 1, 3, 2]) {
        0 => dsql::isrc(s),
        1 => String::new(),
        2 => {
            let n = s.usize(0, 16);
            (0..n).map(|_| dsql::ascii_char(s)).collect()
        }
        _ => {
            let mut t: Vec<char> = dsql::isrc(s).chars().collect();
            let i = s.usize(0, t.len() - 1);
            t[i] = if s.bool() { dsql::wide_char(s) } else { dsql::ascii_char(s) };
            t.into_iter().collect()
        }
    };
    Isrc { text }
}

fn check_isrc(c: &Isrc, ctx: &mut Ctx) -> CheckResult {
    let valid = c.text.len() == 12 && c.text.bytes().all(|b| b.is_ascii_alphanumeric());
    ctx.nt(!c.text.is_empty());
    ctx.tag(if valid { "valid" } else { "other" });
    match DeviceSQLString::new_isrc(c.text.clone()) {
        Err(e) => {
            if valid || c.text.is_empty() {
                return Err(format!("ISRC {:?} is rejected: {e}", c.text));
            }
            Ok(())
        }
        Ok(d) => {
            if !c.text.is_empty() && (c.text.len() != 12 || !c.text.is_ascii()) {
                return Err(format!("{:?} is accepted as an ISRC", c.text));
            }
            same_text(&d, &c.text)?;
            let b = write(&d)?;
            let want = if c.text.is_empty() { vec![3] } else { Str::Isrc(c.text.clone()).encode() };
            if b != want {
                return Err(format!("ISRC encoded as {b:02x?}, documented form is {want:02x?}"));
            }
            let back = read(&b, &[0x55, 0x56, 0])?;
            same_text(&back, &c.text)?;
            if back != d {
                return Err("decoded ISRC differs from the constructed one".into());
            }
            Ok(())
        }
    }
}

#[derive(Debug, Hash)]
struct Raw {
    bytes: Vec<u8>,
}

fn gen_raw(s: &mut Src) -> Raw {
    let bytes = match s.weighted(&[2, 3, 3]) {
        0 => s.list(0, 40, 8, |s| s.below(256) as u8),
        1 => {
            // Short form with any content.
            let n = s.usize(0, 127);
            let mut v = vec![((n as u8) << 1) | 1];
            let l = s.usize(0, n.min(20));
            v.extend(s.bytes(l));
            v
        }
        _ => {
            let flags = *s.pick(&[0x90u8, 0x40, 0x80, 0x20, 0x00, 0x92]);
            let n = s.usize(0, 24);
            let mut body = if s.bool() { s.bytes(n) } else { vec![0xd8; n] };
            if s.chance(1, 3) && !body.is_empty() {
                body[0] = 3;
            }
            let declared = if s.chance(1, 4) { s.u16() } else { n as u16 + 4 };
            let mut v = vec![flags];
            v.extend_from_slice(&declared.to_le_bytes());
            v.push(if s.chance(1, 8) { 1 } else { 0 });
            v.extend(body);
            v
        }
    };
    Raw { bytes }
}

/// What the documented format says the bytes hold: `Some((used, Some(text)))`, `Some((used, None))`
/// for well-formed bytes whose text is invalid, `None` for malformed ones.
fn reference_decode(b: &[u8]) -> Option<(usize, Option<String>)> {
    let h = *b.first()?;
    if h & 1 == 1 {
        let n = usize::from(h >> 1).checked_sub(1)?;
        let body = b.get(1..1 + n)?;
        return Some((1 + n, String::from_utf8(body.to_vec()).ok()));
    }
    let n = usize::from(u16::from_le_bytes([*b.get(1)?, *b.get(2)?])).checked_sub(4)?;
    if *b.get(3)? != 0 {
        return None;
    }
    let body = b.get(4..4 + n)?;
    match h {
        0x40 => Some((4 + n, String::from_utf8(body.to_vec()).ok())),
        0x90 if dsql::looks_like_isrc(body) => {
            Some((4 + n, Some(String::from_utf8_lossy(&body[1..body.len() - 1]).into_owned())))
        }
        0x90 if n % 2 == 0 => {
            let u: Vec<u16> = body.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            Some((4 + n, String::from_utf16(&u).ok()))
        }
        _ => None,
    }
}

fn check_raw(c: &Raw, ctx: &mut Ctx) -> CheckResult {
    let mut cur = Cursor::new(&c.bytes);
    let got = DeviceSQLString::read(&mut cur);
    let want = reference_decode(&c.bytes);
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(d), None) => {
            let _ = no_panic(|| format!("{d} {d:?}"))?;
            Err(format!("malformed bytes {:02x?} are decoded as {d:?}", c.bytes))
        }
        (Err(e), Some((_, Some(t)))) => Err(format!("{t:?} stored as {:02x?} is not decoded: {}", c.bytes, short(&e))),
        (Err(_), Some((_, None))) => Ok(()),
        (Ok(d), Some((used, text))) => {
            ctx.nt(true);
            ctx.tag(if text.is_some() { "valid-text" } else { "invalid-text" });
            if cur.position() != used as u64 {
                return Err(format!("decoding used {} bytes, the string has {used}", cur.position()));
            }
            let shown = format!("{d}");
            let _ = format!("{d:?}");
            match (d.clone().into_string(), &text) {
                (Ok(t), Some(w)) if t == *w && shown == t => {}
                (Ok(t), w) => return Err(format!("decoded as {t:?} (shown as {shown:?}), expected {w:?}")),
                (Err(_), None) => {}
                (Err(e), Some(w)) => return Err(format!("valid text {w:?} gives {e:?}")),
            }
            let w = write(&d)?;
            if w[..] != c.bytes[..used] {
                return Err(format!("rewritten as {w:02x?}, was {:02x?}", &c.bytes[..used]));
            }
            Ok(())
        }
    }
}

fn isrc_lookalike() -> bool {
    let t = "\u{5103}A";
    let d = match DeviceSQLString::new(t) {
        Ok(d) => d,
        Err(_) => return true,
    };
    !matches!(write(&d).and_then(|b| read(&b, &[])), Ok(b) if b.clone().into_string().as_deref() == Ok(t))
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "construct", rule: "non-empty text", quick: 1_200_000, thorough: 40_000_000, gen: gen_construct, check: check_construct }),
        Box::new(G { name: "decode", rule: "a stream with a non-empty string", quick: 1_200_000, thorough: 40_000_000, gen: gen_decode, check: check_decode }),
        Box::new(G { name: "isrc", rule: "non-empty ISRC candidate", quick: 600_000, thorough: 20_000_000, gen: gen_isrc, check: check_isrc }),
        Box::new(G { name: "raw", rule: "bytes that decode", quick: 2_000_000, thorough: 80_000_000, gen: gen_raw, check: check_raw }),
    ];
    Property {
        id: "C01",
        level: "exploration",
        assumptions: &["UTF-16 texts whose bytes are exactly 03, printable ASCII, 00 are indistinguishable from an ISRC in the format and are excluded (known finding isrc-lookalike)"],
        groups: g,
        known: vec![Known { key: "isrc-lookalike", still_fails: isrc_lookalike }],
        needs_cli: false,
    }
}
