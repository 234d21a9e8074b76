//! Song-structure encryption.
use super::c09::{self, same_bytes};
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::anlz::{self, File, Sec, Song};
use crate::sio::Shared;
use crate::src::Src;
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz as a;
use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};

#[derive(Debug, Hash)]
struct Case {
    before: Vec<Sec>,
    song: Song,
    after: Vec<Sec>,
    chunks: Vec<usize>,
    interrupt: u64,
    buffer: Option<usize>,
    edit: Option<u64>,
}

fn transfer(s: &mut Src) -> (Vec<usize>, u64, Option<usize>) {
    let chunks = s.list(0, 6, 2, |s| s.usize(1, 40));
    let interrupt = if s.chance(1, 3) { s.int(2, 9) } else { 0 };
    let buffer = if s.chance(1, 3) { Some(s.usize(1, 64)) } else { None };
    (chunks, interrupt, buffer)
}

fn gen(s: &mut Src) -> Case {
    let (chunks, interrupt, buffer) = transfer(s);
    Case {
        before: s.list(0, 2, 1, anlz::sec),
        song: anlz::song(s, 700),
        after: s.list(0, 2, 1, anlz::sec),
        chunks,
        interrupt,
        buffer,
        edit: s.bool().then(|| s.below(1 << 20)),
    }
}

fn gen_counts(s: &mut Src) -> Case {
    let n = match s.weighted(&[3, 3, 1, 1]) {
        0 => s.usize(0, 1024),
        1 => 256 * s.usize(0, 255) + s.usize(0, 3),
        2 => s.usize(65270, 65535),
        _ => s.usize(0, 65535),
    };
    let mut song = anlz::song(s, 0);
    let f = s.fill(24 * n);
    song.phrases = f.chunks(24).map(|c| <[u8; 24]>::try_from(c).unwrap_or([0; 24])).collect();
    Case { before: vec![], song, after: vec![], chunks: vec![], interrupt: 0, buffer: None, edit: None }
}

/// A reader of its own kind: seeks and splits reads as told, optionally through a small buffer.
pub fn read_split(bytes: &[u8], chunks: &[usize], interrupt: u64, buffer: Option<usize>) -> Result<a::ANLZ, String> {
    let dev = Shared::new(bytes.to_vec());
    dev.with(|d| {
        d.chunks = chunks.to_vec();
        d.interrupt_every = interrupt;
    });
    let r = match buffer {
        Some(n) => a::ANLZ::read(&mut BufReader::with_capacity(n, dev)),
        None => a::ANLZ::read(&mut dev.clone()),
    };
    r.map_err(|e| format!("refused when read in pieces: {e}"))
}

pub fn write_split(f: &a::ANLZ, chunks: &[usize], interrupt: u64, buffer: Option<usize>) -> Result<Vec<u8>, String> {
    let dev = Shared::new(vec![]);
    dev.with(|d| {
        d.chunks = chunks.to_vec();
        d.interrupt_every = interrupt;
    });
    match buffer {
        Some(n) => {
            let mut w = BufWriter::with_capacity(n, dev.clone());
            f.write(&mut w).map_err(|e| format!("writing in pieces failed: {e}"))?;
            w.flush().map_err(|e| format!("flushing failed: {e}"))?;
        }
        None => f.write(&mut dev.clone()).map_err(|e| format!("writing in pieces failed: {e}"))?,
    }
    Ok(Shared::bytes(&dev))
}

fn plain_text(f: &a::ANLZ) -> String {
    format!("{f:?}").replace("is_encrypted: true", "is_encrypted: false")
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let file = |enc: bool| {
        let mut s = c.song.clone();
        s.encrypted = enc;
        let mut secs = c.before.clone();
        for x in &mut secs {
            if let Sec::Song(s) = x {
                s.encrypted = false;
            }
        }
        let at = secs.len();
        secs.push(Sec::Song(s));
        secs.extend(c.after.iter().cloned());
        (at, File { head: vec![0; 16], secs })
    };
    ctx.nt(!c.song.phrases.is_empty());
    let (at, clear) = file(false);
    let (_, hidden) = file(true);
    let (cb, hb) = (clear.encode(), hidden.encode());
    let fc = c09::read(&cb)?;
    let fh = c09::read(&hb).map_err(|e| format!("encrypted song structure: {e}"))?;
    if c.song.phrases.len() <= 60 {
        for (f, m) in [(&fc, &clear), (&fh, &hidden)] {
            c09::compare(f, m, ctx)?;
        }
    }
    let (tc, th) = (plain_text(&fc), plain_text(&fh));
    if tc != th {
        return Err(format!("{} entries: the encrypted form decodes to other values than the clear one", c.song.phrases.len()));
    }
    if fc == fh {
        return Err("the encrypted flag is not kept".into());
    }
    same_bytes("clear file rewritten", &c09::write(&fc)?, &cb)?;
    same_bytes("encrypted file rewritten", &c09::write(&fh)?, &hb)?;
    let split = !c.chunks.is_empty() || c.interrupt > 0 || c.buffer.is_some();
    if split {
        ctx.tag("split transfers");
        for (f, b, what) in [(&fc, &cb, "clear"), (&fh, &hb, "encrypted")] {
            let g = read_split(b, &c.chunks, c.interrupt, c.buffer).map_err(|e| format!("{what}: {e}"))?;
            if g != *f {
                return Err(format!("{what} file decodes differently when read in pieces"));
            }
            let out = write_split(f, &c.chunks, c.interrupt, c.buffer).map_err(|e| format!("{what}: {e}"))?;
            same_bytes(&format!("{what} file written in pieces"), &out, b)?;
        }
    }
    // A section on its own, with the stream somewhere else than at the start.
    let sec = hidden.secs[at].encode();
    let mut dev = Shared::new([&[0x55; 33][..], &sec].concat());
    dev.seek(SeekFrom::Start(33)).map_err(|e| e.to_string())?;
    let s = a::Section::read_be(&mut dev).map_err(|e| format!("section alone is refused: {e}"))?;
    if s != fh.sections[at] {
        return Err("the section decodes differently on its own".into());
    }
    // One changed byte of the stored body is one changed byte of the decoded body.
    if let Some(e) = c.edit {
        let body = 18..sec.len();
        let i = body.start + e as usize % body.len();
        let x = 1 << (e >> 8) % 8;
        let (mut sc, mut sh) = (clear.secs[at].encode(), sec.clone());
        sc[i] ^= x;
        sh[i] ^= x;
        // The first two bytes also decide how the section is read.
        if i >= 20 {
            ctx.tag("bit flipped");
            let rc = a::Section::read_be(&mut Shared::new(sc));
            let rh = a::Section::read_be(&mut Shared::new(sh));
            match (rc, rh) {
                (Ok(p), Ok(q)) => {
                    let (p, q) = (format!("{p:?}"), format!("{q:?}"));
                    if p.replace("is_encrypted: true", "is_encrypted: false") != q.replace("is_encrypted: true", "is_encrypted: false") {
                        return Err(format!("with bit {x:#x} of byte {i} flipped, clear and encrypted forms differ"));
                    }
                }
                (Err(_), Err(_)) => {}
                (p, q) => {
                    return Err(format!("with bit {x:#x} of byte {i} flipped, only one form is accepted: clear {}, encrypted {}", p.is_ok(), q.is_ok()))
                }
            }
        }
    }
    let mut rest = vec![];
    dev.read_to_end(&mut rest).map_err(|e| e.to_string())?;
    if !rest.is_empty() {
        return Err(format!("{} bytes of the section are left unread", rest.len()));
    }
    Ok(())
}

pub fn prop() -> Property {
    let rule = "the song structure has at least one phrase";
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "transparency", rule, quick: 40_000, thorough: 4_800_000, gen, check }),
        Box::new(G { name: "entry-counts", rule, quick: 240, thorough: 36_000, gen: gen_counts, check }),
    ];
    Property {
        id: "C10",
        level: "exploration",
        assumptions: &["song structures are well-formed; phrases are observed through Debug and equality"],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
