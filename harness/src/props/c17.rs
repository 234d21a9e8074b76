//! Robustness of analysis file parsing.
use super::c16::format;
use crate::alloc::with_limit;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::anlz::{self, File, Sec};
use crate::model::mutate::{self, Mut};
use crate::sio::Shared;
use crate::src::{filler, Src};
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz as a;
use std::io::BufReader;

/// Offsets that decide how the rest is read.
pub fn hot(f: &File) -> Vec<usize> {
    let mut h = vec![0usize, 4, 6, 8, 10];
    let mut o = 12 + f.head.len();
    for s in &f.secs {
        h.extend((0..32).step_by(2).map(|k| o + k));
        h.extend([7, 11, 15, 17, 19].map(|k| o + k));
        let mut q = match s {
            Sec::Cues { .. } => o + 24,
            Sec::ExtCues { .. } => o + 20,
            _ => 0,
        };
        match s {
            Sec::Cues { cues, .. } => {
                for _ in cues {
                    h.extend([0usize, 4, 8, 28].map(|k| q + k));
                    q += 56;
                }
            }
            Sec::ExtCues { cues, .. } => {
                for c in cues {
                    h.extend([0usize, 4, 7, 8, 11, 16, 28, 40, 42, 43, 43, 44].map(|k| q + k));
                    q += c.total() as usize;
                }
            }
            _ => {}
        }
        o += s.encode().len();
    }
    h
}

/// What accepted bytes hold.
pub fn run(bytes: &[u8], buffered: bool, ctx: &mut Ctx) -> CheckResult {
    let heap = (16 << 20) + 64 * bytes.len();
    let ops = 100_000 + 1000 * bytes.len() as u64;
    let dev = Shared::new(bytes.to_vec());
    dev.with(|d| d.max_ops = Some(ops));
    let (n, _) = with_limit(heap, || {
        let r = if buffered { a::ANLZ::read(&mut BufReader::new(dev.clone())) } else { a::ANLZ::read(&mut dev.clone()) };
        match r {
            Ok(f) => {
                format(&f);
                let out = Shared::new(vec![]);
                out.with(|d| d.max_len = 1 << 20);
                let _ = f.write(&mut out.clone());
                f.sections.len() as i64
            }
            Err(e) => {
                format(&e);
                let _ = e.to_string();
                -1
            }
        }
    });
    if dev.with(|d| d.over_budget && d.ops > ops) {
        return Err(format!("more than {ops} I/O operations for {} bytes", bytes.len()));
    }
    ctx.tag(match n {
        -1 => "refused",
        0 => "no sections",
        _ => "sections decoded",
    });
    Ok(())
}

/// Makes the file header's total size that of the bytes.
fn fix(b: &mut [u8]) {
    let n = (b.len() as u32).to_be_bytes();
    if let Some(x) = b.get_mut(8..12) {
        x.copy_from_slice(&n);
    }
}

#[derive(Debug, Hash)]
struct Case {
    file: File,
    muts: Vec<Mut>,
    fix: bool,
    buffered: bool,
}
fn gen(s: &mut Src) -> Case {
    let file = anlz::file(s);
    let n = file.encode().len();
    let h = if s.chance(2, 3) { hot(&file) } else { vec![] };
    let mut muts = mutate::gen(s, n, &h);
    if s.bool() {
        muts.truncate(1);
    }
    Case { file, muts, fix: s.chance(3, 4), buffered: s.bool() }
}
fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.file.encode();
    mutate::apply(&mut b, &c.muts);
    if c.fix {
        fix(&mut b);
    }
    ctx.nt(!c.file.secs.is_empty());
    run(&b, c.buffered, ctx)
}

/// Sections with any tag, any sizes and any contents.
#[derive(Debug, Hash)]
struct RawSec {
    tag: [u8; 4],
    sizes: (u32, u32),
    body: Vec<u32>,
    noise: (usize, u64),
}
#[derive(Debug, Hash)]
struct RawCase {
    file: Option<(u32, u32, usize)>,
    secs: Vec<RawSec>,
    fix: bool,
}
fn odd(s: &mut Src) -> u32 {
    match s.below(6) {
        0 => s.below(30) as u32,
        1 => *s.pick(&[24u32, 1, 2, 3, 6, 0x0096_0000]),
        2 => *s.pick(&[0u32, 11, 12, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff4, 0x5555_5555, 0x5555_5556, 0x2aaa_aaab]),
        3 => (s.below(20) << 16) as u32,
        4 => 0x5043_5054, // PCPT
        _ => s.u32(),
    }
}
fn gen_raw(s: &mut Src) -> RawCase {
    let file = s.chance(9, 10).then(|| {
        let size = if s.chance(3, 4) { 12 + s.below(40) as u32 } else { odd(s) };
        (size, if s.chance(3, 4) { u32::MAX } else { odd(s) }, s.usize(0, 40))
    });
    let secs = s.list(0, 6, 2, |s| {
        let tag = if s.chance(5, 6) { **s.pick(anlz::KNOWN_TAGS) } else { anlz::tag(s) };
        let size = if s.chance(2, 3) { 12 + s.below(30) as u32 } else { odd(s) };
        let noise = (s.usize(0, 80), s.below(1 << 20));
        let mut body = s.list(0, 30, 6, odd);
        if s.chance(1, 3) {
            body.truncate(3);
        }
        let total = match s.below(6) {
            0 => size.saturating_add(s.below(100) as u32),
            3..=5 => (12 + 4 * body.len() + noise.0) as u32,
            1 => size.saturating_add(odd(s)),
            _ => odd(s),
        };
        RawSec { tag, sizes: (size, total), body, noise }
    });
    RawCase { file, secs, fix: s.chance(3, 4) }
}
fn check_raw(c: &RawCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = vec![];
    if let Some((size, total, pad)) = c.file {
        b.extend(b"PMAI");
        b.extend(size.to_be_bytes());
        b.extend(total.to_be_bytes());
        b.extend(vec![0; if (12..64).contains(&size) { size as usize - 12 } else { pad }]);
    }
    for s in &c.secs {
        b.extend(s.tag);
        b.extend(s.sizes.0.to_be_bytes());
        b.extend(s.sizes.1.to_be_bytes());
        for w in &s.body {
            b.extend(w.to_be_bytes());
        }
        b.extend(filler(s.noise.1, s.noise.0));
    }
    if c.fix {
        fix(&mut b);
    }
    ctx.nt(c.file.is_some() && !c.secs.is_empty());
    run(&b, false, ctx)
}

/// One section whose sizes and counters are made to agree on a length the file does not have.
#[derive(Debug, Hash)]
struct ClaimCase {
    kind: usize,
    count: u32,
    head_extra: u32,
    data: (usize, u64),
    fix: bool,
}
fn gen_claim(s: &mut Src) -> ClaimCase {
    let count = match s.below(4) {
        0 => s.below(200) as u32,
        1 => s.u32(),
        2 => *s.pick(&[0x7fff_ffffu32, 0xffff_fff0, 0x2aaa_aaaa, 0x5555_5550, 0x1000_0000, 0x0aaa_aaa0]),
        _ => s.num(16) as u32,
    };
    let head_extra = if s.chance(1, 4) { s.int(1, 9) as u32 } else { 0 };
    ClaimCase { kind: s.usize(0, 13), count, head_extra, data: (s.usize(0, 3000), s.below(1 << 20)), fix: s.bool() }
}
fn check_claim(c: &ClaimCase, ctx: &mut Ctx) -> CheckResult {
    let n = c.count;
    // (tag, words before the data, bytes per entry)
    let (tag, words, each): (&[u8; 4], Vec<u32>, u32) = match c.kind {
        0 => (b"PQTZ", vec![0, 0x80000, n], 8),
        1 => (b"PCOB", vec![1, n & 0xffff, 0], 56),
        2 => (b"PCO2", vec![1, n << 16], 68),
        3 => (b"PPTH", vec![n], 1),
        4 => (b"PVBR", vec![0], 1),
        5 => (b"PWAV", vec![n, 0], 1),
        6 => (b"PWV2", vec![n, 0], 1),
        7 => (b"PWV3", vec![1, n, 0x0096_0000], 1),
        8 => (b"PWV4", vec![6, n, 0], 6),
        9 => (b"PWV5", vec![2, n, 0], 2),
        10 => (b"PWV6", vec![3, n], 3),
        11 => (b"PWV7", vec![3, n, 0x0096_0000], 3),
        12 => (b"PSSI", vec![24, n << 16], 24),
        _ => (b"ABCD", vec![], 1),
    };
    let size = 12 + 4 * words.len() as u32 + c.head_extra;
    let mut b = vec![];
    b.extend(b"PMAI");
    b.extend(28u32.to_be_bytes());
    b.extend(u32::MAX.to_be_bytes());
    b.extend([0; 16]);
    b.extend(tag);
    b.extend(size.to_be_bytes());
    b.extend(size.saturating_add(n.saturating_mul(each)).to_be_bytes());
    for w in words {
        b.extend(w.to_be_bytes());
    }
    b.extend(filler(c.data.1, c.data.0));
    if c.fix {
        fix(&mut b);
    }
    ctx.nt(u64::from(n) * u64::from(each) > c.data.0 as u64);
    run(&b, true, ctx)
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "mutated", rule: "the corrupted file held at least one section", quick: 160_000, thorough: 16_000_000, gen, check }),
        Box::new(G { name: "raw", rule: "a file header and at least one section header are present", quick: 240_000, thorough: 24_000_000, gen: gen_raw, check: check_raw }),
        Box::new(G { name: "claims", rule: "the section claims more data than the file has", quick: 160_000, thorough: 16_000_000, gen: gen_claim, check: check_claim }),
    ];
    Property {
        id: "C17",
        level: "exploration",
        assumptions: &[
            "memory: 16 MiB plus 64 bytes per input byte; work: 100000 plus 1000 I/O operations per input byte, and 40 s of CPU time",
            "integer overflow counts as a panic (the harness is built with overflow checks)",
        ],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
