//! Corruption of byte strings.
use crate::src::{filler, Src};

#[derive(Debug, Clone, Hash)]
pub enum Mut {
    Set(usize, u8),
    Flip(usize, u8),
    /// Little or big endian.
    Put16(usize, u16, bool),
    Put32(usize, u32, bool),
    Add(usize, i8),
    Copy { from: usize, to: usize, len: usize },
    Remove(usize, usize),
    Insert(usize, usize, u64),
    Cut(usize),
    Grow(usize, u64),
    Noise(usize, usize, u64),
}

fn pos(s: &mut Src, n: usize, hot: &[usize]) -> usize {
    if !hot.is_empty() && s.chance(3, 4) {
        *s.pick(hot) + *s.pick(&[0usize, 0, 0, 1, 2, 3])
    } else {
        s.below(n.max(1) as u64) as usize
    }
}

/// `hot`: offsets of length fields, counters, offsets and the like.
pub fn gen(s: &mut Src, n: usize, hot: &[usize]) -> Vec<Mut> {
    s.list(1, 12, 2, |s| {
        let p = pos(s, n, hot);
        match s.weighted(&[4, 3, 5, 5, 3, 2, 1, 1, 1, 1, 1]) {
            0 => Mut::Set(p, s.u8()),
            1 => Mut::Flip(p, s.below(8) as u8),
            2 => {
                let v = match s.below(4) {
                    0 => *s.pick(&[0u16, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff]),
                    1 => s.below(n.max(1) as u64) as u16,
                    _ => s.u16(),
                };
                Mut::Put16(p, v, s.bool())
            }
            3 => {
                let v = match s.below(4) {
                    0 => *s.pick(&[0u32, 1, 2, 3, 4, 8, 0xff, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x3ff_ffff]),
                    1 => s.below(n.max(1) as u64 + 8) as u32,
                    _ => s.u32(),
                };
                Mut::Put32(p, v, s.bool())
            }
            4 => Mut::Add(p, *s.pick(&[1i8, -1, 2, -2, 4, -4, 16, -16])),
            5 => Mut::Copy { from: pos(s, n, hot), to: p, len: *s.pick(&[1usize, 2, 4, 8, 16, 40, 512]) },
            6 => Mut::Remove(p, s.usize(1, 64)),
            7 => Mut::Insert(p, s.usize(1, 64), s.below(1 << 20)),
            8 => Mut::Cut(s.below(n as u64 + 1) as usize),
            9 => Mut::Grow(s.usize(1, 600), s.below(1 << 20)),
            _ => Mut::Noise(p, s.usize(1, 64), s.below(1 << 20)),
        }
    })
}

pub fn apply(b: &mut Vec<u8>, ms: &[Mut]) {
    for m in ms {
        let n = b.len();
        let mut put = |p: usize, v: &[u8]| {
            for (i, x) in v.iter().enumerate() {
                if let Some(y) = b.get_mut(p + i) {
                    *y = *x;
                }
            }
        };
        match *m {
            Mut::Set(p, v) => put(p, &[v]),
            Mut::Flip(p, k) => {
                if let Some(y) = b.get_mut(p) {
                    *y ^= 1 << k;
                }
            }
            Mut::Put16(p, v, be) => put(p, &if be { v.to_be_bytes() } else { v.to_le_bytes() }),
            Mut::Put32(p, v, be) => put(p, &if be { v.to_be_bytes() } else { v.to_le_bytes() }),
            Mut::Add(p, d) => {
                if let Some(y) = b.get_mut(p) {
                    *y = y.wrapping_add_signed(d);
                }
            }
            Mut::Copy { from, to, len } => {
                let c: Vec<u8> = b.iter().skip(from).take(len).copied().collect();
                for (i, x) in c.iter().enumerate() {
                    if let Some(y) = b.get_mut(to + i) {
                        *y = *x;
                    }
                }
            }
            Mut::Remove(p, k) => {
                let e = (p + k).min(n);
                if p < e {
                    b.drain(p..e);
                }
            }
            Mut::Insert(p, k, seed) => {
                let p = p.min(n);
                b.splice(p..p, filler(seed, k));
            }
            Mut::Cut(k) => b.truncate(k),
            Mut::Grow(k, seed) => b.extend(filler(seed, k)),
            Mut::Noise(p, k, seed) => put(p, &filler(seed, k)),
        }
    }
}
