//! Offset arrays.
use super::c01::short;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::dsql::{self, Str};
use crate::src::Src;
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::offset_array::{OffsetArray, OffsetArrayContainer, OffsetArrayItems, OffsetSize};
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::util::MaybeCalculated;
use std::io::{Cursor, Seek, SeekFrom};

#[derive(Debug, PartialEq, Clone)]
struct Items<T, const N: usize>([T; N]);
impl<T, const N: usize> OffsetArrayItems<N> for Items<T, N> {
    type Item = T;
    fn as_items(&self) -> [&T; N] {
        self.0.each_ref()
    }
    fn from_items(items: [T; N]) -> Self {
        Items(items)
    }
}

#[derive(Debug, Hash, Clone)]
struct Case {
    /// Stream position of the row.
    at: usize,
    /// Distance from the row start to the offset array.
    prefix: usize,
    wide: bool,
    n: usize,
    strs: Vec<Str>,
    order: Vec<usize>,
    gaps: Vec<usize>,
    share: bool,
    fill: u64,
}

fn gen(s: &mut Src) -> Case {
    let n = *s.pick(&[1usize, 2, 3, 7, 21]);
    let wide = s.bool();
    let max = if wide { 80 } else { 160 / n };
    let strs = s.exact(n, |s| if s.chance(1, 3) { Str::Auto(String::new()) } else { dsql::any(s, max.max(1)) });
    let mut order: Vec<usize> = (0..n).collect();
    if s.bool() {
        for i in (1..n).rev() {
            let j = s.usize(0, i);
            order.swap(i, i - j);
        }
    }
    let gaps = s.exact(n, |s| if s.chance(1, 4) { s.usize(0, 9) } else { 0 });
    // Sometimes the array lies near the end of what its offsets can address.
    let prefix = if s.chance(1, 6) { if wide { s.usize(65_300, 65_535) } else { s.usize(180, 255) } } else { s.usize(0, 100) };
    Case { at: s.usize(0, 40), prefix, wide, n, strs, order, gaps, share: s.chance(1, 4), fill: s.below(1000) }
}

/// (whole buffer, offsets) with the strings placed as the case says; `None` if 8-bit offsets do not fit.
fn lay(c: &Case, fill: u64) -> Option<(Vec<u8>, Vec<usize>, Vec<(usize, usize)>)> {
    let osz = if c.wide { 2 } else { 1 };
    let mut p = c.prefix + (c.n + 1) * osz;
    let mut offs = vec![0; c.n];
    let mut placed: Vec<(Vec<u8>, usize)> = vec![];
    for (k, &slot) in c.order.iter().enumerate() {
        let e = c.strs[slot].encode();
        if c.share {
            if let Some((_, o)) = placed.iter().find(|x| x.0 == e) {
                offs[slot] = *o;
                continue;
            }
        }
        p += c.gaps[k];
        offs[slot] = p;
        placed.push((e.clone(), p));
        p += e.len();
    }
    if offs.iter().any(|o| *o > if c.wide { 65_535 } else { 255 }) {
        return None;
    }
    let mut b = crate::src::filler(fill, c.at + p + 7);
    let mut covered = vec![];
    let a = c.at + c.prefix;
    let mut h = vec![];
    if c.wide {
        h.extend_from_slice(&[3, 0]);
        for o in &offs {
            h.extend_from_slice(&(*o as u16).to_le_bytes());
        }
    } else {
        h.push(3);
        h.extend(offs.iter().map(|o| *o as u8));
    }
    b[a..a + h.len()].copy_from_slice(&h);
    covered.push((a, a + h.len()));
    for (e, o) in &placed {
        b[c.at + o..c.at + o + e.len()].copy_from_slice(e);
        covered.push((c.at + o, c.at + o + e.len()));
    }
    Some((b, offs, covered))
}

fn size(wide: bool) -> OffsetSize {
    if wide { OffsetSize::U16 } else { OffsetSize::U8 }
}

type Cont<const N: usize> = OffsetArrayContainer<Items<DeviceSQLString, N>, N>;

fn provided<const N: usize>(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let Some((b, offs, covered)) = lay(c, c.fill) else {
        ctx.tag("does-not-fit");
        return Ok(());
    };
    ctx.nt(c.strs.iter().any(|s| !s.text().is_empty()));
    ctx.tag(if c.wide { "u16" } else { "u8" });
    let args = (c.prefix as u64, size(c.wide), ());
    let mut cur = Cursor::new(&b);
    cur.set_position((c.at + c.prefix) as u64);
    let v = Cont::<N>::read_options(&mut cur, Endian::Little, args).map_err(|e| format!("reading fails: {}", short(&e)))?;
    for i in 0..N {
        let t = v.inner.0[i].clone().into_string().map_err(|e| format!("item {i}: {e}"))?;
        if t != c.strs[i].text() {
            return Err(format!("item {i} at offset {} read as {t:?}, stored {:?}", offs[i], c.strs[i]));
        }
    }
    // Write back over a different background: exactly the covered bytes change.
    let mut out = Cursor::new(crate::src::filler(c.fill + 77, b.len()));
    let bg = out.get_ref().clone();
    out.set_position((c.at + c.prefix) as u64);
    v.write_options(&mut out, Endian::Little, args).map_err(|e| format!("writing fails: {}", short(&e)))?;
    let out = out.into_inner();
    let mut want = bg;
    for (x, y) in covered {
        want[x..y].copy_from_slice(&b[x..y]);
    }
    if out != want {
        let i = (0..want.len().min(out.len())).find(|&i| want[i] != out[i]).unwrap_or(want.len());
        return Err(format!("rewriting with the same offsets: byte {} (row byte {}) is {:02x?}, was {:02x?}", i, i as i64 - c.at as i64, out.get(i), want.get(i)));
    }
    // The other offset size is refused, not misread.
    let mut cur = Cursor::new(vec![0u8; b.len() + 64]);
    cur.set_position((c.at + c.prefix) as u64);
    if v.write_options(&mut cur, Endian::Little, (c.prefix as u64, size(!c.wide), ())).is_ok() {
        return Err("offsets of the other size are written without an error".into());
    }
    Ok(())
}

fn check_provided(c: &Case, ctx: &mut Ctx) -> CheckResult {
    match c.n {
        1 => provided::<1>(c, ctx),
        2 => provided::<2>(c, ctx),
        3 => provided::<3>(c, ctx),
        7 => provided::<7>(c, ctx),
        _ => provided::<21>(c, ctx),
    }
}

fn calculated<const N: usize>(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let items: Vec<DeviceSQLString> = c
        .strs
        .iter()
        .map(|s| crate::props::c01::read(&s.encode(), &[]))
        .collect::<Result<_, _>>()?;
    let items: [DeviceSQLString; N] = items.try_into().map_err(|_| "n".to_string())?;
    let v = Cont::<N> { offsets: MaybeCalculated::Calculated, inner: Items(items) };
    let args = (c.prefix as u64, size(c.wide), ());
    let mut out = Cursor::new(vec![0xEEu8; c.at + c.prefix]);
    out.seek(SeekFrom::End(0)).unwrap();
    let r = v.write_options(&mut out, Endian::Little, args);
    let osz = if c.wide { 2 } else { 1 };
    let head = c.prefix + (N + 1) * osz;
    // Tightest layout in order with the documented alignment: says whether it can fit.
    let mut p = head;
    let mut last = head;
    for s in &c.strs {
        if s.is_wide() {
            p = p.next_multiple_of(4);
        }
        last = last.max(p);
        p += s.encode().len();
    }
    let fits = last <= if c.wide { 65_535 } else { 255 };
    if let Err(e) = r {
        ctx.tag("rejected");
        return if fits { Err(format!("writing with calculated offsets fails: {}", short(&e))) } else { Ok(()) };
    }
    ctx.nt(true);
    ctx.tag(if c.wide { "u16" } else { "u8" });
    let b = out.into_inner();
    if b[..c.at + c.prefix].iter().any(|x| *x != 0xEE) {
        return Err("bytes before the array were changed".into());
    }
    let row = &b[c.at..];
    let h = &row[c.prefix..];
    let magic = if c.wide { u16::from_le_bytes([h[0], h[1]]) } else { u16::from(h[0]) };
    if magic != 3 {
        return Err(format!("array starts with {magic:#x}"));
    }
    let mut spans: Vec<(usize, usize)> = vec![(0, head)];
    for i in 0..N {
        let o = if c.wide { usize::from(u16::from_le_bytes([h[2 * i + 2], h[2 * i + 3]])) } else { usize::from(h[i + 1]) };
        let e = c.strs[i].encode();
        if row.get(o..o + e.len()) != Some(&e[..]) {
            return Err(format!("offset {o} of item {i} ({:?}) does not point to it", c.strs[i]));
        }
        if c.strs[i].is_wide() && o % 4 != 0 {
            return Err(format!("UTF-16 item {i} at offset {o}, not a multiple of 4"));
        }
        spans.push((o, o + e.len()));
    }
    spans.sort_unstable();
    for w in spans.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("items overlap: {w:?}"));
        }
    }
    let mut cur = Cursor::new(&b);
    cur.set_position((c.at + c.prefix) as u64);
    let back = Cont::<N>::read_options(&mut cur, Endian::Little, args).map_err(|e| format!("reading back fails: {}", short(&e)))?;
    if back.inner != v.inner {
        return Err(format!("read back {:?}", back.inner));
    }
    Ok(())
}

fn check_calculated(c: &Case, ctx: &mut Ctx) -> CheckResult {
    match c.n {
        1 => calculated::<1>(c, ctx),
        2 => calculated::<2>(c, ctx),
        3 => calculated::<3>(c, ctx),
        7 => calculated::<7>(c, ctx),
        _ => calculated::<21>(c, ctx),
    }
}

#[derive(Debug, Hash)]
struct Nums {
    prefix: usize,
    at: usize,
    wide: bool,
    vals: Vec<u32>,
    offs: Vec<usize>,
}

fn gen_nums(s: &mut Src) -> Nums {
    let wide = s.bool();
    let prefix = s.usize(0, 60);
    let head = prefix + 4 * if wide { 2 } else { 1 };
    let mut offs = vec![];
    let mut p = head;
    for _ in 0..3 {
        let step = if !wide { 20 } else if s.chance(1, 4) { 21_000 } else { 3000 };
        p += s.usize(0, step);
        offs.push(p);
        p += 4;
    }
    let k = s.usize(0, 2);
    offs.swap(0, k);
    Nums { prefix, at: s.usize(0, 20), wide, vals: s.exact(3, |s| s.u32()), offs }
}

/// The same with integers, whose layout needs no string rules.
fn check_nums(c: &Nums, ctx: &mut Ctx) -> CheckResult {
    if !c.wide && c.offs.iter().any(|o| *o > 255) {
        return Ok(());
    }
    ctx.nt(true);
    type C3 = OffsetArrayContainer<Items<u32, 3>, 3>;
    let offsets: OffsetArray<3> = if c.wide {
        [c.offs[0] as u16, c.offs[1] as u16, c.offs[2] as u16].into()
    } else {
        [c.offs[0] as u8, c.offs[1] as u8, c.offs[2] as u8].into()
    };
    let v = C3 { offsets: MaybeCalculated::Provided(offsets), inner: Items([c.vals[0], c.vals[1], c.vals[2]]) };
    let args = (c.prefix as u64, size(c.wide), ());
    let mut out = Cursor::new(vec![]);
    out.set_position((c.at + c.prefix) as u64);
    v.write_options(&mut out, Endian::Little, args).map_err(|e| short(&e))?;
    let b = out.get_ref().clone();
    for i in 0..3 {
        let o = c.at + c.offs[i];
        if b.get(o..o + 4) != Some(&c.vals[i].to_le_bytes()[..]) {
            return Err(format!("value {i} is not at its offset {}", c.offs[i]));
        }
    }
    out.set_position((c.at + c.prefix) as u64);
    let back = C3::read_options(&mut out, Endian::Little, args).map_err(|e| short(&e))?;
    if back != v {
        return Err(format!("read back {back:?}, wrote {v:?}"));
    }
    Ok(())
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "provided", rule: "layout that fits, with a non-empty string", quick: 1_000_000, thorough: 30_000_000, gen, check: check_provided }),
        Box::new(G { name: "calculated", rule: "items that fit", quick: 1_000_000, thorough: 30_000_000, gen, check: check_calculated }),
        Box::new(G { name: "integers", rule: "offsets that fit", quick: 600_000, thorough: 20_000_000, gen: gen_nums, check: check_nums }),
    ];
    Property { id: "C02", level: "exploration", assumptions: &[], groups: g, known: vec![], needs_cli: false }
}
