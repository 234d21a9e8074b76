//! Data pages.
use super::c01::short;
use super::c03;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::page::{self, DataPage};
use crate::model::row::{self, Kind};
use crate::src::{filler, Src};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::{DatabaseType, Page, PageType};
use std::io::Cursor;

#[derive(Debug, Hash)]
pub struct Case {
    pub page: DataPage,
    pub kind: Kind,
    pub at: usize,
}

pub fn read_page(b: &[u8], at: usize, page_size: u32, db: DatabaseType) -> Result<(Page, u64), String> {
    let mut c = Cursor::new(b);
    c.set_position(at as u64);
    let p = Page::read_options(&mut c, Endian::Little, (page_size, db)).map_err(|e| format!("a valid page is rejected: {}", short(&e)))?;
    Ok((p, c.position() - at as u64))
}

pub fn write_page(p: &Page, bg: Vec<u8>, at: usize, page_size: u32) -> Result<(Vec<u8>, u64), String> {
    let mut c = Cursor::new(bg);
    c.set_position(at as u64);
    p.write_options(&mut c, Endian::Little, (page_size,)).map_err(|e| format!("writing the page fails: {}", short(&e)))?;
    let n = c.position() - at as u64;
    Ok((c.into_inner(), n))
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> CheckResult {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:?}, expected {want:?}"))
    }
}

fn gen(s: &mut Src) -> Case {
    let kind = row::any_kind(s);
    let ps = *s.pick(&[4096u32, 1024, 512, 8192, 2048]);
    let max = *s.pick(&[5usize, 40, 40, 130]);
    let plain = !s.chance(1, 3);
    let mut page = page::gen_data(s, ps, kind, plain, max);
    header(s, &mut page);
    Case { page, kind, at: if s.chance(1, 2) { 0 } else { s.usize(0, 3) * ps as usize } }
}

fn header(s: &mut Src, page: &mut DataPage) {
    if s.chance(1, 2) {
        page.page_index = s.u32();
        page.next_page = s.u32();
        page.unknown1 = s.u32();
        page.unknown2 = s.u32();
        page.flags = s.u8() & !0x40;
        page.free = s.u16();
        page.used = s.u16();
        page.hdr = [s.u16(), s.u16(), s.u16(), s.u16()];
    }
}

/// Pages with hundreds or thousands of small rows.
fn gen_many(s: &mut Src) -> Case {
    let kind = *s.pick(&[Kind::PlaylistEntry, Kind::HistoryEntry, Kind::TrackTag, Kind::Menu]);
    let (ps, n) = *s.pick(&[(4096u32, 300usize), (16384, 1100), (65536, 2047), (65536, 4700), (1 << 17, 5500), (1 << 20, 5500)]);
    let n = s.usize(n / 2, n);
    let mut rows = vec![];
    let proto = row::gen(s, kind, true, true);
    let stride = s.int(1, 5);
    let mut valid = 0;
    let names: &[&str] = match kind {
        Kind::PlaylistEntry | Kind::HistoryEntry => &["entry_index", "track_id", "playlist_id"],
        Kind::TrackTag => &["track_id", "tag_id", "unknown_const"],
        _ => &["category_id", "content_pointer", "sort_order"],
    };
    for i in 0..n as u64 {
        let mut r = proto.clone();
        for (k, name) in names.iter().enumerate() {
            r.set_val(name, (i * (k as u64 + 1)) & 0xffff);
        }
        let present = valid < 2047 && (stride == 5 || i % (stride + 1) != 0 || i % 7 == 3);
        valid += usize::from(present);
        rows.push((present, r));
    }
    let mut page = page::layout(s, ps, kind.number(), rows, true);
    header(s, &mut page);
    Case { page, kind, at: 0 }
}

/// Header, row groups and rows of a decoded page against the model.
pub fn compare(p: &Page, m: &DataPage, kind: Kind, ctx: &mut Ctx, names: bool) -> CheckResult {
    let h = &p.header;
    eq("page_index", h.page_index.offset(1), u64::from(m.page_index))?;
    eq("page type", h.page_type, kind.page_type())?;
    eq("next_page", h.next_page.offset(1), u64::from(m.next_page))?;
    eq("unknown1", h.unknown1, m.unknown1)?;
    eq("unknown2", h.unknown2, m.unknown2)?;
    eq("num_rows", usize::from(h.packed_row_counts.num_rows()), m.slots.len())?;
    eq("num_rows_valid", usize::from(h.packed_row_counts.num_rows_valid()), m.valid())?;
    eq("page flags", h.page_flags.into_bytes(), [m.flags])?;
    eq("is_index_page", h.page_flags.is_index_page(), false)?;
    eq("contains_deleted", h.page_flags.contains_deleted(), m.flags & 0x10 != 0)?;
    eq("flag 2", h.page_flags.unknown2(), m.flags & 4 != 0)?;
    eq("free_size", h.free_size, m.free)?;
    eq("used_size", h.used_size, m.used)?;
    let d = p.content.as_data().ok_or("a data page decodes as an index page")?;
    eq("data header", [d.header.unknown5, d.header.unknown_not_num_rows_large, d.header.unknown6, d.header.unknown7], m.hdr)?;
    eq("number of row groups", d.row_groups.len(), m.groups())?;
    for (g, rg) in d.row_groups.iter().enumerate() {
        let slots = &m.slots[16 * g..m.slots.len().min(16 * g + 16)];
        let flags = slots.iter().enumerate().fold(0u16, |f, (k, s)| f | u16::from(s.present) << k);
        eq("presence bits", rg.row_presence_flags, flags)?;
        eq("row group unknown", rg.unknown, m.group_unknown.get(g).copied().unwrap_or(0))?;
        for (k, s) in slots.iter().enumerate() {
            if s.present {
                eq("row offset", rg.row_offsets[15 - k], s.offset)?;
            }
        }
    }
    let mut want: Vec<_> = m.slots.iter().filter(|s| s.present).collect();
    want.sort_by_key(|s| s.offset);
    let keys: Vec<u16> = d.rows.keys().copied().collect();
    eq("row offsets of the page", keys, want.iter().map(|s| s.offset).collect())?;
    for (s, r) in want.iter().zip(d.rows.values()) {
        c03::compare(r, &s.row, ctx, names).map_err(|e| format!("row at {}: {e}", s.offset))?;
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let m = &c.page;
    let ps = m.page_size as usize;
    let mut b = filler(99, c.at + ps + 64);
    let e = m.encode(true);
    b[c.at..c.at + ps].copy_from_slice(&e);
    ctx.nt(m.valid() > 0);
    ctx.tag(match m.groups() {
        0 => "0 groups",
        1 => "1 group",
        2 => "2 groups",
        3..=9 => "3-9 groups",
        _ => "10+ groups",
    });
    if m.valid() < m.slots.len() {
        ctx.tag("deleted rows");
    }
    let plain = m.slots.len() < 60 && m.slots.iter().all(|s| s.row.strs.iter().all(|t| !t.text().is_empty() && t.text().chars().all(char::is_alphanumeric)));
    let (p, used) = read_page(&b, c.at, m.page_size, c.kind.db())?;
    eq("position after the page", used, ps as u64)?;
    compare(&p, m, c.kind, ctx, plain)?;
    let (out, used) = write_page(&p, b.clone(), c.at, m.page_size)?;
    eq("position after writing the page", used, ps as u64)?;
    if out != b {
        let i = (0..b.len()).find(|&i| out.get(i) != Some(&b[i])).unwrap_or(b.len());
        return Err(format!("rewriting the page in place changes byte {} from {:02x?} to {:02x?}", i as i64 - c.at as i64, b.get(i), out.get(i)));
    }
    // The views of the content agree.
    let mut q = p.clone();
    if q.content.as_index().is_some() || q.content.as_index_mut().is_some() || q.content.clone().into_index().is_some() || q.content.as_data_mut().is_none() {
        return Err("a data page is also presented as an index page".into());
    }
    if q.content.into_data().as_ref() != p.content.as_data() {
        return Err("into_data gives another content than as_data".into());
    }
    // To an empty page: exactly the reachable bytes.
    let (out, _) = write_page(&p, vec![0; ps], 0, m.page_size)?;
    let (back, _) = read_page(&out, 0, m.page_size, c.kind.db())?;
    if back != p {
        return Err("a page written to an empty page decodes to another page".into());
    }
    let want = m.encode(false);
    eq("size of the written page", out.len(), ps)?;
    if let Some(i) = (0..ps).find(|&i| out[i] != want[i]) {
        return Err(format!("page written to an empty page: byte {i} is {:#x}, expected {:#x}", out[i], want[i]));
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct Unknown {
    page: DataPage,
    ptype: u32,
    ext: bool,
}

fn gen_unknown(s: &mut Src) -> Unknown {
    let ext = s.bool();
    let ptype = loop {
        let t = if s.bool() { s.below(24) as u32 } else { s.u32() };
        let known: &[u32] = if ext { &[3, 4] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 16, 17, 19] };
        if !known.contains(&t) {
            break t;
        }
        if s.rec.len() > 5000 {
            break 9;
        }
    };
    let mut page = page::gen_data(s, 1024, Kind::PlaylistEntry, true, 20);
    page.ptype = ptype;
    Unknown { page, ptype, ext }
}

/// Pages of tables this library does not know keep their bytes.
fn check_unknown(c: &Unknown, ctx: &mut Ctx) -> CheckResult {
    let b = c.page.encode(true);
    ctx.nt(c.page.valid() > 0);
    let db = if c.ext { DatabaseType::Ext } else { DatabaseType::Plain };
    let (p, _) = read_page(&b, 0, c.page.page_size, db)?;
    eq("page type", p.header.page_type, PageType::Unknown(c.ptype))?;
    eq("rows", p.content.as_data().map_or(0, |d| d.rows.len()), c.page.valid())?;
    let (out, _) = write_page(&p, b.clone(), 0, c.page.page_size)?;
    eq("rewritten page of an unknown type unchanged", out == b, true)
}

#[derive(Debug, Hash)]
struct Packed {
    rows: u16,
    valid: u16,
    flags: u8,
    align: u64,
    offset: u64,
}
fn gen_packed(s: &mut Src) -> Packed {
    Packed { rows: s.num(13) as u16, valid: s.num(11) as u16, flags: s.u8(), align: s.int(1, 64), offset: s.num(40) }
}
/// The packed header fields at the documented bits, whichever way they are set.
fn check_packed(c: &Packed, ctx: &mut Ctx) -> CheckResult {
    use rekordcrate::pdb::bitfields::{PackedRowCounts, PageFlags};
    ctx.nt(c.rows != 0 && c.valid != 0);
    let bits = u32::from(c.rows) | u32::from(c.valid) << 13;
    let stored = &bits.to_le_bytes()[..3];
    let p = PackedRowCounts::read_le(&mut Cursor::new(stored)).map_err(|e| short(&e))?;
    eq("num_rows", p.num_rows(), c.rows)?;
    eq("num_rows_valid", p.num_rows_valid(), c.valid)?;
    let mut q = PackedRowCounts::new().with_num_rows_valid(c.valid).with_num_rows(c.rows);
    eq("built row counts", q == p, true)?;
    q.set_num_rows(c.rows ^ 0x1fff);
    eq("num_rows_valid after num_rows is set", q.num_rows_valid(), c.valid)?;
    q.set_num_rows(c.rows);
    let mut w = Cursor::new(vec![]);
    q.write_le(&mut w).map_err(|e| short(&e))?;
    eq("written row counts", &w.into_inner()[..], stored)?;
    let a = PackedRowCounts::from_all_valid(usize::from(c.valid));
    eq("row counts of a page without deleted rows", (a.num_rows(), a.num_rows_valid()), (c.valid, c.valid))?;
    eq("default row counts", (PackedRowCounts::default().num_rows(), PackedRowCounts::default().num_rows_valid()), (0, 0))?;
    let f = PageFlags::read_le(&mut Cursor::new([c.flags])).map_err(|e| short(&e))?;
    let got = [f.unknown0(), f.unknown1(), f.unknown2(), f.unknown3(), f.contains_deleted(), f.unknown5(), f.is_index_page(), f.unknown7()];
    eq("page flags", got, [0, 1, 2, 3, 4, 5, 6, 7].map(|i| c.flags >> i & 1 != 0))?;
    let mut w = Cursor::new(vec![]);
    f.write_le(&mut w).map_err(|e| short(&e))?;
    eq("written page flags", w.into_inner(), vec![c.flags])?;
    eq("flags of a new data page", PageFlags::new_data_page().into_bytes(), [0x24])?;
    eq("flags of a new index page", PageFlags::new_index_page().into_bytes(), [0x64])?;
    let up = rekordcrate::util::align_by(c.align, c.offset);
    eq("aligned offset is a multiple", up % c.align, 0)?;
    eq("aligned offset is the next one", up >= c.offset && up - c.offset < c.align, true)
}

#[derive(Debug, Hash)]
enum Wrong {
    Magic(usize, u8),
    Valid(u16),
    /// Presence bit of a slot.
    Bit(usize),
    /// Two rows at one place.
    Twins(usize, usize),
    /// Fewer rows than presence bits.
    Rows(u16),
}
#[derive(Debug, Hash)]
struct Contra {
    page: DataPage,
    kind: Kind,
    wrong: Wrong,
}
fn gen_contra(s: &mut Src) -> Contra {
    let kind = row::any_kind(s);
    let mut page = page::gen_data(s, 4096, kind, true, 50);
    header(s, &mut page);
    let n = page.slots.len();
    let valid = page.valid();
    let present: Vec<usize> = (0..n).filter(|&i| page.slots[i].present).collect();
    let wrong = match s.weighted(&[1, 2, 2, 2, 2]) {
        2 if n > 0 => Wrong::Bit(s.usize(0, n - 1)),
        3 if valid > 1 => {
            let i = s.usize(0, valid - 2);
            Wrong::Twins(present[i], present[i + 1])
        }
        4 if page.groups() > 1 && page.slots[16..].iter().any(|s| s.present) => {
            let keep = present.iter().filter(|i| **i >= 16).map(|i| i / 16).max().unwrap_or(0);
            Wrong::Rows(s.usize(0, 16 * keep) as u16)
        }
        0 => Wrong::Magic(s.usize(0, 3), s.int(1, 255) as u8),
        _ => Wrong::Valid(loop {
            let v = if s.bool() { (valid as u16 + s.below(5) as u16).saturating_sub(2) } else { s.num(11) as u16 };
            if usize::from(v) != valid {
                break v;
            }
            if s.rec.len() > 100_000 {
                break valid as u16 + 1;
            }
        }),
    };
    Contra { page, kind, wrong }
}
/// Counts, presence bits and offsets that contradict each other are an error.
fn check_contra(c: &Contra, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.page.encode(true);
    let ps = b.len();
    let offset = |i: usize| ps - 36 * (i / 16 + 1) + 2 * (15 - i % 16);
    let counts = |b: &mut [u8], rows: u32, valid: u32| b[24..27].copy_from_slice(&(rows | valid << 13).to_le_bytes()[..3]);
    let (n, v) = (c.page.slots.len() as u32, c.page.valid() as u32);
    match c.wrong {
        Wrong::Magic(at, x) => b[at] ^= x,
        Wrong::Valid(v) => counts(&mut b, n, v.into()),
        Wrong::Rows(n) => counts(&mut b, n.into(), v),
        Wrong::Bit(i) => {
            let at = ps - 36 * (i / 16 + 1) + 32 + i % 16 / 8;
            b[at] ^= 1 << (i % 8);
        }
        Wrong::Twins(i, k) => {
            let (x, y) = (b[offset(i)], b[offset(i) + 1]);
            b[offset(k)] = x;
            b[offset(k) + 1] = y;
        }
    }
    ctx.nt(v > 0);
    ctx.tag(match c.wrong {
        Wrong::Magic(..) => "magic",
        Wrong::Valid(_) => "number of valid rows",
        Wrong::Rows(_) => "number of rows",
        Wrong::Bit(_) => "presence bit",
        Wrong::Twins(..) => "same offset",
    });
    let mut r = Cursor::new(&b);
    match Page::read_options(&mut r, Endian::Little, (c.page.page_size, c.kind.db())) {
        Err(_) => Ok(()),
        Ok(p) => Err(format!("a page that contradicts itself ({:?}; {n} rows, {v} present) is read with {:?} rows", c.wrong, p.content.as_data().map(|d| d.rows.len()))),
    }
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "pages", rule: "at least one present row", quick: 300_000, thorough: 7_500_000, gen, check }),
        Box::new(G { name: "many-rows", rule: "at least one present row", quick: 4_000, thorough: 100_000, gen: gen_many, check }),
        Box::new(G { name: "contradictions", rule: "at least one present row", quick: 40_000, thorough: 1_000_000, gen: gen_contra, check: check_contra }),
        Box::new(G { name: "packed", rule: "non-zero counts", quick: 400_000, thorough: 10_000_000, gen: gen_packed, check: check_packed }),
        Box::new(G { name: "unknown-types", rule: "at least one present row", quick: 50_000, thorough: 1_000_000, gen: gen_unknown, check: check_unknown }),
    ];
    Property { id: "C04", level: "exploration", assumptions: &[], groups: g, known: vec![], needs_cli: false }
}
