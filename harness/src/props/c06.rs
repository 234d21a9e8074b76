//! Index pages, index entries and page references.
use super::c04::{eq, read_page, write_page};
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::page::{self, IndexPage};
use crate::src::{filler, Src};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::{DatabaseType, IndexEntry, Page, PageIndex};
use std::io::Cursor;

const EMPTY: u32 = 0x1FFF_FFF8;
const LIMIT: u32 = 0x03FF_FFFF;

#[derive(Debug, Hash)]
pub struct Case {
    pub page: IndexPage,
    at: usize,
}

fn gen(s: &mut Src) -> Case {
    let ps = *s.pick(&[4096u32, 512, 80, 84, 1024, 120, 8192, 16384]);
    gen_of(s, ps)
}

fn gen_large(s: &mut Src) -> Case {
    let ps = *s.pick(&[32768u32, 65536, 65600, 1 << 17, 262_220, 1 << 18, 1 << 20]);
    let mut c = gen_of(s, ps);
    if s.chance(1, 4) {
        // More entries than the generator makes on such pages: up to what the count can say.
        let n = s.usize(3000, IndexPage::capacity(ps).min(65535));
        c.page.entries = s.fill(n * 4).chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) & 0x1FFF_FFF7).collect();
    }
    c
}

fn gen_of(s: &mut Src, ps: u32) -> Case {
    let mut page = page::gen_index(s, ps, 4);
    if s.chance(1, 2) {
        page.page_index = s.u32();
        page.next_page = s.u32();
        page.idx_page = s.u32();
        page.idx_next = s.u32();
        page.unknown1 = s.u32();
        page.unknown2 = s.u32();
        page.flags = s.u8() | 0x40;
        page.free = s.u16();
        page.used = s.u16();
        page.counts = (s.num(13) as u16, s.num(11) as u16);
        page.a = s.u16();
        page.b = s.u16();
        page.first_empty = s.u16();
    }
    if s.chance(1, 3) {
        for e in &mut page.entries {
            *e = s.u32();
        }
    }
    Case { at: s.usize(0, 2) * ps as usize, page }
}

fn index(v: PageIndex) -> Result<u32, String> {
    let mut c = Cursor::new(vec![]);
    v.write_options(&mut c, Endian::Little, ()).map_err(|e| e.to_string())?;
    Ok(u32::from_le_bytes(c.into_inner().try_into().map_err(|_| "size of a page index")?))
}

fn page_index(v: u32) -> Result<PageIndex, String> {
    PageIndex::read_options(&mut Cursor::new(v.to_le_bytes()), Endian::Little, ()).map_err(|e| e.to_string())
}

fn check_entry(e: &IndexEntry, raw: u32) -> CheckResult {
    eq("index flags", e.index_flags(), (raw & 7) as u8)?;
    eq("empty marker", e.is_empty(), raw == EMPTY)?;
    match e.page_index() {
        Ok(p) if raw >> 3 < LIMIT => {
            eq("page reference", index(p)?, raw >> 3)?;
            let again = IndexEntry::try_from((p, e.index_flags())).map_err(|e| format!("rebuilding entry {raw:#x}: {e}"))?;
            eq("rebuilt entry", again == *e, true)
        }
        Ok(p) => Err(format!("entry {raw:#x} gives the out-of-range page reference {p:?}")),
        Err(_) if raw >> 3 >= LIMIT => Ok(()),
        Err(x) => Err(format!("entry {raw:#x}: {x}")),
    }?;
    let _ = format!("{e:?}");
    Ok(())
}

pub fn compare(p: &Page, m: &IndexPage) -> CheckResult {
    let h = &p.header;
    eq("page_index", index(h.page_index)?, m.page_index)?;
    eq("next_page", index(h.next_page)?, m.next_page)?;
    eq("unknown1", h.unknown1, m.unknown1)?;
    eq("unknown2", h.unknown2, m.unknown2)?;
    eq("row counts", (h.packed_row_counts.num_rows(), h.packed_row_counts.num_rows_valid()), m.counts)?;
    eq("flags", h.page_flags.into_bytes(), [m.flags])?;
    eq("free_size", h.free_size, m.free)?;
    eq("used_size", h.used_size, m.used)?;
    let i = p.content.as_index().ok_or("an index page decodes as a data page")?;
    eq("unknown_a", i.header.unknown_a, m.a)?;
    eq("unknown_b", i.header.unknown_b, m.b)?;
    eq("next_offset", i.header.next_offset, m.next_offset)?;
    eq("inner page_index", index(i.header.page_index)?, m.idx_page)?;
    eq("inner next_page", index(i.header.next_page)?, m.idx_next)?;
    eq("num_entries", usize::from(i.header.num_entries), m.entries.len())?;
    eq("first_empty", i.header.first_empty, m.first_empty)?;
    eq("entries", i.entries.len(), m.entries.len())?;
    for (k, (e, raw)) in i.entries.iter().zip(&m.entries).enumerate() {
        check_entry(e, *raw).map_err(|x| format!("entry {k}: {x}"))?;
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let m = &c.page;
    let ps = m.page_size as usize;
    let e = m.encode();
    let mut b = filler(3, c.at + ps + 20);
    b[c.at..c.at + ps].copy_from_slice(&e);
    ctx.nt(!m.entries.is_empty());
    if m.entries.len() == IndexPage::capacity(m.page_size) {
        ctx.tag("full page");
    }
    for db in [DatabaseType::Plain, DatabaseType::Ext] {
        let (p, _) = read_page(&b, c.at, m.page_size, db)?;
        compare(&p, m)?;
        let (out, used) = write_page(&p, filler(8, b.len()), c.at, m.page_size)?;
        eq("position after the page", used, ps as u64)?;
        let got = &out[c.at..c.at + ps];
        if let Some(i) = (0..ps).find(|&i| got[i] != e[i]) {
            return Err(format!("rewritten page: byte {i} is {:#x}, was {:#x}", got[i], e[i]));
        }
        let bg = filler(8, b.len());
        if out[..c.at] != bg[..c.at] || out[c.at + ps..] != bg[c.at + ps..] {
            return Err("writing a page changes bytes outside the page".into());
        }
        let (back, _) = read_page(&out, c.at, m.page_size, db)?;
        eq("page read back equal", back == p, true)?;
    }
    // Edit: other entries, in a model and through the fields.
    let (mut p, _) = read_page(&b, c.at, m.page_size, DatabaseType::Plain)?;
    let mut m2 = m.clone();
    let i = p.content.as_index_mut().ok_or("not an index page")?;
    let refs: Vec<(u32, u8)> = (0..m.entries.len() / 2).map(|k| (k as u32 * 7 + 1, k as u8 & 7)).collect();
    i.entries = refs
        .iter()
        .map(|(r, f)| IndexEntry::try_from((PageIndex::try_from(*r).unwrap(), *f)).map_err(|e| e.to_string()))
        .collect::<Result<_, _>>()?;
    i.header.num_entries = refs.len() as u16;
    m2.entries = refs.iter().map(|(r, f)| (r << 3) | u32::from(*f)).collect();
    let (out, _) = write_page(&p, vec![0; ps], 0, m.page_size)?;
    let want = m2.encode();
    match (0..ps).find(|&i| out.get(i) != Some(&want[i])) {
        Some(i) => Err(format!("page with new entries: byte {i} is {:02x?}, expected {:#x}", out.get(i), want[i])),
        None => Ok(()),
    }
}

#[derive(Debug, Hash)]
struct Bits {
    raw: u32,
    index: u32,
    flags: u8,
    page_size: u32,
}

fn gen_bits(s: &mut Src) -> Bits {
    let near = |s: &mut Src, v: u32| v.wrapping_add(s.below(9) as u32).wrapping_sub(4);
    Bits {
        raw: match s.below(4) {
            0 => near(s, EMPTY),
            _ => s.u32(),
        },
        index: match s.below(5) {
            0 => near(s, LIMIT),
            1 => near(s, 1 << 29),
            2 => s.num(26) as u32,
            _ => s.u32(),
        },
        flags: s.u8(),
        page_size: s.u32(),
    }
}

fn check_bits(c: &Bits, ctx: &mut Ctx) -> CheckResult {
    ctx.nt(c.raw != 0 || c.index != 0);
    let e = IndexEntry::read_options(&mut Cursor::new(c.raw.to_le_bytes()), Endian::Little, ()).map_err(|e| e.to_string())?;
    check_entry(&e, c.raw)?;
    let mut w = Cursor::new(vec![]);
    e.write_options(&mut w, Endian::Little, ()).map_err(|e| e.to_string())?;
    eq("rewritten entry", w.into_inner(), c.raw.to_le_bytes().to_vec())?;
    match PageIndex::try_from(c.index) {
        Ok(p) => {
            eq("an index in range", c.index < LIMIT, true)?;
            eq("page index", index(p)?, c.index)?;
        }
        Err(_) => eq("an index out of range", c.index >= LIMIT, true)?,
    }
    // A reference read from a file may be out of range.
    let p = page_index(c.index)?;
    eq("page offset", u128::from(p.offset(c.page_size)), u128::from(c.index) * u128::from(c.page_size))?;
    match IndexEntry::try_from((p, c.flags)) {
        Ok(e) => {
            ctx.tag("entry built");
            if c.flags > 7 {
                return Err(format!("flags {:#x} are accepted", c.flags));
            }
            let back = e.page_index().map_err(|x| format!("entry built from page {:#x}: {x}", c.index))?;
            eq("page reference of a built entry", index(back)?, c.index)?;
            eq("flags of a built entry", e.index_flags(), c.flags)?;
            eq("built entry is empty", e.is_empty(), false)
        }
        Err(_) => {
            ctx.tag("entry refused");
            eq("a refused pair is out of range", c.flags > 7 || c.index >= LIMIT, true)
        }
    }?;
    eq("the empty entry is empty", IndexEntry::empty().is_empty(), true)
}

#[derive(Debug, Hash)]
struct Contra {
    page: IndexPage,
    /// Stated number of entries, or other magic bytes.
    count: Option<u16>,
    at: usize,
    byte: u8,
    edit: u16,
}
fn gen_contra(s: &mut Src) -> Contra {
    let ps = *s.pick(&[4096u32, 512, 80, 84, 1024, 120, 8192]);
    let page = page::gen_index(s, ps, 4);
    let cap = IndexPage::capacity(ps);
    let above = |s: &mut Src| if s.bool() { cap + 1 + s.usize(0, 6) } else { s.usize(cap + 1, 65535) };
    let count = s.chance(2, 3).then(|| above(s) as u16);
    let magic: Vec<usize> = (0..4).chain(36..38).chain(48..56).collect();
    let n = page.entries.len() as u16;
    let edit = match s.below(4) {
        0 => n.wrapping_sub(1),
        1 => n + 1,
        2 => 0,
        _ => s.u16(),
    };
    Contra { page, count, at: *s.pick(&magic), byte: s.int(1, 255) as u8, edit }
}
/// Pages that contradict themselves are refused, when they are read and when they are written.
fn check_contra(c: &Contra, ctx: &mut Ctx) -> CheckResult {
    let ps = c.page.page_size as usize;
    let good = c.page.encode();
    let mut b = good.clone();
    match c.count {
        Some(n) => b[56..58].copy_from_slice(&n.to_le_bytes()),
        None => b[c.at] ^= c.byte,
    }
    b.resize(ps + 4 * 65536, 1);
    ctx.nt(!c.page.entries.is_empty());
    ctx.tag(if c.count.is_some() { "count" } else { "magic" });
    let mut r = Cursor::new(&b);
    if let Ok(p) = Page::read_options(&mut r, Endian::Little, (c.page.page_size, DatabaseType::Plain)) {
        return Err(match c.count {
            Some(n) => format!("a page of {ps} bytes with {n} entries is read ({:?} of them)", p.content.as_index().map(|i| i.entries.len())),
            None => format!("a page with another value of the constant at {} is read", c.at),
        });
    }
    let (mut p, _) = read_page(&good, 0, c.page.page_size, DatabaseType::Plain)?;
    if usize::from(c.edit) != c.page.entries.len() {
        p.content.as_index_mut().ok_or("not an index page")?.header.num_entries = c.edit;
        let mut w = Cursor::new(vec![0x5a; 2 * ps]);
        let r = p.write_options(&mut w, Endian::Little, (c.page.page_size,));
        eq("bytes behind the page are untouched", w.into_inner()[ps..].iter().all(|b| *b == 0x5a), true)?;
        if r.is_ok() {
            return Err(format!("a page with {} entries is written with the count {}", c.page.entries.len(), c.edit));
        }
    }
    Ok(())
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "pages", rule: "at least one entry", quick: 360_000, thorough: 9_000_000, gen, check }),
        Box::new(G { name: "large-pages", rule: "at least one entry", quick: 600, thorough: 20_000, gen: gen_large, check }),
        Box::new(G { name: "contradictions", rule: "at least one entry", quick: 30_000, thorough: 1_000_000, gen: gen_contra, check: check_contra }),
        Box::new(G { name: "entries", rule: "non-zero values", quick: 2_400_000, thorough: 120_000_000, gen: gen_bits, check: check_bits }),
    ];
    Property { id: "C06", level: "exploration", assumptions: &[], groups: g, known: vec![], needs_cli: false }
}
