//! Robustness of PDB parsing.
use super::c07;
use crate::alloc::with_limit;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::mutate::{self, Mut};
use crate::model::page::{self, AnyDb, PageM, Shape};
use crate::model::row::{self, Kind};
use crate::sio::Shared;
use crate::src::{filler, Src};
use binrw::{BinRead, BinWrite};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb as p;
use rekordcrate::pdb::ext::ExtPageType;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::{DatabaseType, PageType};
use rekordcrate::util::TableIndex;
use std::fmt::Write as _;
use std::io::{Cursor, Read, Seek};

pub const SHAPE: Shape = Shape { sizes: &[512, 1024, 2048, 4096], max_tables: 4, max_pages: 3, max_rows: 20, unknown_tables: true };
/// What one input may occupy: the largest seen is 19 MB, and 0.5 kB for each byte of a database.
fn heap(n: usize) -> usize {
    (64 << 20) + (n << 10)
}
const OPS: u64 = 30_000_000;

/// Offsets in the file that decide how the rest is read.
pub fn hot(db: &AnyDb) -> Vec<usize> {
    let ps = db.db.page_size as usize;
    let mut h: Vec<usize> = (0..28).step_by(4).collect();
    h.extend((0..db.db.chains.len() * 4).map(|k| 28 + 4 * k));
    for p in db.db.chains.iter().flat_map(|c| &c.2) {
        let o = p.index() as usize * ps;
        h.extend([4, 8, 12, 24, 25, 26, 27, 28, 30, 32, 34, 36, 38].map(|k| o + k));
        match p {
            PageM::Data(d) => {
                for (k, x) in d.slots.iter().enumerate() {
                    let g = o + ps - 36 * (k / 16 + 1);
                    h.push(g + 2 * (15 - k % 16));
                    h.push(g + 32);
                    let r = o + 40 + x.offset as usize;
                    h.push(r);
                    let e = x.row.encode();
                    for q in e.offsets {
                        h.push(r + q);
                        h.push(r + q + 1);
                    }
                    for (i, b) in e.bytes.iter().enumerate().take(160) {
                        if matches!(b, 0x40 | 0x90 | 3) {
                            h.push(r + i);
                            h.push(r + i + 1);
                        }
                    }
                }
            }
            PageM::Index(_) => h.extend([40, 44, 48, 52, 56, 58, 60, 64].map(|k| o + k)),
        }
    }
    h
}

/// How much of an object is formatted.
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.saturating_sub(s.len());
        if self.0 == 0 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
pub fn format<T: std::fmt::Debug>(v: &T) {
    format_to(v, 4 << 20);
}
pub fn format_to<T: std::fmt::Debug>(v: &T, n: usize) {
    let _ = write!(Sink(n), "{v:?}");
    let _ = write!(Sink(n), "{v:#?}");
}

/// Stream that takes up to 1 MiB.
fn sink() -> Shared {
    let d = Shared::new(vec![]);
    d.with(|d| d.max_len = 1 << 20);
    d
}

#[derive(Default)]
struct Seen {
    pages: usize,
    rows: usize,
    errors: usize,
}

fn page_ops(pg: &mut p::Page, ps: u32, seen: &mut Seen) {
    seen.pages += 1;
    format(pg);
    if let Some(d) = pg.content.as_data() {
        seen.rows += d.rows.len();
        for r in d.rows.values().take(4) {
            format(r);
        }
    }
    if let Some(i) = pg.content.as_index() {
        for e in i.entries.iter().take(50) {
            let _ = e.page_index();
            let _ = (e.index_flags(), e.is_empty());
            format(e);
        }
    }
    let mut out = sink();
    let _ = pg.write_le_args(&mut out, (ps,));
    // Asking for room in a page that was decoded from anything must not panic either.
    let mut c = pg.clone();
    for bytes in [0u16, 4, 13, 400, 65535] {
        let _ = c.allocate_row(bytes).is_some();
    }
    let _ = c.write_le_args(&mut sink(), (ps,));
}

pub fn all_types() -> Vec<PageType> {
    let mut v: Vec<PageType> = row::ALL.iter().map(|k| k.page_type()).collect();
    v.extend([PageType::Unknown(9), PageType::Unknown(0xffff_ffff), PageType::Ext(ExtPageType::Tag)]);
    v
}

fn drive<IO: Read + Seek>(db: &mut Database<IO>, seen: &mut Seen) {
    format(db.get_header());
    let ps = db.get_header().page_size;
    let n = db.get_header().tables.len().min(40);
    for k in 0..=n {
        match db.iter_pages_for_table(TableIndex::from(k)) {
            Ok(mut it) => loop {
                match it.next() {
                    Ok(Some(pg)) => page_ops(pg, ps, seen),
                    Ok(None) => break,
                    Err(e) => {
                        let _ = e.to_string();
                        seen.errors += 1;
                        break;
                    }
                }
            },
            Err(e) => {
                let _ = e.to_string();
                seen.errors += 1;
            }
        }
    }
    for t in all_types() {
        let _ = db.get_header().find_table(t);
        if let Ok(mut it) = db.iter_pages(t) {
            while let Ok(Some(_)) = it.next() {}
        }
    }
    for k in row::ALL {
        if let Ok((rows, Some(_))) = c07::rows_of(db, *k, 200) {
            seen.errors += 1;
            let _ = rows;
        }
    }
    for i in [0u32, 1, 2, 3, 5, 9, 40, 0x03ff_fffe] {
        if let Ok(i) = c07::index(i) {
            if let Err(e) = db.load_page(i) {
                let _ = e.to_string();
            }
        }
    }
    let _ = rekordcrate::device::get_playlists(db);
}

pub fn run_db(bytes: &[u8], ty: DatabaseType, ctx: &mut Ctx) -> CheckResult {
    let dev = Shared::new(bytes.to_vec());
    dev.with(|d| d.max_ops = Some(OPS));
    let mut seen = Seen::default();
    let (opened, _) = with_limit(heap(bytes.len()), || {
        let Ok(mut db) = Database::open(dev.clone(), ty) else { return false };
        drive(&mut db, &mut seen);
        for _ in 0..2 {
            let _ = db.flush();
        }
        let _ = db.close();
        true
    });
    if dev.with(|d| d.over_budget && d.ops > OPS) {
        return Err(format!("more than {OPS} I/O operations for {} bytes", bytes.len()));
    }
    if let Some((o, n)) = dev.with(|d| d.writes.iter().copied().find(|(o, n)| *o as usize + n > bytes.len() + (1 << 20))) {
        return Err(format!("flush writes {n} bytes at {o} of a file of {} bytes", bytes.len()));
    }
    ctx.nt(seen.pages > 0);
    if opened {
        ctx.tag("opened");
    }
    if seen.rows > 0 {
        ctx.tag("rows decoded");
    }
    if seen.errors > 0 {
        ctx.tag("errors reported");
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct DbCase {
    db: AnyDb,
    muts: Vec<Mut>,
    other: bool,
}
fn gen_db(s: &mut Src) -> DbCase {
    let db = page::gen_db(s, SHAPE);
    let n = db.db.page_size as usize * db.db.next_unused as usize;
    let muts = mutate::gen(s, n, &hot(&db));
    DbCase { db, muts, other: s.chance(1, 10) }
}
fn check_db(c: &DbCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.db.db.encode();
    mutate::apply(&mut b, &c.muts);
    let ty = match (c.db.db_type(), c.other) {
        (DatabaseType::Plain, true) => DatabaseType::Ext,
        (DatabaseType::Ext, true) => DatabaseType::Plain,
        (t, _) => t,
    };
    run_db(&b, ty, ctx)
}

/// Bytes behind a header that passes the first tests.
#[derive(Debug, Hash)]
struct RawCase {
    ext: bool,
    header: Option<(u32, u32, Vec<[u32; 4]>)>,
    body: Vec<u8>,
    noise: (usize, u64),
}
fn gen_raw(s: &mut Src) -> RawCase {
    let header = s.chance(4, 5).then(|| {
        let ps = if s.chance(2, 3) { *s.pick(&[64u32, 128, 512, 4096]) } else { s.u32() };
        let unused = s.u32();
        let t = s.list(0, 6, 2, |s| [s.below(20) as u32, s.u32(), s.below(4) as u32, s.u32()]);
        (ps, unused, t)
    });
    RawCase { ext: s.bool(), header, body: s.list(0, 200, 30, |s| s.u8()), noise: (s.usize(0, 2000), s.below(1 << 20)) }
}
fn check_raw(c: &RawCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = vec![];
    if let Some((ps, unused, t)) = &c.header {
        let ts: Vec<page::Table> = t.iter().map(|t| page::Table { ptype: t[0], empty_candidate: t[1], first: t[2], last: t[3] }).collect();
        b = page::db_header(*ps, *unused, 0, 0, &ts);
        let used = b.len();
        b.resize(used.max((*ps as usize).min(4096)), 0);
    }
    b.extend(&c.body);
    b.extend(filler(c.noise.1, c.noise.0));
    ctx.nt(c.header.is_some());
    run_db(&b, if c.ext { DatabaseType::Ext } else { DatabaseType::Plain }, ctx)
}

/// A single page, possibly one that claims as many rows as its size allows.
#[derive(Debug, Hash)]
struct PageCase {
    page: PageM,
    kind: Kind,
    muts: Vec<Mut>,
    size: u32,
    rows: Option<u16>,
}
fn gen_page(s: &mut Src) -> PageCase {
    let kind = row::any_kind(s);
    let ps = *s.pick(&[512u32, 1024, 4096]);
    let page = if s.chance(1, 4) { PageM::Index(page::gen_index(s, ps, kind.number())) } else { PageM::Data(page::gen_data(s, ps, kind, false, 20)) };
    let mut h: Vec<usize> = (0..64).step_by(2).collect();
    h.extend((ps as usize - 72..ps as usize).step_by(2));
    if let PageM::Data(d) = &page {
        h.extend(d.slots.iter().map(|x| 40 + x.offset as usize));
    }
    let muts = mutate::gen(s, ps as usize, &h);
    let size = if s.chance(1, 5) { s.u32() } else { ps };
    PageCase { page, kind, muts, size, rows: s.chance(1, 12).then(|| s.num(13) as u16) }
}
fn check_page(c: &PageCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.page.encode();
    mutate::apply(&mut b, &c.muts);
    if let (Some(n), true) = (c.rows, b.len() > 40) {
        let packed = u32::from(n & 0x1fff) | (u32::from(n & 0x7ff) << 13);
        b[24..27].copy_from_slice(&packed.to_le_bytes()[..3]);
    }
    let mut seen = Seen::default();
    with_limit(heap(b.len()), || {
        for t in [c.kind.db(), if c.kind.db() == DatabaseType::Plain { DatabaseType::Ext } else { DatabaseType::Plain }] {
            match p::Page::read_le_args(&mut Cursor::new(&b), (c.size, t)) {
                Ok(mut pg) => page_ops(&mut pg, c.size, &mut seen),
                Err(e) => {
                    let _ = e.to_string();
                }
            }
        }
    });
    ctx.nt(seen.pages > 0);
    if seen.rows > 0 {
        ctx.tag("rows decoded");
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct RowCase {
    kind: Kind,
    bytes: Vec<u8>,
    /// Pieces of a valid row around the corruption.
    row: Option<(row::Row, Vec<Mut>)>,
}
fn gen_row(s: &mut Src) -> RowCase {
    let kind = row::any_kind(s);
    let row = s.chance(3, 4).then(|| {
        let r = row::gen(s, kind, false, false);
        let e = r.encode();
        let hot: Vec<usize> = (0..8).chain(e.offsets.iter().flat_map(|o| [*o, *o + 1, *o + 2])).chain(e.bytes.len().saturating_sub(60)..e.bytes.len()).collect();
        let m = mutate::gen(s, e.bytes.len(), &hot);
        (r, m)
    });
    RowCase { kind, bytes: s.list(0, 300, 60, |s| s.u8()), row }
}
fn check_row(c: &RowCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = vec![];
    if let Some((r, m)) = &c.row {
        b = r.encode().bytes;
        mutate::apply(&mut b, m);
    }
    b.extend(&c.bytes);
    let mut n = 0;
    with_limit(heap(b.len()), || {
        for k in std::iter::once(&c.kind).chain(row::ALL) {
            let mut cur = Cursor::new(&b);
            if let Ok(r) = p::Row::read_le_args(&mut cur, (k.page_type(),)) {
                n += 1;
                format(&r);
                let _ = r.write_le(&mut Cursor::new(vec![]));
            }
        }
        let mut cur = Cursor::new(&b);
        while let Ok(t) = DeviceSQLString::read_le(&mut cur) {
            let _ = (t.to_string(), format!("{t:?}"), t.clone().into_string());
            let _ = t.write_le(&mut Cursor::new(vec![]));
        }
    });
    ctx.nt(n > 0);
    Ok(())
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "mutated", rule: "at least one page of the corrupted database is decoded", quick: 50_000, thorough: 3_000_000, gen: gen_db, check: check_db }),
        Box::new(G { name: "raw", rule: "the header is plausible", quick: 30_000, thorough: 2_000_000, gen: gen_raw, check: check_raw }),
        Box::new(G { name: "page", rule: "the corrupted page is decoded", quick: 60_000, thorough: 3_000_000, gen: gen_page, check: check_page }),
        Box::new(G { name: "row", rule: "the bytes are accepted as a row of some kind", quick: 80_000, thorough: 4_000_000, gen: gen_row, check: check_row }),
    ];
    Property {
        id: "C16",
        level: "exploration",
        assumptions: &[
            "memory: 64 MiB of heap and 1 KiB for each byte of the input; work: 30 million I/O operations and 40 s of CPU time per input",
            "integer overflow counts as a panic (the harness is built with overflow checks)",
        ],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
