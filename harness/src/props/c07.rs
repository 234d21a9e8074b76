//! Traversal of tables.
use super::{c03, c04, c06};
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::page::{AnyDb, PageM, Shape};
use crate::model::row::{Kind, Row};
use crate::model::{page, row};
use crate::dbg;
use crate::src::Src;
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb as p;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::PageIndex;
use rekordcrate::util::{RekordcrateError, TableIndex};
use std::io::{Cursor, Read, Seek};

pub const SHAPE: Shape = Shape { sizes: &[1024, 512, 2048, 4096], max_tables: 6, max_pages: 5, max_rows: 20, unknown_tables: true };

#[derive(Debug, Hash)]
enum Op {
    Load(usize, usize),
    LoadBad(u32),
    Table(usize, usize),
    Type(usize, usize),
    Rows(usize, usize),
    RowsOf(Kind),
    BadTable(usize),
}

#[derive(Debug, Hash)]
struct Case {
    db: AnyDb,
    ops: Vec<Op>,
}

fn gen(s: &mut Src) -> Case {
    let db = page::gen_db(s, SHAPE);
    let ops = s.list(1, 12, 5, |s| {
        let t = s.below(16) as usize;
        let n = if s.chance(1, 3) { s.usize(0, 6) } else { 1000 };
        match s.weighted(&[3, 1, 4, 4, 4, 1, 1]) {
            0 => Op::Load(t, s.below(8) as usize),
            1 => Op::LoadBad(s.below(4) as u32),
            2 => Op::Table(t, n),
            3 => Op::Type(t, n),
            4 => Op::Rows(t, n),
            5 => Op::RowsOf(row::any_kind(s)),
            _ => Op::BadTable(s.below(5) as usize),
        }
    });
    Case { db, ops }
}

pub fn check_page(got: &p::Page, m: &PageM, kind: Option<Kind>, ctx: &mut Ctx) -> CheckResult {
    match (m, kind) {
        (PageM::Data(d), Some(k)) => c04::compare(got, d, k, ctx, true),
        (PageM::Data(d), None) => {
            c04::eq("page type", got.header.page_type, p::PageType::Unknown(d.ptype))?;
            c04::eq("page index", got.header.page_index.offset(1), u64::from(d.page_index))?;
            c04::eq("rows", got.content.as_data().map(|x| x.rows.len()), Some(d.valid()))
        }
        (PageM::Index(i), _) => c06::compare(got, i),
    }
    .map_err(|e| format!("page {}: {e}", m.index()))
}

/// The row as a generic row, for the comparison.
pub trait Generic {
    fn generic(&self) -> p::Row;
}
macro_rules! generic {
    ($($t:ident)*) => { $( impl Generic for p::$t { fn generic(&self) -> p::Row { p::Row::Plain(p::PlainRow::$t(self.clone())) } } )* };
}
generic!(Track Genre Artist Album Label Key Color Artwork HistoryPlaylist HistoryEntry History PlaylistTreeNode PlaylistEntry ColumnEntry Menu);

fn rows_as<T: p::RowVariant + Generic + 'static, IO: Read + Seek>(db: &mut Database<IO>, take: usize) -> Result<(Vec<p::Row>, Option<RekordcrateError>), RekordcrateError> {
    let mut it = db.iter_rows::<T>()?;
    let mut out = vec![];
    while out.len() < take {
        match it.next() {
            Ok(Some(r)) => out.push(r.generic()),
            Ok(None) => return Ok((out, None)),
            Err(e) => return Ok((out, Some(e))),
        }
    }
    Ok((out, None))
}

pub fn rows_of<IO: Read + Seek>(db: &mut Database<IO>, kind: Kind, take: usize) -> Result<(Vec<p::Row>, Option<RekordcrateError>), RekordcrateError> {
    use row::Kind::*;
    match kind {
        Track => rows_as::<p::Track, _>(db, take),
        Genre => rows_as::<p::Genre, _>(db, take),
        Artist => rows_as::<p::Artist, _>(db, take),
        Album => rows_as::<p::Album, _>(db, take),
        Label => rows_as::<p::Label, _>(db, take),
        Key => rows_as::<p::Key, _>(db, take),
        Color => rows_as::<p::Color, _>(db, take),
        PlaylistTree => rows_as::<p::PlaylistTreeNode, _>(db, take),
        PlaylistEntry => rows_as::<p::PlaylistEntry, _>(db, take),
        HistoryPlaylist => rows_as::<p::HistoryPlaylist, _>(db, take),
        HistoryEntry => rows_as::<p::HistoryEntry, _>(db, take),
        Artwork => rows_as::<p::Artwork, _>(db, take),
        Column => rows_as::<p::ColumnEntry, _>(db, take),
        Menu => rows_as::<p::Menu, _>(db, take),
        History => rows_as::<p::History, _>(db, take),
        Tag | TrackTag => Ok((vec![], None)),
    }
}

pub fn rows_of_page(d: &page::DataPage) -> Vec<&Row> {
    let mut v: Vec<_> = d.slots.iter().filter(|x| x.present).collect();
    v.sort_by_key(|x| x.offset);
    v.into_iter().map(|x| &x.row).collect()
}

pub fn index(v: u32) -> Result<PageIndex, String> {
    PageIndex::try_from(v).map_err(|e| e.to_string())
}

fn walk<IO: Read + Seek>(it: Result<p::io::PageIterator<'_, IO>, RekordcrateError>, db: &AnyDb, t: usize, n: usize, ctx: &mut Ctx) -> CheckResult {
    let mut it = it.map_err(|e| format!("iterating table {t}: {e}"))?;
    let pages = &db.db.chains[t].2;
    for (k, m) in pages.iter().enumerate().take(n) {
        match it.next() {
            Ok(Some(pg)) => check_page(pg, m, db.kind(t), ctx).map_err(|e| format!("table {t}, position {k}: {e}"))?,
            Ok(None) => return Err(format!("table {t}: iteration ends after {k} of {} pages", pages.len())),
            Err(e) => return Err(format!("table {t}, position {k}: {e}")),
        }
    }
    if n > pages.len() {
        for _ in 0..2 {
            match it.next() {
                Ok(None) => {}
                Ok(Some(pg)) => return Err(format!("table {t}: page {:?} beyond the last page", pg.header.page_index)),
                Err(e) => return Err(format!("table {t}: error after the last page: {e}")),
            }
        }
    }
    Ok(())
}

fn first_of(db: &AnyDb, no: u32) -> Option<usize> {
    db.db.chains.iter().position(|c| c.0 == no)
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let m = &c.db;
    let bytes = m.db.encode();
    let mut db = Database::open_non_persistent(Cursor::new(bytes), m.db_type()).map_err(|e| format!("opening: {e}"))?;
    let tables = m.db.tables();
    header(db.get_header(), m)?;
    let pages: usize = m.db.chains.iter().map(|c| c.2.len()).sum();
    ctx.nt(pages > 1);
    if (pages as u32) + 1 < m.db.next_unused {
        ctx.tag("unused pages");
    }
    let nt = tables.len();
    for (i, op) in c.ops.iter().enumerate() {
        let step = |e: String| format!("step {i} ({op:?}): {e}");
        match op {
            Op::Load(t, k) => {
                let t = t % nt;
                let ch = &m.db.chains[t].2;
                let pm = &ch[k % ch.len()];
                let pg = db.load_page(index(pm.index())?).map_err(|e| step(e.to_string()))?;
                check_page(pg, pm, m.kind(t), ctx).map_err(step)?;
            }
            Op::LoadBad(k) => {
                let v = if *k == 0 { 0 } else { m.db.next_unused + k - 1 };
                match db.load_page(index(v)?) {
                    Err(RekordcrateError::PageNotPresent(_)) => {}
                    Err(_) => ctx.tag("other error kind"),
                    Ok(_) => return Err(step(format!("page {v} is not in the file but loads"))),
                }
            }
            Op::Table(t, n) => {
                let t = t % nt;
                walk(db.iter_pages_for_table(TableIndex::from(t)), m, t, *n, ctx).map_err(step)?;
            }
            Op::Type(t, n) => {
                let t = first_of(m, m.db.chains[t % nt].0).unwrap();
                walk(db.iter_pages(m.page_type(t)), m, t, *n, ctx).map_err(step)?;
            }
            Op::Rows(t, n) => {
                let t = first_of(m, m.db.chains[t % nt].0).unwrap();
                let Some(kind) = m.kind(t) else { continue };
                if m.ext {
                    continue;
                }
                let want: Vec<&Row> = m.db.chains[t].2.iter().filter_map(|x| if let PageM::Data(d) = x { Some(rows_of_page(d)) } else { None }).flatten().collect();
                let (got, err) = rows_of(&mut db, kind, *n).map_err(|e| step(e.to_string()))?;
                if let Some(e) = err {
                    return Err(step(format!("after {} rows: {e}", got.len())));
                }
                c04::eq("number of rows", got.len(), want.len().min(*n)).map_err(step)?;
                for (g, w) in got.iter().zip(&want) {
                    c03::compare(g, w, ctx, true).map_err(step)?;
                }
                if !got.is_empty() {
                    ctx.tag("rows iterated");
                }
            }
            Op::RowsOf(kind) => {
                let absent = m.ext || first_of(m, kind.number()).is_none();
                if absent && kind.db() == p::DatabaseType::Plain && rows_of(&mut db, *kind, 1).is_ok() {
                    return Err(step("rows of a table that is not in the file".into()));
                }
                let absent = (kind.db() == p::DatabaseType::Ext) != m.ext || first_of(m, kind.number()).is_none();
                if absent && db.iter_pages(kind.page_type()).is_ok() {
                    return Err(step("pages of a table that is not in the file".into()));
                }
            }
            Op::BadTable(k) => {
                if db.iter_pages_for_table(TableIndex::from(nt + k)).is_ok() {
                    return Err(step("a table beyond the table list".into()));
                }
            }
        }
    }
    Ok(())
}

// ---- files of gigabytes -----------------------------------------------------------------------

#[derive(Debug, Hash)]
struct Large {
    db: AnyDb,
    order: Vec<usize>,
}

fn gen_large(s: &mut Src) -> Large {
    let db = page::gen_large(s);
    let order = s.list(1, 6, 3, |s| s.below(16) as usize);
    Large { db, order }
}

fn check_large(c: &Large, ctx: &mut Ctx) -> CheckResult {
    let m = &c.db;
    let mut db = Database::open_non_persistent(page::large_file(m), m.db_type()).map_err(|e| format!("opening: {e}"))?;
    header(db.get_header(), m)?;
    let top = m.db.chains.iter().flat_map(|x| &x.2).map(|x| u64::from(x.index()) * u64::from(m.db.page_size)).max().unwrap_or(0);
    ctx.nt(top >= 1 << 31);
    if top >= 1 << 32 {
        ctx.tag("beyond 4 GiB");
    }
    let nt = m.db.chains.len();
    for o in &c.order {
        let t = o % nt;
        if o & 8 == 0 {
            walk(db.iter_pages_for_table(TableIndex::from(t)), m, t, 1000, ctx)?;
        } else {
            for pm in m.db.chains[t].2.iter().rev() {
                let pg = db.load_page(index(pm.index())?).map_err(|e| format!("page {}: {e}", pm.index()))?;
                check_page(pg, pm, m.kind(t), ctx)?;
            }
        }
    }
    if db.load_page(index(m.db.next_unused)?).is_ok() {
        return Err("a page beyond the file loads".into());
    }
    Ok(())
}

pub fn header(h: &p::Header, m: &AnyDb) -> CheckResult {
    let tables = m.db.tables();
    c04::eq("page_size", h.page_size, m.db.page_size)?;
    c04::eq("num_tables", h.num_tables as usize, tables.len())?;
    c04::eq("next_unused_page", h.next_unused_page.offset(1), u64::from(m.db.next_unused))?;
    c04::eq("unknown", h.unknown, m.db.unknown)?;
    c04::eq("sequence", h.sequence, m.db.sequence)?;
    c04::eq("tables", h.tables.len(), tables.len())?;
    for (i, (t, w)) in h.tables.iter().zip(&tables).enumerate() {
        c04::eq("table page_type", t.page_type, m.page_type(i))?;
        c04::eq("first_page", t.first_page.offset(1), u64::from(w.first))?;
        c04::eq("last_page", t.last_page.offset(1), u64::from(w.last))?;
        let f = h.find_table(t.page_type).ok_or("find_table does not find a table")?;
        c04::eq("find_table", f.0, TableIndex::from(first_of(m, w.ptype).unwrap()))?;
        // The field is private, so it is read off the debug output, if it is there.
        if let Some(v) = dbg::parse(&format!("{t:?}")).and_then(|d| d.get("empty_candidate")?.tok()?.parse().ok()) {
            c04::eq("empty_candidate", v, w.empty_candidate)?;
        }
    }
    Ok(())
}

// ---- broken chains ---------------------------------------------------------------------------

#[derive(Debug, Hash)]
enum Break {
    /// The page at this position links to a page at or before itself.
    Back(u32),
    /// ... to a page that is not in the file.
    Out(u32),
    /// ... is a page of another table.
    Foreign(Kind),
    /// The table's last page is never reached.
    LastWrong(u32),
    /// The table starts at page 0 or outside the file.
    First(u32),
}

#[derive(Debug, Hash)]
struct Broken {
    db: AnyDb,
    table: usize,
    at: usize,
    how: Break,
}

fn gen_broken(s: &mut Src) -> Broken {
    let mut db = page::gen_db(s, Shape { unknown_tables: false, ..SHAPE });
    let table = s.usize(0, db.db.chains.len() - 1);
    let n = db.db.chains[table].2.len();
    let at = s.usize(0, n - 1);
    let how = match s.below(5) {
        0 => Break::Back(s.below(5) as u32),
        1 => Break::Out(s.below(3) as u32),
        2 => {
            let kinds: Vec<Kind> = row::ALL.iter().copied().filter(|k| k.db() == db.db_type() && k.number() != db.db.chains[table].0).collect();
            Break::Foreign(*s.pick(&kinds))
        }
        3 => Break::LastWrong(s.below(1000) as u32),
        _ => Break::First(s.below(3) as u32),
    };
    let ps = db.db.page_size;
    if let Break::Foreign(k) = how {
        let mut d = page::gen_data(s, ps, k, true, 5);
        if d.valid() == 0 {
            d = page::layout(s, ps, k.number(), vec![(true, row::gen(&mut Src::replay(vec![]), k, true, true))], true);
        }
        let old = &db.db.chains[table].2[at];
        let (i, nx) = match old {
            PageM::Data(d) => (d.page_index, d.next_page),
            PageM::Index(d) => (d.page_index, d.next_page),
        };
        let mut pm = PageM::Data(d);
        pm.set(i, nx);
        db.db.chains[table].2[at] = pm;
    }
    Broken { db, table, at, how }
}

fn set_next(pm: &mut PageM, v: u32) {
    match pm {
        PageM::Data(d) => d.next_page = v,
        PageM::Index(d) => d.next_page = v,
    }
}

fn check_broken(c: &Broken, ctx: &mut Ctx) -> CheckResult {
    let mut m = c.db.clone();
    let chain_len = m.db.chains[c.table].2.len();
    // Number of pages that must come out before the error; usize::MAX: no error.
    let mut first_override = None;
    let mut last_override = None;
    let mut expect = usize::MAX;
    match &c.how {
        Break::Back(k) => {
            if c.at + 1 == chain_len {
                return Ok(());
            }
            let own = m.db.chains[c.table].2[c.at].index();
            set_next(&mut m.db.chains[c.table].2[c.at], own.saturating_sub(*k));
            expect = c.at + 1;
            ctx.tag("turns back");
        }
        Break::Out(k) => {
            if c.at + 1 == chain_len {
                return Ok(());
            }
            let v = m.db.next_unused + *k * *k * 5000;
            set_next(&mut m.db.chains[c.table].2[c.at], v);
            expect = c.at + 1;
            ctx.tag("leaves the file");
        }
        Break::Foreign(_) => ctx.tag("foreign page"),
        Break::LastWrong(k) => {
            let used: Vec<u32> = m.db.chains[c.table].2.iter().map(PageM::index).collect();
            let next = m.db.next_unused;
            if used.contains(k) {
                return Ok(());
            }
            last_override = Some(*k);
            // The chain's end links out of the file.
            set_next(&mut m.db.chains[c.table].2[chain_len - 1], next);
            expect = chain_len;
            ctx.tag("last page not in the chain");
        }
        Break::First(k) => {
            first_override = Some(if *k == 0 { 0 } else { m.db.next_unused + k - 1 });
            expect = 0;
            ctx.tag("bad first page");
        }
    }
    ctx.nt(true);
    let mut bytes = m.db.encode();
    let o = 28 + 16 * c.table;
    if let Some(v) = first_override {
        bytes[o + 8..o + 12].copy_from_slice(&v.to_le_bytes());
    }
    if let Some(v) = last_override {
        bytes[o + 12..o + 16].copy_from_slice(&v.to_le_bytes());
    }
    let mut db = Database::open_non_persistent(Cursor::new(bytes), m.db_type()).map_err(|e| format!("opening: {e}"))?;
    for round in 0..2 {
        let mut it = db.iter_pages_for_table(TableIndex::from(c.table)).map_err(|e| e.to_string())?;
        let mut n = 0;
        let mut failed = false;
        while n < 100_000 {
            match it.next() {
                Ok(Some(_)) => n += 1,
                Ok(None) => break,
                Err(_) => {
                    failed = true;
                    // Going on after an error must end, too.
                    for _ in 0..3 {
                        let _ = it.next();
                    }
                    break;
                }
            }
        }
        if expect == usize::MAX {
            if n != chain_len || failed {
                return Err(format!("round {round}: {n} of {chain_len} pages, failed: {failed}"));
            }
        } else if !failed || n != expect {
            return Err(format!("round {round}: {n} pages (expected {expect}), then {}", if failed { "an error" } else { "no error" }));
        }
    }
    // The other tables are not affected.
    for t in 0..m.db.chains.len() {
        if t != c.table {
            walk(db.iter_pages_for_table(TableIndex::from(t)), &m, t, 1000, ctx)?;
        }
    }
    // Rows.
    let no = m.db.chains[c.table].0;
    if m.ext || first_of(&m, no) != Some(c.table) {
        return Ok(());
    }
    let kind = m.kind(c.table).ok_or("kind")?;
    let (got, err) = rows_of(&mut db, kind, usize::MAX).map_err(|e| e.to_string())?;
    if err.is_none() {
        return Err(format!("iterating the rows gives {} rows and no error", got.len()));
    }
    let upto = if matches!(c.how, Break::Foreign(_)) { c.at } else { expect };
    let want: Vec<&Row> = m.db.chains[c.table].2[..upto].iter().filter_map(|x| if let PageM::Data(d) = x { Some(rows_of_page(d)) } else { None }).flatten().collect();
    c04::eq("rows before the error", got.len(), want.len())?;
    for (g, w) in got.iter().zip(&want) {
        c03::compare(g, w, ctx, true)?;
    }
    Ok(())
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "histories", rule: "a database of more than one page", quick: 100_000, thorough: 2_400_000, gen, check }),
        Box::new(G { name: "broken-chains", rule: "a chain that is broken as described", quick: 100_000, thorough: 2_400_000, gen: gen_broken, check: check_broken }),
        Box::new(G { name: "large-files", rule: "a page beyond 2 GiB", quick: 1_500, thorough: 40_000, gen: gen_large, check: check_large }),
    ];
    Property { id: "C07", level: "exploration", assumptions: &[], groups: g, known: vec![], needs_cli: false }
}
