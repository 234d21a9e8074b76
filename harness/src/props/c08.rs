//! Saving databases.
use super::{c03, c04, c07};
use crate::engine::{CheckResult, Ctx, Group, Known, Property, G};
use crate::model::page::{self, db_header, AnyDb, PageM, Shape, Slot};
use crate::model::dsql::Str;
use crate::model::row::{self, Kind, Row};
use crate::sio::Shared;
use crate::src::{filler, Src};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb as p;
use rekordcrate::pdb::ext::{ExtRow, ParentId};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::IndexEntry;
use rekordcrate::util::{MaybeCalculated, TableIndex};
use std::collections::BTreeMap;
use std::num::NonZero;

const SHAPE: Shape = Shape { sizes: &[512, 1024, 2048], max_tables: 5, max_pages: 4, max_rows: 12, unknown_tables: true };

#[derive(Debug, Hash, Clone)]
pub enum Op {
    Load(usize, usize),
    LoadUnused,
    Walk(usize),
    /// sequence, unknown, next_unused_page
    Header(u8, u32),
    /// End the table at an earlier page of its chain.
    Last(usize, usize),
    PageHeader(usize, usize, u8, u32),
    /// Through the table iterator: edit the row at this position of a page.
    Row(usize, usize, usize, u8, u32),
    /// Through the typed row iterator.
    TypedRow(usize, usize, u32),
    Delete(usize, usize, usize),
    Insert(usize, usize, Option<Row>, u64),
    Entry(usize, usize, usize, u32),
    /// Another row of the same kind, no longer than the present one, in its place.
    Replace(usize, usize, usize, Row),
    /// Another text, no longer than the present one, for one of the row's strings.
    Rename(usize, usize, usize, usize, String),
    /// Have the offsets of the row's strings calculated anew.
    Repack(usize, usize, usize),
    /// One more table, with the pages and possibly the type of an existing one.
    AddTable(usize, usize, u32),
    /// Drop the last table.
    PopTable,
    /// A flush with a header that cannot be written must fail.
    BadHeader(u8),
    /// So must one with a page that contradicts its header.
    BadPage(usize, usize, u8),
    /// Take a page out of its table by linking its predecessor to its successor.
    Unlink(usize, usize),
    /// Set the index a page states for itself; it stays where it is.
    PageIndex(usize, usize, u32),
    Flush,
}

#[derive(Debug, Hash)]
pub struct Case {
    pub db: AnyDb,
    pub ops: Vec<Op>,
    /// Reopen and go on after this many operations.
    pub reopen: usize,
    pub residue: u64,
    pub persist: bool,
}

pub fn gen(s: &mut Src) -> Case {
    let db = page::gen_db(s, SHAPE);
    let ops = gen_ops(s, &db);
    let n = ops.len();
    let reopen = if s.chance(1, 3) { s.usize(0, n) } else { n + 1 };
    Case { db, ops, reopen, residue: if s.chance(1, 4) { 1 + s.below(1000) } else { 0 }, persist: !s.chance(1, 6) }
}

fn gen_ops(s: &mut Src, db: &AnyDb) -> Vec<Op> {
    s.list(1, 20, 7, |s| {
        let (t, k, r) = (s.below(8) as usize, s.below(6) as usize, s.below(16) as usize);
        match s.weighted(&[2, 4, 2, 2, 1, 3, 6, 3, 3, 4, 2, 2, 1, 1, 2, 3, 1, 1, 1, 1, 1]) {
            0 => Op::Load(t, k),
            1 => Op::Walk(t),
            2 => Op::LoadUnused,
            3 => Op::Header(s.below(3) as u8, s.u32()),
            4 => Op::Last(t, k),
            5 => Op::PageHeader(t, k, s.below(4) as u8, s.u32()),
            6 => Op::Row(t, k, r, s.below(4) as u8, s.u32()),
            7 => Op::TypedRow(t, r, s.u32()),
            8 => Op::Delete(t, k, r),
            9 => {
                let t = t % db.db.chains.len();
                let row = db.kind(t).map(|kind| row::gen(s, kind, true, true));
                Op::Insert(t, k, row, s.below(3))
            }
            10 => Op::Entry(t, k, r, s.u32()),
            11 => Op::Flush,
            12 => Op::Unlink(t, k),
            13 => Op::PageIndex(t, k, s.below(40) as u32),
            14 => {
                let t = t % db.db.chains.len();
                match db.kind(t) {
                    Some(kind) => Op::Replace(t, k, r, row::gen(s, kind, true, true)),
                    None => Op::Walk(t),
                }
            }
            15 => {
                let max = *s.pick(&[4usize, 20, 140]);
                Op::Rename(t, k, r, s.below(2) as usize, crate::model::dsql::text(s, max))
            }
            16 => Op::Repack(t, k, r),
            17 => Op::AddTable(t, k, s.below(30) as u32),
            18 => Op::PopTable,
            19 => Op::BadHeader(s.below(3) as u8),
            _ => Op::BadPage(t, k, s.below(6) as u8),
        }
    })
}

/// Set a public numeric field of the row; false if the row has none.
fn edit_row(r: &mut p::Row, m: &mut Row, which: u8, v: u32) -> bool {
    macro_rules! set {
        ($place:expr, $name:expr, $t:ty) => {{
            $place = v as $t;
            m.set_val($name, u64::from(v as $t));
            true
        }};
    }
    match r {
        p::Row::Plain(p::PlainRow::Track(t)) => match which {
            0 => set!(t.id.0, "id", u32),
            1 => set!(t.artist_id.0, "artist_id", u32),
            _ => set!(t.rating, "rating", u8),
        },
        p::Row::Plain(p::PlainRow::Artist(t)) => set!(t.id.0, "id", u32),
        p::Row::Plain(p::PlainRow::PlaylistTreeNode(t)) => match which {
            0 => set!(t.id.0, "id", u32),
            _ => set!(t.parent_id.0, "parent_id", u32),
        },
        p::Row::Plain(p::PlainRow::PlaylistEntry(t)) => match which {
            0 => set!(t.entry_index, "entry_index", u32),
            1 => set!(t.track_id.0, "track_id", u32),
            _ => set!(t.playlist_id.0, "playlist_id", u32),
        },
        p::Row::Plain(p::PlainRow::Menu(t)) => match which {
            0 => set!(t.category_id, "category_id", u16),
            1 => set!(t.content_pointer, "content_pointer", u16),
            _ => set!(t.sort_order, "sort_order", u16),
        },
        p::Row::Ext(ExtRow::Tag(t)) => match which {
            0 => set!(t.id.0, "id", u32),
            1 => set!(t.position, "position", u32),
            _ => {
                t.parent_id = ParentId(NonZero::new(v));
                m.set_val("parent_id", u64::from(v));
                true
            }
        },
        p::Row::Ext(ExtRow::TrackTag(t)) => match which {
            0 => set!(t.track_id.0, "track_id", u32),
            _ => set!(t.tag_id.0, "tag_id", u32),
        },
        _ => false,
    }
}

/// The model: pages by value, and the file as it must be after the next flush.
pub struct Model {
    pub m: AnyDb,
    /// Chains whose recorded last page was moved to an earlier page.
    pub cut: Vec<usize>,
    /// Pages that were taken out of their tables.
    pub out: Vec<PageM>,
    /// Indices that pages claim, by their place.
    pub claims: BTreeMap<u32, u32>,
    /// Tables after those of `m`.
    pub extra: Vec<page::Table>,
    /// Rows whose strings move when they change.
    pub packed: Vec<(u32, u16)>,
    pub edits: usize,
}

impl Model {
    pub fn new(m: AnyDb) -> Model {
        Model { cut: m.db.chains.iter().map(|x| x.2.len()).collect(), m, out: vec![], claims: BTreeMap::new(), extra: vec![], packed: vec![], edits: 0 }
    }
    fn check_page(&self, pg: &p::Page, pm: &PageM, t: usize, ctx: &mut Ctx) -> CheckResult {
        if let Some(c) = self.claims.get(&pm.index()) {
            c04::eq("claimed page index", pg.header.page_index, c07::index(*c)?)?;
            let mut pg = pg.clone();
            pg.header.page_index = c07::index(pm.index())?;
            return c07::check_page(&pg, pm, self.m.kind(t), ctx);
        }
        c07::check_page(pg, pm, self.m.kind(t), ctx)
    }
    fn tables(&self) -> Vec<page::Table> {
        let mut t = self.m.db.tables();
        for (i, c) in self.cut.iter().enumerate() {
            t[i].last = self.m.db.chains[i].2[c - 1].index();
        }
        t.extend(self.extra.iter().cloned());
        t
    }
    /// Offsets of absent rows above the last present one of a group are not stored.
    pub fn reloaded(&mut self, file: &[u8]) {
        self.packed.clear();
        let ps = self.m.db.page_size as usize;
        for d in self.m.db.chains.iter_mut().flat_map(|c| &mut c.2).chain(&mut self.out).filter_map(|p| if let PageM::Data(d) = p { Some(d) } else { None }) {
            let end = (d.page_index as usize + 1) * ps;
            for i in 0..d.slots.len() {
                if !d.slots[i].present {
                    let o = end - 36 * (i / 16 + 1) + 2 * (15 - i % 16);
                    d.slots[i].offset = u16::from_le_bytes([file[o], file[o + 1]]);
                }
            }
        }
    }
    pub fn file(&self, mut bytes: Vec<u8>) -> Vec<u8> {
        let ps = self.m.db.page_size as usize;
        let h = db_header(self.m.db.page_size, self.m.db.next_unused, self.m.db.unknown, self.m.db.sequence, &self.tables());
        bytes[..h.len()].copy_from_slice(&h);
        for pm in self.m.db.chains.iter().flat_map(|c| &c.2).chain(&self.out) {
            let o = pm.index() as usize * ps;
            pm.overlay(&mut bytes[o..o + ps]);
            if let Some(c) = self.claims.get(&pm.index()) {
                bytes[o + 4..o + 8].copy_from_slice(&c.to_le_bytes());
            }
        }
        bytes
    }
}

/// Apply one operation to the database and to the model.
pub fn apply<IO: std::io::Read + std::io::Seek>(db: &mut Database<IO>, mo: &mut Model, op: &Op, ctx: &mut Ctx, physical_pages: u32) -> CheckResult {
    let nt = mo.m.db.chains.len();
    let pick = |mo: &Model, t: usize, k: usize| {
        let t = t % nt;
        (t, k % mo.m.db.chains[t].2.len())
    };
    match op {
        Op::Load(t, k) => {
            let (t, k) = pick(mo, *t, *k);
            let pm = &mo.m.db.chains[t].2[k];
            let pg = db.load_page(c07::index(pm.index())?).map_err(|e| e.to_string())?;
            mo.check_page(pg, pm, t, ctx)
        }
        Op::LoadUnused => {
            let used: Vec<u32> = mo.m.db.chains.iter().flat_map(|c| &c.2).chain(&mo.out).map(PageM::index).collect();
            for i in 0..physical_pages + 2 {
                if !used.contains(&i) && db.load_page(c07::index(i)?).is_ok() {
                    return Err(format!("garbage page {i} loads"));
                }
            }
            Ok(())
        }
        Op::Walk(t) => {
            let t = t % nt;
            let mut it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| e.to_string())?;
            for k in 0..mo.cut[t] {
                let pg = it.next().map_err(|e| e.to_string())?.ok_or_else(|| format!("table {t} ends after {k} pages"))?;
                mo.check_page(pg, &mo.m.db.chains[t].2[k], t, ctx)?;
            }
            match it.next() {
                Ok(None) => Ok(()),
                _ => Err(format!("table {t} goes on after its last page")),
            }
        }
        Op::Header(which, v) => {
            let h = db.get_header_mut();
            match which {
                0 => {
                    h.sequence = *v;
                    mo.m.db.sequence = *v;
                }
                1 => {
                    h.unknown = *v;
                    mo.m.db.unknown = *v;
                }
                _ => {
                    h.next_unused_page = c07::index(mo.m.db.next_unused + v % 3)?;
                    mo.m.db.next_unused += v % 3;
                }
            }
            mo.edits += 1;
            Ok(())
        }
        Op::Last(t, k) => {
            let (t, k) = pick(mo, *t, *k);
            let last = c07::index(mo.m.db.chains[t].2[k].index())?;
            let ptype = mo.m.page_type(t);
            let h = db.get_header_mut();
            // By its type, if it is the first of it.
            if h.tables.iter().position(|x| x.page_type == ptype) == Some(t) && k % 2 == 0 {
                let (i, table) = h.find_table_mut(ptype).ok_or("find_table_mut does not find a table")?;
                c04::eq("find_table_mut", i, TableIndex::from(t))?;
                table.last_page = last;
            } else {
                h.tables[t].last_page = last;
            }
            mo.cut[t] = k + 1;
            mo.edits += 1;
            Ok(())
        }
        Op::PageHeader(t, k, which, v) => {
            let (t, k) = pick(mo, *t, *k);
            let pm = &mut mo.m.db.chains[t].2[k];
            let pg = db.load_page(c07::index(pm.index())?).map_err(|e| e.to_string())?;
            let (u1, u2, flags) = match pm {
                PageM::Data(d) => (&mut d.unknown1, &mut d.unknown2, &mut d.flags),
                PageM::Index(d) => (&mut d.unknown1, &mut d.unknown2, &mut d.flags),
            };
            match which {
                0 => {
                    pg.header.unknown1 = *v;
                    *u1 = *v;
                }
                1 => {
                    pg.header.unknown2 = *v;
                    *u2 = *v;
                }
                2 => {
                    pg.header.page_flags.set_contains_deleted(v & 1 == 1);
                    *flags = *flags & !0x10 | ((v & 1) as u8) << 4;
                }
                _ => match pm {
                    PageM::Data(d) => {
                        pg.content.as_data_mut().ok_or("data")?.header.unknown5 = *v as u16;
                        d.hdr[0] = *v as u16;
                    }
                    PageM::Index(d) => {
                        pg.content.as_index_mut().ok_or("index")?.header.next_offset = *v as u16;
                        d.next_offset = *v as u16;
                    }
                },
            }
            mo.edits += 1;
            Ok(())
        }
        Op::Row(t, k, r, which, v) => {
            let (t, k) = pick(mo, *t, *k);
            if k >= mo.cut[t] {
                return Ok(());
            }
            let mut it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| e.to_string())?;
            let mut pg = None;
            for _ in 0..=k {
                pg = it.next().map_err(|e| e.to_string())?;
            }
            let pg = pg.ok_or("page missing")?;
            let PageM::Data(d) = &mut mo.m.db.chains[t].2[k] else { return Ok(()) };
            let rows = &mut pg.content.as_data_mut().ok_or("data")?.rows;
            if rows.is_empty() {
                return Ok(());
            }
            let off = *rows.keys().nth(r % rows.len()).unwrap();
            let slot = d.slots.iter_mut().find(|s| s.present && s.offset == off).ok_or("row at an unknown offset")?;
            if edit_row(rows.get_mut(&off).unwrap(), &mut slot.row, *which, *v) {
                mo.edits += 1;
                ctx.tag("row edited");
            }
            Ok(())
        }
        Op::TypedRow(t, n, v) => {
            let t = t % nt;
            let no = mo.m.db.chains[t].0;
            let t = mo.m.db.chains.iter().position(|c| c.0 == no).unwrap();
            let kind = mo.m.kind(t);
            let mut at: Vec<(usize, u16)> = vec![];
            for (k, pm) in mo.m.db.chains[t].2[..mo.cut[t]].iter().enumerate() {
                if let PageM::Data(d) = pm {
                    let mut o: Vec<u16> = d.slots.iter().filter(|s| s.present).map(|s| s.offset).collect();
                    o.sort_unstable();
                    at.extend(o.into_iter().map(|o| (k, o)));
                }
            }
            if at.is_empty() {
                return Ok(());
            }
            let n = n % at.len();
            let mut set = |name: &str| {
                let PageM::Data(d) = &mut mo.m.db.chains[t].2[at[n].0] else { return };
                let s = d.slots.iter_mut().find(|s| s.present && s.offset == at[n].1).unwrap();
                s.row.set_val(name, u64::from(*v));
            };
            match kind {
                Some(Kind::Track) => {
                    let mut it = db.iter_rows::<p::Track>().map_err(|e| e.to_string())?;
                    it.nth(n).map_err(|e| e.to_string())?.ok_or("row missing")?.id.0 = *v;
                    set("id");
                }
                Some(Kind::Artist) => {
                    let mut it = db.iter_rows::<p::Artist>().map_err(|e| e.to_string())?;
                    it.nth(n).map_err(|e| e.to_string())?.ok_or("row missing")?.id.0 = *v;
                    set("id");
                }
                Some(Kind::PlaylistEntry) => {
                    let mut it = db.iter_rows::<p::PlaylistEntry>().map_err(|e| e.to_string())?;
                    it.nth(n).map_err(|e| e.to_string())?.ok_or("row missing")?.entry_index = *v;
                    set("entry_index");
                }
                Some(Kind::PlaylistTree) => {
                    let mut it = db.iter_rows::<p::PlaylistTreeNode>().map_err(|e| e.to_string())?;
                    it.nth(n).map_err(|e| e.to_string())?.ok_or("row missing")?.parent_id.0 = *v;
                    set("parent_id");
                }
                _ => return Ok(()),
            }
            mo.edits += 1;
            ctx.tag("row edited by type");
            Ok(())
        }
        Op::Delete(t, k, r) => {
            let (t, k) = pick(mo, *t, *k);
            if mo.m.kind(t).is_none() {
                return Ok(());
            }
            let PageM::Data(d) = &mut mo.m.db.chains[t].2[k] else { return Ok(()) };
            let present: Vec<usize> = (0..d.slots.len()).filter(|i| d.slots[*i].present).collect();
            if present.is_empty() {
                return Ok(());
            }
            let i = present[r % present.len()];
            let pg = db.load_page(c07::index(d.page_index)?).map_err(|e| e.to_string())?;
            let n = pg.header.packed_row_counts.num_rows_valid();
            pg.header.packed_row_counts.set_num_rows_valid(n - 1);
            pg.header.page_flags.set_contains_deleted(true);
            let c = pg.content.as_data_mut().ok_or("data")?;
            c.rows.remove(&d.slots[i].offset).ok_or("row to delete is missing")?;
            c.row_groups[i / 16].row_presence_flags &= !(1 << (i % 16));
            d.slots[i].present = false;
            d.flags |= 0x10;
            mo.edits += 1;
            ctx.tag("row deleted");
            Ok(())
        }
        Op::Insert(t, k, row, slack) => {
            let (t, k) = pick(mo, *t, *k);
            let (Some(kind), Some(row)) = (mo.m.kind(t), row) else { return Ok(()) };
            if row.kind != kind {
                return Ok(());
            }
            let PageM::Data(d) = &mut mo.m.db.chains[t].2[k] else { return Ok(()) };
            let bytes = row.encode().bytes.len() as u16 + 4 * *slack as u16;
            let r = c03::decode(&row.encode().bytes, 0, kind)?;
            let pg = db.load_page(c07::index(d.page_index)?).map_err(|e| e.to_string())?;
            if pg.allocate_row(bytes).map(|f| f(r)).is_none() {
                ctx.tag("insertion refused");
                return Ok(());
            }
            let a = bytes.next_multiple_of(4);
            let group = if d.slots.len() % 16 == 0 { 4 } else { 0 };
            if group > 0 {
                d.group_unknown.truncate(d.groups());
                d.group_unknown.push(0);
            }
            d.slots.push(Slot { present: true, offset: d.used, row: row.clone() });
            d.used += a;
            d.free -= a + 2 + group;
            mo.edits += 1;
            ctx.tag("row inserted");
            Ok(())
        }
        Op::Entry(t, k, e, v) => {
            let (t, k) = pick(mo, *t, *k);
            let PageM::Index(d) = &mut mo.m.db.chains[t].2[k] else { return Ok(()) };
            let pg = db.load_page(c07::index(d.page_index)?).map_err(|e| e.to_string())?;
            let c = pg.content.as_index_mut().ok_or("index")?;
            let entry = IndexEntry::try_from((c07::index(v % 0x3FF_FFFF)?, (v % 8) as u8)).map_err(|e| e.to_string())?;
            let raw = (v % 0x3FF_FFFF) << 3 | v % 8;
            if *e < d.entries.len() && e % 3 > 0 {
                c.entries[*e] = entry;
                d.entries[*e] = raw;
            } else if *e % 2 == 0 && d.entries.len() < page::IndexPage::capacity(d.page_size) {
                c.entries.push(entry);
                c.header.num_entries += 1;
                d.entries.push(raw);
            } else if c.entries.pop().is_some() {
                c.header.num_entries -= 1;
                d.entries.pop();
            }
            mo.edits += 1;
            ctx.tag("index entry edited");
            Ok(())
        }
        Op::Unlink(t, k) => {
            let (t, k) = pick(mo, *t, *k);
            if k == 0 || k + 1 >= mo.cut[t] {
                return Ok(());
            }
            let chain = &mut mo.m.db.chains[t].2;
            let next = chain[k + 1].index();
            let pg = db.load_page(c07::index(chain[k - 1].index())?).map_err(|e| e.to_string())?;
            pg.header.next_page = c07::index(next)?;
            match &mut chain[k - 1] {
                PageM::Data(d) => d.next_page = next,
                PageM::Index(d) => d.next_page = next,
            }
            mo.out.push(chain.remove(k));
            mo.cut[t] -= 1;
            mo.edits += 1;
            ctx.tag("page unlinked");
            Ok(())
        }
        Op::PageIndex(t, k, v) => {
            let (t, k) = pick(mo, *t, *k);
            let place = mo.m.db.chains[t].2[k].index();
            let pg = db.load_page(c07::index(place)?).map_err(|e| e.to_string())?;
            pg.header.page_index = c07::index(*v)?;
            mo.claims.insert(place, *v);
            mo.edits += 1;
            Ok(())
        }
        Op::Replace(t, k, r, row) => {
            let Some((d, i)) = present(mo, *t, *k, *r) else { return Ok(()) };
            let slot = &mut d.slots[i];
            let room = slot.row.encode().bytes.len();
            let bytes = row.encode().bytes;
            if row.kind != slot.row.kind || bytes.len() > room {
                return Ok(());
            }
            let new = c03::decode(&bytes, 0, row.kind)?;
            let pg = db.load_page(c07::index(d.page_index)?).map_err(|e| e.to_string())?;
            let old = pg.content.as_data_mut().ok_or("data")?.rows.insert(slot.offset, new);
            old.ok_or("row to replace is missing")?;
            slot.row = row.clone();
            slot.row.tail += room - bytes.len();
            let at = (d.page_index, slot.offset);
            mo.packed.retain(|x| *x != at);
            mo.edits += 1;
            ctx.tag("row replaced");
            Ok(())
        }
        Op::Rename(t, k, r, which, text) => {
            let packed = mo.packed.clone();
            let Some((d, i)) = present(mo, *t, *k, *r) else { return Ok(()) };
            let (offset, row) = (d.slots[i].offset, &mut d.slots[i].row);
            let name = match (row.kind, which) {
                (Kind::Track, 0) => "title",
                (Kind::Track, _) => "file_path",
                (Kind::Artist | Kind::PlaylistTree, _) | (Kind::Tag, 0) => "name",
                (Kind::Column, _) => "column_name",
                (Kind::Tag, _) => "unknown",
                _ => return Ok(()),
            };
            let si = row.str_index(name).unwrap();
            let room = row.strs[si].encode().len();
            let mut text = text.clone();
            while Str::Auto(text.clone()).encode().len() > room {
                text.pop();
            }
            let new = Str::Auto(text);
            // A text stored for several strings is not one's own to change.
            if row.share || new.ambiguous() || packed.contains(&(d.page_index, offset)) {
                return Ok(());
            }
            let rest = room - new.encode().len();
            let pg = db.load_page(c07::index(d.page_index)?).map_err(|e| e.to_string())?;
            let real = pg.content.as_data_mut().ok_or("data")?.rows.get_mut(&offset).ok_or("row missing")?;
            let place = match real {
                p::Row::Plain(p::PlainRow::Track(t)) if *which == 0 => &mut t.offsets.inner.title,
                p::Row::Plain(p::PlainRow::Track(t)) => &mut t.offsets.inner.file_path,
                p::Row::Plain(p::PlainRow::Artist(t)) => &mut t.offsets.inner.name,
                p::Row::Plain(p::PlainRow::PlaylistTreeNode(t)) => &mut t.name,
                p::Row::Plain(p::PlainRow::ColumnEntry(t)) => &mut t.column_name,
                p::Row::Ext(ExtRow::Tag(t)) if *which == 0 => &mut t.offsets.inner.name,
                p::Row::Ext(ExtRow::Tag(t)) => &mut t.offsets.inner.unknown,
                _ => return Err("row of another kind".into()),
            };
            *place = DeviceSQLString::new(new.text()).map_err(|e| e.to_string())?;
            match row.order.iter().position(|x| *x == si) {
                Some(p) if p + 1 < row.order.len() => row.gaps[p + 1] += rest,
                _ => row.tail += rest,
            }
            row.strs[si] = new;
            mo.edits += 1;
            ctx.tag("row renamed");
            Ok(())
        }
        Op::Repack(t, k, r) => {
            let Some((d, i)) = present(mo, *t, *k, *r) else { return Ok(()) };
            let (page, offset, row) = (d.page_index, d.slots[i].offset, &mut d.slots[i].row);
            if row.order.is_empty() {
                return Ok(());
            }
            let mut new = row.clone();
            let first = new.strs.len() - new.order.len();
            new.share = false;
            new.tail = 0;
            new.order = (0..new.order.len()).collect();
            new.gaps = vec![0; new.order.len()];
            // Wide strings need not be where packing puts them, so only what needs no alignment.
            let room = row.encode().bytes.len();
            let e = new.encode();
            if e.bytes.len() > room || !new.wide_offsets() && e.offsets.iter().any(|o| *o > 255) || new.strs[first..].iter().any(|x| x.is_wide() || matches!(x, Str::Isrc(_))) {
                return Ok(());
            }
            new.tail = room - e.bytes.len();
            let pg = db.load_page(c07::index(d.page_index)?).map_err(|e| e.to_string())?;
            let real = pg.content.as_data_mut().ok_or("data")?.rows.get_mut(&offset).ok_or("row missing")?;
            match real {
                p::Row::Plain(p::PlainRow::Track(t)) => t.offsets.offsets = MaybeCalculated::Calculated,
                p::Row::Plain(p::PlainRow::Artist(t)) => t.offsets.offsets = MaybeCalculated::Calculated,
                p::Row::Ext(ExtRow::Tag(t)) => t.offsets.offsets = MaybeCalculated::Calculated,
                _ => return Ok(()),
            }
            *row = new;
            mo.packed.push((page, offset));
            mo.edits += 1;
            ctx.tag("row packed anew");
            Ok(())
        }
        Op::AddTable(t, k, kind) => {
            let (t, k) = pick(mo, *t, *k);
            if mo.tables().len() >= 28 {
                return Ok(());
            }
            let h = db.get_header_mut();
            let mut table = h.tables[t].clone();
            let mut m = mo.m.db.tables().swap_remove(t);
            if kind % 2 == 0 {
                table.page_type = p::PageType::Unknown(200 + kind);
                m.ptype = 200 + kind;
            }
            m.last = mo.m.db.chains[t].2[k].index();
            table.last_page = c07::index(m.last)?;
            h.tables.push(table);
            h.num_tables += 1;
            mo.extra.push(m);
            mo.edits += 1;
            ctx.tag("table added");
            Ok(())
        }
        Op::PopTable => {
            if mo.extra.pop().is_none() {
                if nt < 2 {
                    return Ok(());
                }
                let (_, _, pages) = mo.m.db.chains.pop().unwrap();
                mo.out.extend(pages);
                mo.cut.pop();
            }
            let h = db.get_header_mut();
            h.tables.pop();
            h.num_tables -= 1;
            mo.edits += 1;
            ctx.tag("table removed");
            Ok(())
        }
        Op::Flush | Op::BadHeader(_) | Op::BadPage(..) => Ok(()),
    }
}

/// A present row of a known kind, by its page and position.
fn present(mo: &mut Model, t: usize, k: usize, r: usize) -> Option<(&mut page::DataPage, usize)> {
    let t = t % mo.m.db.chains.len();
    mo.m.kind(t)?;
    let chain = &mut mo.m.db.chains[t].2;
    let k = k % chain.len();
    let PageM::Data(d) = &mut chain[k] else { return None };
    let n = d.valid();
    if n == 0 {
        return None;
    }
    let i = (0..d.slots.len()).filter(|i| d.slots[*i].present).nth(r % n)?;
    Some((d, i))
}

/// Try to save a page that does not match its header.
fn bad_page(db: &mut Database<Shared>, mo: &Model, t: usize, k: usize, which: u8) -> CheckResult {
    let t = t % mo.m.db.chains.len();
    let k = k % mo.m.db.chains[t].2.len();
    let i = c07::index(mo.m.db.chains[t].2[k].index())?;
    let pg = db.load_page(i).map_err(|e| e.to_string())?;
    let good = pg.clone();
    let counts = &mut pg.header.packed_row_counts;
    match &mut pg.content {
        p::PageContent::Index(_) => pg.header.page_flags.set_is_index_page(false),
        p::PageContent::Data(c) => {
            let first = c.rows.keys().next().copied();
            match (which, first) {
                (0, Some(o)) => {
                    c.rows.remove(&o);
                }
                (1, Some(o)) => {
                    let row = c.rows[&o].clone();
                    let free = (0..u16::MAX).find(|o| !c.rows.contains_key(o)).ok_or("full")?;
                    c.rows.insert(free, row);
                }
                (2, _) => counts.set_num_rows_valid(counts.num_rows_valid() + 1),
                (3, Some(_)) => {
                    let g = c.row_groups.iter_mut().find(|g| g.row_presence_flags != 0).ok_or("no group with a row")?;
                    g.row_presence_flags &= g.row_presence_flags - 1;
                }
                (4, _) => counts.set_num_rows(counts.num_rows() + 16),
                _ => pg.header.page_flags.set_is_index_page(true),
            }
        }
    }
    if db.flush().is_ok() {
        return Err("a page that contradicts its header is written".into());
    }
    *db.load_page(i).map_err(|e| e.to_string())? = good;
    Ok(())
}

/// Try to save a header that contradicts itself or does not fit its page.
fn bad_header(db: &mut Database<Shared>, which: u8, page_size: u32) -> CheckResult {
    let good = db.get_header().clone();
    let h = db.get_header_mut();
    match which {
        0 => h.num_tables += 1,
        1 => h.num_tables -= 1,
        _ => {
            while 28 + 16 * h.tables.len() <= page_size as usize {
                let t = h.tables[0].clone();
                h.tables.push(t);
            }
            h.num_tables = h.tables.len() as u32;
        }
    }
    let r = db.flush();
    if r.is_ok() {
        return Err(format!("a header with {} tables, said to be {}, is written to a page of {page_size} bytes", db.get_header().tables.len(), db.get_header().num_tables));
    }
    *db.get_header_mut() = good;
    Ok(())
}

/// The pages of the file, after the next flush.
fn pages(mo: &Model, pages: &mut BTreeMap<u32, Vec<u8>>) {
    let h = db_header(mo.m.db.page_size, mo.m.db.next_unused, mo.m.db.unknown, mo.m.db.sequence, &mo.tables());
    pages.get_mut(&0).unwrap()[..h.len()].copy_from_slice(&h);
    for pm in mo.m.db.chains.iter().flat_map(|c| &c.2).chain(&mo.out) {
        let p = pages.get_mut(&pm.index()).unwrap();
        pm.overlay(p);
        if let Some(c) = mo.claims.get(&pm.index()) {
            p[4..8].copy_from_slice(&c.to_le_bytes());
        }
    }
}

#[derive(Debug, Hash)]
struct Large {
    db: AnyDb,
    ops: Vec<Op>,
}

fn gen_large(s: &mut Src) -> Large {
    let db = page::gen_large(s);
    let ops = gen_ops(s, &db).into_iter().filter(|o| !matches!(o, Op::LoadUnused)).collect();
    Large { db, ops }
}

fn check_large(c: &Large, ctx: &mut Ctx) -> CheckResult {
    let m = &c.db;
    let ps = m.db.page_size as usize;
    let file = page::large_file(m);
    let len = file.0.borrow().len;
    let mut want = page::large_pages(m);
    let mut mo = Model::new(m.clone());
    let mut db = Database::open(file.clone(), m.db_type()).map_err(|e| format!("opening: {e}"))?;
    let compare = |want: &BTreeMap<u32, Vec<u8>>| {
        for (i, w) in want {
            let got = file.bytes(u64::from(*i) * ps as u64, ps);
            if let Some(e) = differs(&got, w, ps) {
                return Err(format!("page {i}: {e}"));
            }
        }
        for (a, b) in file.used() {
            if (a / ps as u64..=(b - 1) / ps as u64).all(|i| !want.contains_key(&(i as u32))) {
                return Err(format!("bytes written at offset {a} or later, where there is no page"));
            }
        }
        if file.0.borrow().len != len {
            return Err(format!("the file has {} bytes, expected {len}", file.0.borrow().len));
        }
        Ok(())
    };
    let mut flushes = 0;
    for (i, op) in c.ops.iter().enumerate() {
        apply(&mut db, &mut mo, op, ctx, m.db.next_unused).map_err(|e| format!("step {i} ({op:?}): {e}"))?;
        if matches!(op, Op::Flush) {
            if flushes == 0 && file.0.borrow().writes > 0 {
                return Err(format!("writes to the file before step {i}"));
            }
            db.flush().map_err(|e| format!("step {i}: flush: {e}"))?;
            flushes += 1;
            pages(&mo, &mut want);
            compare(&want).map_err(|e| format!("after step {i}: {e}"))?;
        }
    }
    let top = m.db.chains.iter().flat_map(|x| &x.2).map(|x| u64::from(x.index()) * ps as u64).max().unwrap_or(0);
    ctx.nt(mo.edits > 0 && top >= 1 << 31);
    if top >= 1 << 32 {
        ctx.tag("beyond 4 GiB");
    }
    db.close().map_err(|e| format!("close: {e}"))?;
    pages(&mo, &mut want);
    compare(&want).map_err(|e| format!("after closing: {e}"))?;
    file.rewind();
    let mut db = Database::open(file.clone(), m.db_type()).map_err(|e| format!("reopening: {e}"))?;
    for t in 0..mo.m.db.chains.len() {
        apply(&mut db, &mut mo, &Op::Walk(t), ctx, m.db.next_unused).map_err(|e| format!("after reopening: {e}"))?;
    }
    Ok(())
}

pub fn differs(got: &[u8], want: &[u8], ps: usize) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("the file has {} bytes, expected {}", got.len(), want.len()));
    }
    (0..got.len()).find(|&i| got[i] != want[i]).map(|i| format!("page {}, byte {}: {:#x}, expected {:#x}", i / ps, i % ps, got[i], want[i]))
}

pub fn start(c: &Case) -> Vec<u8> {
    let mut bytes = c.db.db.encode();
    let ps = c.db.db.page_size as usize;
    if c.residue > 0 {
        let h = 28 + 16 * c.db.db.chains.len();
        bytes[h..ps].copy_from_slice(&filler(c.residue, ps - h));
    }
    bytes
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    run(c, &[], 0, ctx)
}

/// The history on a stream that splits and interrupts its transfers as told.
pub fn run(c: &Case, chunks: &[usize], interrupt_every: u64, ctx: &mut Ctx) -> CheckResult {
    let bytes = start(c);
    let ps = c.db.db.page_size as usize;
    let dev = Shared::new(bytes.clone());
    dev.with(|d| {
        d.chunks = chunks.to_vec();
        d.interrupt_every = interrupt_every;
    });
    let db_type = c.db.db_type();
    let open = |dev: &Shared, persist: bool| {
        dev.with(|d| d.pos = 0);
        if persist { Database::open(dev.clone(), db_type) } else { Database::open_non_persistent(dev.clone(), db_type) }.map_err(|e| format!("opening: {e}"))
    };
    let mut db = open(&dev, c.persist)?;
    let physical = c.db.db.next_unused;
    let mut mo = Model::new(c.db.clone());
    let mut on_disk = bytes.clone();
    let mut flushes = 0;
    for (i, op) in c.ops.iter().enumerate() {
        if i == c.reopen && c.persist {
            db.close().map_err(|e| format!("closing before step {i}: {e}"))?;
            on_disk = mo.file(on_disk);
            flushes += 1;
            if let Some(e) = differs(&dev.bytes(), &on_disk, ps) {
                return Err(format!("after closing before step {i}: {e}"));
            }
            db = open(&dev, true)?;
            mo.reloaded(&on_disk);
            ctx.tag("reopened");
        }
        apply(&mut db, &mut mo, op, ctx, physical).map_err(|e| format!("step {i} ({op:?}): {e}"))?;
        if matches!(op, Op::Flush) && c.persist {
            db.flush().map_err(|e| format!("step {i}: flush: {e}"))?;
            on_disk = mo.file(on_disk);
            flushes += 1;
            if dev.with(|d| d.unflushed) {
                return Err(format!("step {i}: flush leaves data in the stream's buffer"));
            }
        }
        if let (Op::BadHeader(which), true) = (op, c.persist) {
            let before = dev.bytes();
            bad_header(&mut db, *which, c.db.db.page_size).map_err(|e| format!("step {i}: {e}"))?;
            if dev.bytes() != before {
                return Err(format!("step {i} ({op:?}): a flush that fails changes the file"));
            }
            ctx.tag("bad header");
        }
        if let (Op::BadPage(t, k, which), true) = (op, c.persist) {
            bad_page(&mut db, &mo, *t, *k, *which).map_err(|e| format!("step {i} ({op:?}): {e}"))?;
            db.flush().map_err(|e| format!("step {i} ({op:?}): flush: {e}"))?;
            on_disk = mo.file(on_disk);
            flushes += 1;
            ctx.tag("bad page");
        }
        if flushes == 0 && !dev.with(|d| d.writes.is_empty()) {
            return Err(format!("step {i} ({op:?}) writes to the file"));
        }
        if let Some(e) = differs(&dev.bytes(), &on_disk, ps) {
            return Err(format!("after step {i} ({op:?}): {e}"));
        }
    }
    ctx.nt(mo.edits > 0);
    if !c.persist {
        // Its own edits are visible, the file is untouched.
        for t in 0..mo.m.db.chains.len() {
            apply(&mut db, &mut mo, &Op::Walk(t), ctx, physical)?;
        }
        drop(db);
        if !dev.with(|d| d.writes.is_empty()) {
            return Err("a database that was not opened for writing wrote to the file".into());
        }
        ctx.tag("non-persistent");
        return Ok(());
    }
    db.flush().map_err(|e| format!("flush: {e}"))?;
    let first = dev.bytes();
    db.close().map_err(|e| format!("close: {e}"))?;
    if dev.bytes() != first {
        return Err("closing after a flush changes the file again".into());
    }
    if dev.with(|d| d.unflushed) {
        return Err("close leaves data in the stream's buffer".into());
    }
    on_disk = mo.file(on_disk);
    if let Some(e) = differs(&first, &on_disk, ps) {
        return Err(format!("after the final flush: {e}"));
    }
    let mut db = open(&dev, true)?;
    c04::eq("sequence", db.get_header().sequence, mo.m.db.sequence)?;
    for t in 0..mo.m.db.chains.len() {
        apply(&mut db, &mut mo, &Op::Walk(t), ctx, physical).map_err(|e| format!("after reopening: {e}"))?;
    }
    drop(db);
    if dev.bytes() != first {
        return Err("reopening and iterating changes the file".into());
    }
    Ok(())
}

/// A row whose text grows is saved over the row behind it.
fn growth() -> bool {
    let artist = |name: &str| Row { kind: Kind::Artist, vals: vec![0x60, 0, 7], strs: vec![Str::Auto(name.into())], order: vec![0], gaps: vec![0], share: false, tail: 0 };
    let s = &mut Src::replay(vec![]);
    let mut d = page::layout(s, 512, 2, vec![(true, artist("abc")), (true, artist("second"))], true);
    (d.page_index, d.next_page) = (1, 2);
    let m = page::Db { page_size: 512, unknown: 0, sequence: 1, chains: vec![(2, 2, vec![PageM::Data(d)])], next_unused: 2, garbage: 0 };
    let dev = Shared::new(m.encode());
    let names = |db: &mut Database<Shared>| -> Option<Vec<String>> {
        db.iter_rows::<p::Artist>().ok()?.map(|a| Ok(a.offsets.name.clone().into_string().unwrap_or_default())).collect().ok()
    };
    let run = || {
        let mut db = Database::open(dev.clone(), rekordcrate::pdb::DatabaseType::Plain).ok()?;
        db.iter_rows::<p::Artist>().ok()?.next().ok()??.offsets.inner.name = DeviceSQLString::new("a much longer name than before").ok()?;
        let want = names(&mut db)?;
        db.close().ok()?;
        dev.with(|d| d.pos = 0);
        let mut db = Database::open(dev.clone(), rekordcrate::pdb::DatabaseType::Plain).ok()?;
        Some((want, names(&mut db)))
    };
    run().is_some_and(|(want, got)| got != Some(want))
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![Box::new(G { name: "histories", rule: "at least one edit", quick: 120_000, thorough: 6_000_000, gen, check }),
        Box::new(G { name: "large-files", rule: "at least one edit, a page beyond 2 GiB", quick: 1_500, thorough: 40_000, gen: gen_large, check: check_large })];
    Property { id: "C08", level: "exploration", assumptions: &[], groups: g, known: vec![Known { key: "row-growth", still_fails: growth }], needs_cli: false }
}
