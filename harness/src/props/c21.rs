//! Stability of accepted bytes under rewriting.
use super::{c16, c17};
use crate::alloc::with_limit;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::anlz;
use crate::model::mutate::{self, Mut};
use crate::model::page::{self, AnyDb, PageM, Shape};
use crate::model::row::{self, Kind};
use crate::model::setting::{self, ALL};
use crate::sio::Shared;
use crate::src::{filler, Src};
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::{self as p, DatabaseType};
use rekordcrate::setting::Setting;
use std::fmt::Debug;
use std::io::{Cursor, Seek, SeekFrom, Write};

const HEAP: usize = 768 << 20;

/// Memory that notices whether a byte is written with different values.
struct Paper {
    data: Vec<u8>,
    set: Vec<bool>,
    pos: u64,
    conflict: bool,
}
impl Paper {
    fn new(n: usize) -> Self {
        Paper { data: vec![0; n], set: vec![false; n], pos: 0, conflict: false }
    }
}
impl Write for Paper {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let p = usize::try_from(self.pos).ok().filter(|p| p + b.len() <= 1 << 24).ok_or_else(|| std::io::Error::other("too far"))?;
        if self.data.len() < p + b.len() {
            self.data.resize(p + b.len(), 0);
            self.set.resize(p + b.len(), false);
        }
        for (i, v) in b.iter().enumerate() {
            self.conflict |= self.set[p + i] && self.data[p + i] != *v;
            self.data[p + i] = *v;
            self.set[p + i] = true;
        }
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Paper {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let t = match to {
            SeekFrom::Start(x) => i128::from(x),
            SeekFrom::Current(x) => i128::from(self.pos) + i128::from(x),
            SeekFrom::End(x) => self.data.len() as i128 + i128::from(x),
        };
        self.pos = u64::try_from(t).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

fn short<T: Debug>(v: &T) -> String {
    format!("{v:?}").chars().take(1500).collect()
}

/// read, write, read, write. `exact`: the bytes are reproduced.
fn stable<T: PartialEq + Debug>(what: &str, b: &[u8], room: usize, exact: bool, read: &dyn Fn(&[u8]) -> Result<T, String>, write: &dyn Fn(&T, &mut Paper) -> Result<(), String>, ctx: &mut Ctx) -> CheckResult {
    let Ok(v) = read(b) else {
        ctx.tag("refused");
        return Ok(());
    };
    ctx.tag("accepted");
    let mut w = Paper::new(room);
    if let Err(e) = write(&v, &mut w) {
        return Err(format!("{what}: accepted, but not written: {e}; {}", short(&v)));
    }
    if w.conflict {
        // Parts of it overlap, so that what is written last wins.
        ctx.tag("overlapping parts");
        return Ok(());
    }
    ctx.nt(true);
    let again = read(&w.data).map_err(|e| format!("{what}: not accepted after rewriting: {e}; {}", short(&v)))?;
    if again != v {
        let (a, b) = (format!("{v:?}"), format!("{again:?}"));
        let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count().saturating_sub(60);
        let cut = |s: &str| s.chars().skip(i).take(200).collect::<String>();
        return Err(format!("{what}: …{}… is …{}… after rewriting", cut(&a), cut(&b)));
    }
    if let Some(i) = (0..w.data.len()).find(|&i| exact && w.set[i] && b.get(i) != Some(&w.data[i])) {
        return Err(format!("{what}: byte {i} of {} is {:#x}, not {:#x}, after rewriting", b.len(), w.data[i], b.get(i).copied().unwrap_or(0)));
    }
    let mut w2 = Paper::new(room);
    write(&again, &mut w2).map_err(|e| format!("{what}: not written again: {e}"))?;
    if w2.data != w.data {
        return Err(format!("{what}: rewritten twice, the bytes differ"));
    }
    Ok(())
}

// ---- pages

#[derive(Debug, Hash)]
struct PageCase {
    page: PageM,
    kind: Kind,
    muts: Vec<Mut>,
}
fn gen_page(s: &mut Src) -> PageCase {
    let kind = row::any_kind(s);
    let ps = *s.pick(&[512u32, 1024, 4096]);
    let page = if s.chance(1, 4) { PageM::Index(page::gen_index(s, ps, kind.number())) } else { PageM::Data(page::gen_data(s, ps, kind, false, 12)) };
    let mut h: Vec<usize> = (0..40).collect();
    match &page {
        PageM::Data(d) => {
            for x in &d.slots {
                let n = x.row.encode().bytes.len();
                h.extend((0..n.min(200)).map(|k| 40 + x.offset as usize + k));
            }
            for g in 0..d.slots.len().div_ceil(16) {
                h.extend((0..36).map(|k| ps as usize - 36 * (g + 1) + k));
            }
        }
        PageM::Index(_) => h.extend(40..100),
    }
    let muts = if s.chance(1, 8) { vec![] } else { mutate::gen(s, ps as usize, &h) };
    PageCase { page, kind, muts }
}
fn check_page(c: &PageCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.page.encode();
    let ps = b.len() as u32;
    mutate::apply(&mut b, &c.muts);
    let read = |b: &[u8]| p::Page::read_le_args(&mut Cursor::new(b), (ps, c.kind.db())).map_err(|e| e.to_string());
    // Unused index entries and the bytes between the rows are not kept.
    let data = read(&b).is_ok_and(|p| p.content.as_data().is_some());
    let write = |v: &p::Page, w: &mut Paper| v.write_le_args(w, (ps,)).map_err(|e| e.to_string());
    with_limit(HEAP, || stable("page", &b, ps as usize, data, &read, &write, ctx)).0
}

// ---- rows

#[derive(Debug, Hash)]
struct RowCase {
    row: row::Row,
    muts: Vec<Mut>,
    tail: (usize, u64),
    other: Option<Kind>,
}
fn gen_row(s: &mut Src) -> RowCase {
    let kind = row::any_kind(s);
    let row = row::gen(s, kind, false, false);
    let e = row.encode();
    let h: Vec<usize> = (0..8).chain(e.offsets.iter().flat_map(|o| [*o, *o + 1])).chain(0..e.bytes.len().min(400)).collect();
    RowCase { muts: mutate::gen(s, e.bytes.len(), &h), tail: (s.usize(0, 200), s.below(1 << 20)), other: s.chance(1, 8).then(|| row::any_kind(s)), row }
}
fn check_row(c: &RowCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.row.encode().bytes;
    mutate::apply(&mut b, &c.muts);
    b.extend(filler(c.tail.1, c.tail.0));
    let ty = c.other.unwrap_or(c.row.kind).page_type();
    let read = |b: &[u8]| p::Row::read_le_args(&mut Cursor::new(b), (ty,)).map_err(|e| e.to_string());
    let write = |v: &p::Row, w: &mut Paper| v.write_le(w).map_err(|e| e.to_string());
    with_limit(HEAP, || stable("row", &b, 0, true, &read, &write, ctx)).0
}

fn check_string(b: &Vec<u8>, ctx: &mut Ctx) -> CheckResult {
    let read = |b: &[u8]| DeviceSQLString::read_le(&mut Cursor::new(b)).map_err(|e| e.to_string());
    let write = |v: &DeviceSQLString, w: &mut Paper| v.write_le(w).map_err(|e| e.to_string());
    stable("string", b, 0, true, &read, &write, ctx)
}
fn gen_string(s: &mut Src) -> Vec<u8> {
    let mut b = crate::model::dsql::any(s, 60).encode();
    let n = b.len();
    let m = mutate::gen(s, n, &[0, 1, 2, 3, 4, 5]);
    mutate::apply(&mut b, &m);
    b.extend(s.list(0, 200, 20, |s| s.u8()));
    b
}

// ---- analysis files

#[derive(Debug, Hash)]
struct AnlzCase {
    file: anlz::File,
    extra: Vec<u8>,
    muts: Vec<Mut>,
}
fn gen_anlz(s: &mut Src) -> AnlzCase {
    let mut file = anlz::file(s);
    file.secs.truncate(4);
    let n = file.encode().len();
    let mut h = c17::hot(&file);
    h.extend(0..n.min(300));
    let n_extra = if s.chance(1, 8) { s.usize(1, 24) } else { 0 };
    AnlzCase { extra: s.bytes(n_extra), muts: if n_extra > 0 && s.bool() { vec![] } else { mutate::gen(s, n, &h) }, file }
}
fn check_anlz(c: &AnlzCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.file.encode();
    // Bytes behind the last section that belong to the file.
    b.extend_from_slice(&c.extra);
    let total = b.len() as u32;
    b[8..12].copy_from_slice(&total.to_be_bytes());
    mutate::apply(&mut b, &c.muts);
    let read = |b: &[u8]| ANLZ::read(&mut Cursor::new(b)).map_err(|e| e.to_string());
    let write = |v: &ANLZ, w: &mut Paper| v.write(w).map_err(|e| e.to_string());
    with_limit(HEAP, || {
        stable("analysis file", &b, 0, true, &read, &write, ctx)?;
        let Ok(v) = read(&b) else { return Ok(()) };
        let mut w = Paper::new(0);
        write(&v, &mut w)?;
        match b.get(8..12).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])) {
            Some(n) if w.data.len() < n as usize => Err(format!("analysis file of {n} bytes is accepted, but only {} of them are written", w.data.len())),
            _ => Ok(()),
        }
    })
    .0
}

// ---- settings

#[derive(Debug, Hash)]
struct SetCase {
    file: setting::File,
    muts: Vec<Mut>,
}
fn gen_set(s: &mut Src) -> SetCase {
    let file = setting::gen(s);
    let n = file.encode().len();
    let h: Vec<usize> = (0..n).collect();
    SetCase { muts: mutate::gen(s, n, &h), file }
}
fn check_set(c: &SetCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.file.encode();
    mutate::apply(&mut b, &c.muts);
    let read = |b: &[u8]| Setting::read_args(&mut Cursor::new(b), (ALL[c.file.which].kind,)).map_err(|e| e.to_string());
    // The checksum is written anew, and nothing behind the end of a text is kept.
    let write = |v: &Setting, w: &mut Paper| v.write(w).map_err(|e| e.to_string());
    stable("settings file", &b, 0, false, &read, &write, ctx)
}

// ---- databases

#[derive(Debug, Hash)]
struct DbCase {
    db: AnyDb,
    muts: Vec<Mut>,
}
const SHAPE: Shape = Shape { sizes: &[512, 1024], max_tables: 3, max_pages: 2, max_rows: 6, unknown_tables: true };
fn gen_db(s: &mut Src) -> DbCase {
    let db = page::gen_db(s, SHAPE);
    let n = db.db.page_size as usize * db.db.next_unused as usize;
    let mut h = c16::hot(&db);
    h.extend(0..100);
    DbCase { muts: mutate::gen(s, n, &h), db }
}

type Loaded = (p::Header, Vec<(u32, Option<p::Page>)>);
fn load(dev: &Shared, ty: DatabaseType, n: u32) -> Result<(Database<Shared>, Loaded), String> {
    dev.with(|d| d.pos = 0);
    let mut db = Database::open(dev.clone(), ty).map_err(|e| e.to_string())?;
    let h = db.get_header().clone();
    let mut v = vec![];
    for i in 1..n {
        v.push((i, super::c07::index(i).ok().and_then(|i| db.load_page(i).ok().cloned())));
    }
    Ok((db, (h, v)))
}
/// Whether the parts of a page overlap or reach beyond it.
fn tidy(pg: &p::Page, ps: u32) -> bool {
    let mut w = Paper::new(ps as usize);
    pg.write_le_args(&mut w, (ps,)).is_ok() && !w.conflict && w.data.len() == ps as usize
}
fn check_db(c: &DbCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.db.db.encode();
    mutate::apply(&mut b, &c.muts);
    let ty = c.db.db_type();
    let n = c.db.db.next_unused + 2;
    with_limit(HEAP, || {
        let dev = Shared::new(b.clone());
        let Ok((mut db, first)) = load(&dev, ty, n) else {
            ctx.tag("refused");
            return Ok(());
        };
        let ps = first.0.page_size;
        if !first.1.iter().filter_map(|x| x.1.as_ref()).all(|pg| tidy(pg, ps)) {
            ctx.tag("overlapping parts");
            return Ok(());
        }
        ctx.nt(first.1.iter().any(|x| x.1.is_some()));
        db.close().map_err(|e| format!("not written: {e}"))?;
        let bytes = Shared::bytes(&dev);
        if bytes.len() > b.len().next_multiple_of(ps.max(1) as usize) {
            return Err(format!("the file grows from {} to {} bytes", b.len(), bytes.len()));
        }
        let (mut db, second) = load(&dev, ty, n).map_err(|e| format!("not accepted after rewriting: {e}"))?;
        if second.0 != first.0 {
            return Err(format!("header {:?} is {:?} after rewriting", first.0, second.0));
        }
        for (x, y) in first.1.iter().zip(&second.1) {
            // A page that was cut off may have been completed.
            if x.1.is_some() && x != y {
                return Err(format!("page {}: {} is {} after rewriting", x.0, short(&x.1), short(&y.1)));
            }
        }
        db.flush().map_err(|e| format!("not written again: {e}"))?;
        let again = Shared::bytes(&dev);
        if again[..bytes.len()] != bytes[..] {
            return Err("rewritten twice, the bytes differ".into());
        }
        Ok(())
    })
    .0
}

pub fn prop() -> Property {
    let rule = "corrupted bytes that are accepted and whose parts do not overlap";
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "pages", rule, quick: 400_000, thorough: 15_000_000, gen: gen_page, check: check_page }),
        Box::new(G { name: "rows", rule, quick: 600_000, thorough: 25_000_000, gen: gen_row, check: check_row }),
        Box::new(G { name: "strings", rule, quick: 400_000, thorough: 15_000_000, gen: gen_string, check: check_string }),
        Box::new(G { name: "anlz", rule, quick: 300_000, thorough: 12_000_000, gen: gen_anlz, check: check_anlz }),
        Box::new(G { name: "settings", rule, quick: 250_000, thorough: 8_000_000, gen: gen_set, check: check_set }),
        Box::new(G { name: "databases", rule, quick: 100_000, thorough: 4_000_000, gen: gen_db, check: check_db }),
    ];
    Property {
        id: "C21",
        level: "exploration",
        assumptions: &["objects whose corrupted offsets make two parts share bytes with different contents are not judged"],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
