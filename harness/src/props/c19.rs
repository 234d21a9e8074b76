//! Split transfers, interruptions and I/O faults.
use super::c08::{self, Case, Model, Op};
use crate::engine::{CheckResult, Ctx, Group, Known, Property, G};
use crate::model::page::{self, PageM};
use crate::model::row::{self, Kind};
use crate::model::xml::{self, DocM, Style};
use crate::model::{anlz, setting};
use crate::sio::Shared;
use crate::src::Src;
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb as p;
use rekordcrate::pdb::io::Database;
use rekordcrate::setting::Setting;
use std::io::{BufReader, BufWriter, Read, Seek, Write};

/// Something that can be stored.
#[derive(Debug, Hash)]
pub enum Obj {
    Anlz(anlz::File),
    Setting(setting::File),
    Page(PageM, Kind),
    Row(row::Row),
    /// A row whose offsets are calculated when it is written.
    Calculated(row::Row),
    Xml(DocM, u64),
}

#[derive(Debug, PartialEq)]
enum Val {
    Anlz(ANLZ),
    Setting(Setting),
    Page(p::Page),
    Row(p::Row),
    Xml(Box<rekordcrate::xml::Document>),
}

impl Obj {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Obj::Anlz(f) => f.encode(),
            Obj::Setting(f) => f.encode(),
            Obj::Page(p, _) => p.encode(),
            Obj::Row(r) | Obj::Calculated(r) => r.encode().bytes,
            Obj::Xml(d, style) => Style::new(*style).document(&d.tree()).into_bytes(),
        }
    }
    fn size(&self) -> u32 {
        match self {
            Obj::Page(PageM::Data(d), _) => d.page_size,
            Obj::Page(PageM::Index(d), _) => d.page_size,
            _ => 0,
        }
    }
    fn read<R: Read + Seek>(&self, r: &mut R) -> Result<Val, String> {
        let e = |e: binrw::Error| e.to_string();
        Ok(match self {
            Obj::Anlz(_) => Val::Anlz(ANLZ::read(r).map_err(e)?),
            Obj::Setting(f) => Val::Setting(Setting::read_args(r, (f.layout().kind,)).map_err(e)?),
            Obj::Page(_, k) => Val::Page(p::Page::read_le_args(r, (self.size(), k.db())).map_err(e)?),
            Obj::Row(row) => Val::Row(p::Row::read_le_args(r, (row.kind.page_type(),)).map_err(e)?),
            Obj::Calculated(row) => {
                let mut v = p::Row::read_le_args(r, (row.kind.page_type(),)).map_err(e)?;
                super::c22::calculate(&mut v);
                Val::Row(v)
            }
            Obj::Xml(..) => Val::Xml(Box::new(quick_xml::de::from_reader(BufReader::with_capacity(32, r)).map_err(|e| e.to_string())?)),
        })
    }
    fn write<W: Write + Seek>(&self, v: &Val, w: &mut W) -> Result<(), String> {
        match v {
            Val::Anlz(f) => f.write(w),
            Val::Setting(f) => f.write(w),
            Val::Page(f) => f.write_le_args(w, (self.size(),)),
            Val::Row(f) => f.write_le(w),
            Val::Xml(_) => Ok(()),
        }
        .map_err(|e| e.to_string())
    }
    fn tag(&self) -> &'static str {
        match self {
            Obj::Anlz(_) => "analysis file",
            Obj::Setting(_) => "settings file",
            Obj::Page(..) => "page",
            Obj::Row(_) => "row",
            Obj::Calculated(_) => "row with calculated offsets",
            Obj::Xml(..) => "XML",
        }
    }
}

fn gen_obj(s: &mut Src, small: bool) -> Obj {
    match s.weighted(&[4, 1, 4, 4, 1]) {
        0 if small => {
            let mut f = anlz::file(s);
            f.secs.truncate(3);
            Obj::Anlz(f)
        }
        0 => Obj::Anlz(anlz::file(s)),
        1 => Obj::Setting(setting::gen(s)),
        2 => {
            let kind = row::any_kind(s);
            let ps = *s.pick(&[512u32, 1024, 2048]);
            Obj::Page(
                if s.chance(1, 4) { PageM::Index(page::gen_index(s, ps, kind.number())) } else { PageM::Data(page::gen_data(s, ps, kind, false, if small { 4 } else { 20 })) },
                kind,
            )
        }
        3 => {
            if s.chance(1, 3) {
                let kind = *s.pick(&[Kind::Track, Kind::Artist, Kind::Tag]);
                let r = row::gen(s, kind, false, false);
                // 8-bit offsets can overflow when the strings are laid out again.
                if r.wide_offsets() {
                    return Obj::Calculated(r);
                }
                return Obj::Row(r);
            }
            let kind = row::any_kind(s);
            Obj::Row(row::gen(s, kind, false, false))
        }
        _ => Obj::Xml(xml::gen(s), s.below(1 << 32)),
    }
}

#[derive(Debug, Hash)]
struct Split {
    chunks: Vec<usize>,
    interrupt: u64,
}
fn gen_split(s: &mut Src) -> Split {
    let max = *s.pick(&[1usize, 3, 7, 40, 500]);
    Split { chunks: s.list(0, 6, 2, |s| s.usize(1, max)), interrupt: if s.bool() { s.int(2, 9) } else { 0 } }
}

#[derive(Debug, Hash)]
struct SplitCase {
    obj: Obj,
    split: Split,
    buffer: Option<usize>,
}
fn gen_splits(s: &mut Src) -> SplitCase {
    SplitCase { split: gen_split(s), buffer: s.chance(1, 3).then(|| s.usize(1, 64)), obj: gen_obj(s, false) }
}

fn device(c: &Split, bytes: Vec<u8>) -> Shared {
    let dev = Shared::new(bytes);
    dev.with(|d| {
        d.chunks.clone_from(&c.chunks);
        d.interrupt_every = c.interrupt;
    });
    dev
}

fn check_split(c: &SplitCase, ctx: &mut Ctx) -> CheckResult {
    let b = c.obj.bytes();
    ctx.tag(c.obj.tag());
    ctx.nt(!c.split.chunks.is_empty() || c.split.interrupt > 0);
    let whole = c.obj.read(&mut Shared::new(b.clone())).map_err(|e| format!("not accepted: {e}"))?;
    let dev = device(&c.split, b.clone());
    let parts = match c.buffer {
        Some(n) => c.obj.read(&mut BufReader::with_capacity(n, dev)),
        None => c.obj.read(&mut dev.clone()),
    }
    .map_err(|e| format!("not accepted in pieces: {e}"))?;
    if whole != parts {
        return Err(format!("decodes to another value when read in pieces: {parts:?} instead of {whole:?}"));
    }
    // Over existing contents, as a database page is.
    let out = Shared::new(vec![0; b.len()]);
    c.obj.write(&whole, &mut out.clone()).map_err(|e| format!("is not written: {e}"))?;
    let dev = device(&c.split, vec![0; b.len()]);
    match c.buffer {
        Some(n) => {
            let mut w = BufWriter::with_capacity(n, dev.clone());
            c.obj.write(&whole, &mut w).map_err(|e| format!("is not written in pieces: {e}"))?;
            w.flush().map_err(|e| e.to_string())?;
        }
        None => c.obj.write(&whole, &mut dev.clone()).map_err(|e| format!("is not written in pieces: {e}"))?,
    }
    if Shared::bytes(&out) != Shared::bytes(&dev) {
        return Err("other bytes are written in pieces than as a whole".into());
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct DbSplit {
    case: Case,
    split: Split,
}
fn gen_db_split(s: &mut Src) -> DbSplit {
    DbSplit { split: gen_split(s), case: c08::gen(s) }
}
fn check_db_split(c: &DbSplit, ctx: &mut Ctx) -> CheckResult {
    c08::run(&c.case, &c.split.chunks, c.split.interrupt, ctx)
}

// ---- faults

/// At most `n` of the numbers 1..=total, always with both ends.
fn points(total: u64, n: u64, seed: u64) -> Vec<u64> {
    if total <= n {
        return (1..=total).collect();
    }
    let step = total / n;
    let mut v: Vec<u64> = (0..n).map(|i| 1 + (i * step + seed % step).min(total - 1)).collect();
    v.extend([1, total]);
    v
}

#[derive(Debug, Hash)]
struct Fault {
    obj: Obj,
    seed: u64,
    sticky: bool,
}
fn gen_fault(s: &mut Src) -> Fault {
    Fault { seed: s.below(1 << 16), sticky: s.bool(), obj: gen_obj(s, true) }
}
fn check_fault(c: &Fault, ctx: &mut Ctx) -> CheckResult {
    let b = c.obj.bytes();
    ctx.tag(c.obj.tag());
    ctx.nt(true);
    let dev = Shared::new(b.clone());
    let whole = c.obj.read(&mut dev.clone()).map_err(|e| format!("not accepted: {e}"))?;
    for k in points(dev.with(|d| d.ops), 60, c.seed) {
        ctx.evals += 1;
        let dev = Shared::new(b.clone());
        dev.with(|d| {
            d.fail_at = Some(k);
            d.fail_sticky = c.sticky;
        });
        let r = c.obj.read(&mut dev.clone());
        match (r, dev.with(|d| d.failed)) {
            // Known finding `transient-fault-direct`; databases are checked strictly below.
            (Ok(_), true) if !c.sticky && matches!(c.obj, Obj::Page(..) | Obj::Row(_) | Obj::Calculated(_)) => ctx.tag("known: transient fault"),
            // quick_xml looks ahead, past the end of the document.
            (Ok(v), true) if matches!(c.obj, Obj::Xml(..)) && v == whole => {}
            (Ok(v), true) => {
                return Err(format!("an I/O error at operation {k} is not reported; the result is {}", if v == whole { "right" } else { "wrong" }));
            }
            (Err(e), false) => return Err(format!("without an I/O error: {e}")),
            (Ok(v), false) if v != whole => return Err("repeated reading gives another value".into()),
            _ => {}
        }
    }
    let out = Shared::new(vec![0; b.len()]);
    c.obj.write(&whole, &mut out.clone()).map_err(|e| format!("is not written: {e}"))?;
    for k in points(out.with(|d| d.ops), 60, c.seed) {
        ctx.evals += 1;
        let dev = Shared::new(vec![0; b.len()]);
        dev.with(|d| {
            d.fail_at = Some(k);
            d.fail_sticky = c.sticky;
        });
        let r = c.obj.write(&whole, &mut dev.clone());
        match (r, dev.with(|d| d.failed)) {
            (Ok(()), true) => return Err(format!("an I/O error while writing (operation {k}) is not reported")),
            (Err(e), false) => return Err(format!("without an I/O error: {e}")),
            _ => {}
        }
        // Once more over what was written before the fault.
        dev.with(|d| {
            d.fail_at = None;
            d.pos = 0;
        });
        c.obj.write(&whole, &mut dev.clone()).map_err(|e| format!("is not written again: {e}"))?;
        if Shared::bytes(&dev) != Shared::bytes(&out) {
            return Err(format!("writing again after an I/O error at operation {k} gives other bytes"));
        }
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct DbFault {
    case: Case,
    seed: u64,
    sticky: bool,
}
fn gen_db_fault(s: &mut Src) -> DbFault {
    let (seed, sticky) = (s.below(1 << 16), s.bool());
    let mut case = c08::gen(s);
    case.ops.retain(|o| !matches!(o, Op::LoadUnused));
    case.ops.truncate(8);
    case.persist = true;
    DbFault { case, seed, sticky }
}

/// Runs the history with a fault at operation `k` of the stream; every call that meets the fault
/// must report it, and works when it is repeated without the fault. Returns the operations used.
fn faulty(c: &DbFault, k: Option<u64>, ctx: &mut Ctx) -> Result<u64, String> {
    let bytes = c08::start(&c.case);
    let ps = c.case.db.db.page_size as usize;
    let dev = Shared::new(bytes.clone());
    let ty = c.case.db.db_type();
    dev.with(|d| {
        d.fail_at = k;
        d.fail_sticky = c.sticky;
    });
    // The fault is over once a call has reported it.
    let mut retried = false;
    let mut again = |r: CheckResult, what: &str, ctx: &mut Ctx| -> Result<bool, String> {
        let failed = dev.with(|d| std::mem::take(&mut d.failed));
        if failed {
            dev.with(|d| d.fail_at = None);
            retried = true;
        }
        match (r, failed) {
            (Ok(()), false) => Ok(false),
            (Ok(()), true) => Err(format!("{what}: an I/O error (operation {}) is not reported", k.unwrap_or(0))),
            (Err(_), true) => {
                ctx.tag("fault reported");
                Ok(true)
            }
            (Err(e), false) => Err(format!("{what}{}: {e}", if retried { " after a fault" } else { "" })),
        }
    };
    let mut open = None;
    for _ in 0..2 {
        dev.with(|d| d.pos = 0);
        let r = Database::open(dev.clone(), ty).map(|d| open = Some(d)).map_err(|e| e.to_string());
        if !again(r, "opening", ctx)? {
            break;
        }
    }
    let mut db = open.ok_or("opening fails twice")?;
    let mut mo = Model::new(c.case.db.clone());
    let mut disk = bytes;
    for (i, op) in c.case.ops.iter().enumerate() {
        let what = format!("step {i} ({op:?})");
        if matches!(op, Op::Flush) {
            for _ in 0..2 {
                if !again(db.flush().map_err(|e| e.to_string()), &what, ctx)? {
                    break;
                }
                ctx.tag("flush repeated");
            }
            disk = mo.file(disk);
        } else {
            for _ in 0..2 {
                let r = c08::apply(&mut db, &mut mo, op, ctx, c.case.db.db.next_unused);
                if !again(r, &what, ctx)? {
                    break;
                }
            }
        }
        if let Some(e) = c08::differs(&Shared::bytes(&dev), &disk, ps) {
            return Err(format!("after {what}: {e}"));
        }
    }
    for _ in 0..2 {
        if !again(db.flush().map_err(|e| e.to_string()), "final flush", ctx)? {
            break;
        }
        ctx.tag("flush repeated");
    }
    again(db.close().map_err(|e| e.to_string()), "closing", ctx)?;
    disk = mo.file(disk);
    if let Some(e) = c08::differs(&Shared::bytes(&dev), &disk, ps) {
        return Err(format!("after the final flush: {e}"));
    }
    Ok(dev.with(|d| d.ops))
}
fn check_db_fault(c: &DbFault, ctx: &mut Ctx) -> CheckResult {
    let n = faulty(c, None, ctx)?;
    ctx.nt(n > 20);
    for k in points(n, 24, c.seed) {
        ctx.evals += 1;
        faulty(c, Some(k), ctx)?;
    }
    Ok(())
}

/// A page in which one read fails is decoded all the same.
fn transient() -> bool {
    // An empty data page of the track table.
    let mut b = vec![0u8; 512];
    b[4] = 1;
    b[12] = 2;
    b[16] = 1;
    b[27] = 36;
    b[28..30].copy_from_slice(&472u16.to_le_bytes());
    (1..40).any(|k| {
        let dev = Shared::new(b.clone());
        dev.with(|d| d.fail_at = Some(k));
        p::Page::read_le_args(&mut dev.clone(), (512, p::DatabaseType::Plain)).is_ok() && dev.with(|d| d.failed)
    })
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "split", rule: "transfers are split or interrupted", quick: 60_000, thorough: 3_000_000, gen: gen_splits, check: check_split }),
        Box::new(G { name: "split-database", rule: "at least one edit", quick: 10_000, thorough: 500_000, gen: gen_db_split, check: check_db_split }),
        Box::new(G { name: "faults", rule: "every case: a fault at up to 60 operations of reading and of writing", quick: 6_000, thorough: 300_000, gen: gen_fault, check: check_fault }),
        Box::new(G { name: "faults-database", rule: "the history needs more than 20 I/O operations; a fault at up to 24 of them", quick: 2_500, thorough: 120_000, gen: gen_db_fault, check: check_db_fault }),
    ];
    Property { id: "C19", level: "exploration", assumptions: &["a stream that fails keeps its position and contents consistent with what it reported"], groups: g, known: vec![Known { key: "transient-fault-direct", still_fails: transient }], needs_cli: false }
}
