//! Row allocation histories.
use super::c03;
use super::c04::{compare, eq, read_page, write_page};
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::page::{self, DataPage, Slot};
use crate::model::row::{self, Kind, Row};
use crate::src::Src;
use rekordcrate::pdb::Page;

#[derive(Debug, Hash)]
enum Op {
    /// Allocate the row's size plus `slack` bytes; insert the row or drop the allocation.
    Row { row: Row, slack: u16, insert: bool },
    /// Allocate this many bytes relative to the free space (never inserted).
    Near { delta: i32 },
    Raw { bytes: u16 },
    /// Write the page and read it back.
    Reload,
}

#[derive(Debug, Hash)]
struct Case {
    page: DataPage,
    kind: Kind,
    ops: Vec<Op>,
}

fn gen(s: &mut Src) -> Case {
    let kind = row::any_kind(s);
    let ps = *s.pick(&[1024u32, 512, 2048, 4096, 4096]);
    let start = *s.pick(&[0usize, 0, 5, 17, 40]);
    let mut page = page::gen_data(s, ps, kind, true, start);
    page.garbage *= s.below(2);
    let mean = *s.pick(&[4, 20, 60]);
    let ops = s.list(1, 150, mean, |s| match s.weighted(&[10, 2, 2, 1]) {
        0 => {
            let r = row::gen(s, kind, true, true);
            Op::Row { row: r, slack: if s.chance(1, 3) { s.below(50) as u16 } else { 0 }, insert: !s.chance(1, 6) }
        }
        1 => Op::Near { delta: s.below(24) as i32 - 12 },
        2 => Op::Raw { bytes: s.u16().max(1) },
        _ => Op::Reload,
    });
    Case { page, kind, ops }
}

/// Few, long histories on big pages, up to and beyond what the row counters can hold.
fn gen_big(s: &mut Src) -> Case {
    let kind = *s.pick(&[Kind::PlaylistEntry, Kind::TrackTag, Kind::Artwork]);
    let ps = *s.pick(&[65536u32, 65536, 32768]);
    let mut page = page::gen_data(s, ps, kind, true, 2);
    page.garbage = 0;
    let proto = row::gen(s, kind, true, true);
    let n = s.usize(200, 2300);
    let tiny = s.bool();
    let insert_all = s.bool();
    let mut ops = vec![];
    for i in 0..n {
        if !insert_all && i % 3 == 1 {
            for _ in 0..if tiny { 4 } else { 1 } {
                ops.push(Op::Raw { bytes: 1 });
            }
        } else {
            ops.push(Op::Row { row: proto.clone(), slack: 0, insert: true });
        }
    }
    let k = s.usize(0, 3);
    for _ in 0..k {
        let b = 65535 - s.below(10) as u16;
        ops.push(Op::Raw { bytes: b });
    }
    if s.bool() {
        for _ in 0..9000 {
            ops.push(Op::Raw { bytes: 1 + s.below(4) as u16 });
        }
    }
    Case { page, kind, ops }
}

/// Apply an allocation to the model: whether it must be granted / must be refused.
fn fits(m: &DataPage, bytes: u16) -> (bool, bool) {
    let a = usize::from(bytes).next_multiple_of(4);
    let group = if m.slots.len() % 16 == 0 { 4 } else { 0 };
    let free = usize::from(m.free);
    // The counters hold at most 8191 rows, 2047 of them present.
    let room = m.slots.len() < 8191 && m.valid() < 2047;
    (free >= a + 6 && room, free < a + 2 + group || m.slots.len() >= 8191)
}

fn account(p: &Page, m: &DataPage, step: &str) -> CheckResult {
    let h = &p.header;
    eq(&format!("{step}: num_rows"), usize::from(h.packed_row_counts.num_rows()), m.slots.len())?;
    eq(&format!("{step}: num_rows_valid"), usize::from(h.packed_row_counts.num_rows_valid()), m.valid())?;
    eq(&format!("{step}: used_size"), h.used_size, m.used)?;
    eq(&format!("{step}: free_size"), h.free_size, m.free)?;
    let d = p.content.as_data().ok_or("not a data page any more")?;
    eq(&format!("{step}: row groups"), d.row_groups.len(), m.groups())?;
    eq(&format!("{step}: rows"), d.rows.len(), m.valid())
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let mut m = c.page.clone();
    let big = m.page_size > 8192;
    let (mut p, _) = read_page(&m.encode(true), 0, m.page_size, c.kind.db())?;
    let mut granted = 0;
    let mut refused = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let step = format!("step {i}");
        let (bytes, row, insert) = match op {
            Op::Row { row, slack, insert } => {
                let e = row.encode();
                (e.bytes.len() as u16 + slack, Some(row), *insert)
            }
            Op::Near { delta } => (((i32::from(m.free) + delta).clamp(1, 65535)) as u16, None, false),
            Op::Raw { bytes } => (*bytes, None, false),
            Op::Reload => {
                let (out, _) = write_page(&p, vec![0; m.page_size as usize], 0, m.page_size)?;
                let (q, _) = read_page(&out, 0, m.page_size, c.kind.db())?;
                if q != p {
                    return Err(format!("{step}: written page reads back different"));
                }
                // Absent slots above the top present one are not stored; they read back as zero.
                for g in 0..m.groups() {
                    let end = m.slots.len().min(16 * g + 16);
                    let top = (16 * g..end).rev().find(|k| m.slots[*k].present);
                    for k in top.map_or(16 * g, |t| t + 1)..end {
                        m.slots[k].offset = 0;
                    }
                }
                p = q;
                continue;
            }
        };
        let (must, must_not) = fits(&m, bytes);
        let before = if big { None } else { Some(p.clone()) };
        let decoded = match row {
            Some(r) if insert => Some(c03::decode(&r.encode().bytes, 0, c.kind)?),
            _ => None,
        };
        let ok = p
            .allocate_row(bytes)
            .map(|f| {
                if let Some(r) = decoded {
                    f(r);
                }
            })
            .is_some();
        match ok {
            false => {
                if must {
                    return Err(format!("{step}: {bytes} bytes refused with {} bytes free", m.free));
                }
                refused += 1;
                if let Some(b) = before {
                    if b != p {
                        return Err(format!("{step}: a refused allocation of {bytes} bytes changed the page"));
                    }
                }
            }
            true => {
                if must_not {
                    return Err(format!("{step}: {bytes} bytes granted with {} bytes free and {} rows", m.free, m.slots.len()));
                }
                granted += 1;
                let a = bytes.next_multiple_of(4);
                let group = if m.slots.len() % 16 == 0 { 4 } else { 0 };
                if group > 0 {
                    m.group_unknown.truncate(m.groups());
                    m.group_unknown.push(0);
                }
                let row = row.cloned().unwrap_or_else(|| c.page.slots.first().map_or_else(|| dummy(c.kind), |s| s.row.clone()));
                m.slots.push(Slot { present: insert, offset: m.used, row });
                m.used += a;
                m.free -= a + 2 + group;
            }
        }
        account(&p, &m, &step)?;
    }
    ctx.nt(granted > 0);
    if refused > 0 {
        ctx.tag("refusals");
    }
    if m.groups() > c.page.groups() {
        ctx.tag("new row group");
    }
    if m.valid() > 2000 {
        ctx.tag("row counter limit");
    }
    compare(&p, &m, c.kind, ctx, !big)?;
    // Over the page's own bytes, and on an empty page.
    let (out, _) = write_page(&p, vec![0; m.page_size as usize], 0, m.page_size)?;
    eq("size of the written page", out.len(), m.page_size as usize)?;
    let want = m.encode(false);
    if let Some(i) = (0..out.len()).find(|&i| out[i] != want[i]) {
        return Err(format!("written page: byte {i} is {:#x}, expected {:#x}", out[i], want[i]));
    }
    let (back, _) = read_page(&out, 0, m.page_size, c.kind.db())?;
    compare(&back, &m, c.kind, ctx, !big)?;
    let (again, _) = write_page(&p, c.page.encode(true), 0, m.page_size)?;
    let (back, _) = read_page(&again, 0, m.page_size, c.kind.db())?;
    compare(&back, &m, c.kind, ctx, false)
}

fn dummy(kind: Kind) -> Row {
    row::gen(&mut Src::replay(vec![]), kind, true, true)
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "histories", rule: "at least one allocation granted", quick: 125_000, thorough: 3_500_000, gen, check }),
        Box::new(G { name: "big-pages", rule: "at least one allocation granted", quick: 600, thorough: 15_000, gen: gen_big, check }),
    ];
    Property {
        id: "C05",
        level: "exploration",
        assumptions: &["allocations are of at least one byte; the page's stored free and used sizes are consistent"],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
