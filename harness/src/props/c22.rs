//! Heap sizes of rows.
use super::c03;
use super::c04::{read_page, write_page};
use crate::engine::{no_panic, CheckResult, Ctx, Group, Property, G};
use crate::model::dsql::Str;
use crate::model::page;
use crate::model::row::{self, Kind, Row};
use crate::src::Src;
use binrw::{BinWrite, Endian};
use rekordcrate::pdb as p;
use rekordcrate::pdb::ext::ExtRow;
use rekordcrate::util::MaybeCalculated;
use std::io::Cursor;

#[derive(Debug, Hash)]
struct Case {
    row: Row,
    calculated: bool,
}

fn gen_row(s: &mut Src, kind: Kind, large: bool) -> Row {
    let plain = s.bool();
    let compact = s.bool();
    let mut r = row::gen(s, kind, plain, compact);
    if large && !r.strs.is_empty() && s.chance(1, 10) {
        let i = s.usize(0, r.strs.len() - 1);
        let n = *s.pick(&[100usize, 126, 127, 250, 1000, 9000, 31000, 60000]) + s.usize(0, 5);
        r.strs[i] = Str::Auto(if s.bool() || n > 31000 { "a".repeat(n) } else { "\u{e4}".repeat(n) });
        r.fix_offsets();
    }
    r
}

fn gen(s: &mut Src) -> Case {
    use row::Kind::*;
    // Rows with an offset array more often.
    let kind = if s.bool() { *s.pick(&[Track, Artist, Album, Tag]) } else { row::any_kind(s) };
    Case { row: gen_row(s, kind, true), calculated: s.bool() }
}

/// Let the offsets be calculated; only some row types give access to them.
pub fn calculate(r: &mut p::Row) -> bool {
    if let Some(t) = r.as_variant_mut::<p::Track>() {
        t.offsets.offsets = MaybeCalculated::Calculated;
    } else if let Some(t) = r.as_variant_mut::<p::Artist>() {
        t.offsets.offsets = MaybeCalculated::Calculated;
    } else if let p::Row::Ext(ExtRow::Tag(t)) = r {
        t.offsets.offsets = MaybeCalculated::Calculated;
    } else {
        return false;
    }
    true
}

/// Bytes that the row occupies when it is written; none if it cannot be written.
fn extent(r: &p::Row) -> Option<usize> {
    let mut out = Cursor::new(vec![]);
    r.write_options(&mut out, Endian::Little, ()).ok()?;
    Some(out.into_inner().len())
}

/// The heap size that is computed for the row, by the hook that only exists with the flag.
fn heap_size(r: &p::Row) -> Result<u16, String> {
    #[cfg(rekordcrate_verif)]
    return no_panic(|| r.verif_heap_bytes_required());
    #[cfg(not(rekordcrate_verif))]
    {
        let _ = (r, no_panic(|| ()));
        Err("the harness was built without the hooks".into())
    }
}

fn decoded(row: &Row, calculated: bool) -> Result<(p::Row, bool), String> {
    let mut r = c03::decode(&row.encode().bytes, 0, row.kind)?;
    let calculated = calculated && calculate(&mut r);
    Ok((r, calculated))
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let (r, calculated) = decoded(&c.row, c.calculated)?;
    let Some(n) = extent(&r) else {
        // 8-bit offsets can overflow when the strings are laid out again.
        if calculated && !c.row.wide_offsets() {
            ctx.tag("grown beyond 8-bit offsets");
            return Ok(());
        }
        return Err("a decoded row cannot be written".into());
    };
    if n > 65535 {
        ctx.tag("larger than any page");
        return Ok(());
    }
    ctx.nt(true);
    ctx.tag(if calculated {
        "calculated offsets"
    } else if c.row.kind.schema().iter().any(|f| matches!(f, row::F::Offs(_))) {
        "given offsets"
    } else {
        "no offsets"
    });
    if n > 255 {
        ctx.tag("more than 255 bytes");
    }
    let h = heap_size(&r)?;
    if usize::from(h) != n {
        return Err(format!("the heap size of a {:?} row is {h}, but it is written to {n} bytes", c.row.kind));
    }
    Ok(())
}

// ---- rows on a page --------------------------------------------------------------------------

#[derive(Debug, Hash)]
struct Fill {
    kind: Kind,
    page_size: u32,
    rows: Vec<(Row, bool)>,
}

fn gen_fill(s: &mut Src) -> Fill {
    use row::Kind::*;
    let kind = if s.bool() { *s.pick(&[Track, Artist, Album, Tag]) } else { row::any_kind(s) };
    let page_size = *s.pick(&[4096u32, 1024, 16384]);
    Fill { kind, page_size, rows: s.list(1, 60, 10, |s| (gen_row(s, kind, false), s.bool())) }
}

/// Rows that are allocated with their heap sizes do not disturb each other.
fn check_fill(c: &Fill, ctx: &mut Ctx) -> CheckResult {
    let empty = page::layout(&mut Src::replay(vec![]), c.page_size, c.kind.number(), vec![], true);
    let (mut page, _) = read_page(&empty.encode(false), 0, c.page_size, c.kind.db())?;
    let mut inserted = vec![];
    for (m, calculated) in &c.rows {
        let (r, calculated) = decoded(m, *calculated)?;
        if extent(&r).is_none() {
            continue;
        }
        let bytes = heap_size(&r)?;
        let at = page.header.used_size;
        let Some(insert) = page.allocate_row(bytes) else {
            ctx.tag("page full");
            continue;
        };
        insert(r.clone());
        inserted.push((at, r, calculated));
    }
    ctx.nt(inserted.len() > 1);
    let (out, _) = write_page(&page, vec![0; c.page_size as usize], 0, c.page_size)?;
    let (back, _) = read_page(&out, 0, c.page_size, c.kind.db()).map_err(|e| format!("page with {} inserted rows: {e}", inserted.len()))?;
    let rows = &back.content.as_data().ok_or("not a data page any more")?.rows;
    if rows.len() != inserted.len() {
        return Err(format!("{} rows inserted, {} read back", inserted.len(), rows.len()));
    }
    for (i, (at, r, calculated)) in inserted.iter().enumerate() {
        let got = rows.get(at).ok_or_else(|| format!("no row at the offset {at} of row {i}"))?;
        let mut got = got.clone();
        if *calculated {
            calculate(&mut got);
        }
        if got != *r {
            return Err(short_diff(i, inserted.len(), &got, r));
        }
    }
    Ok(())
}

fn cut(r: &p::Row) -> String {
    format!("{r:?}").chars().take(400).collect()
}

fn short_diff(i: usize, n: usize, got: &p::Row, want: &p::Row) -> String {
    format!("row {i} of {n} reads back as {}, inserted was {}", cut(got), cut(want))
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "sizes", rule: "a row of at most 65535 bytes", quick: 500_000, thorough: 12_000_000, gen, check }),
        Box::new(G { name: "pages", rule: "at least two rows inserted", quick: 40_000, thorough: 1_000_000, gen: gen_fill, check: check_fill }),
    ];
    Property {
        id: "C22",
        level: "exploration",
        assumptions: &["rows that are larger than 65535 bytes fit into no page and are not considered"],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
