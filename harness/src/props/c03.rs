//! Single rows.
use super::c01::short;
use crate::dbg;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::dsql::{self, Str};
use crate::model::row::{self, Kind, Row, F};
use crate::src::{filler, Src};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb as p;
use rekordcrate::pdb::ext::{ExtRow, ParentId};
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::util::MaybeCalculated;
use std::io::Cursor;
use std::num::NonZero;

#[derive(Debug, Hash)]
struct Case {
    row: Row,
    at: usize,
    garbage: u64,
}

fn pos(s: &mut Src) -> usize {
    s.usize(0, 12) * 4 + if s.chance(1, 6) { s.usize(0, 3) } else { 0 }
}

fn gen_plain(s: &mut Src) -> Case {
    let k = row::any_kind(s);
    Case { row: row::gen(s, k, true, false), at: pos(s), garbage: s.below(1 << 20) }
}

fn gen_any(s: &mut Src) -> Case {
    let k = row::any_kind(s);
    Case { row: row::gen(s, k, false, false), at: pos(s), garbage: s.below(1 << 20) }
}

pub fn decode(b: &[u8], at: usize, kind: Kind) -> Result<p::Row, String> {
    let mut c = Cursor::new(b);
    c.set_position(at as u64);
    p::Row::read_options(&mut c, Endian::Little, (kind.page_type(),)).map_err(|e| format!("a valid {kind:?} row is rejected: {}", short(&e)))
}

/// Buffer holding the row at `at`; bytes that belong to no field are garbage.
pub fn place(row: &Row, at: usize, garbage: u64) -> (Vec<u8>, Vec<bool>) {
    let e = row.encode();
    let n = at + e.bytes.len() + 9;
    let mut b = filler(garbage, n);
    let mut owned = vec![false; n];
    owned[at..at + e.bytes.len()].fill(true);
    for (x, y) in &e.padding {
        owned[at + x..at + y].fill(false);
    }
    for i in 0..e.bytes.len() {
        if owned[at + i] {
            b[at + i] = e.bytes[i];
        }
    }
    (b, owned)
}

/// Every observable field against the model.
pub fn compare(r: &p::Row, m: &Row, ctx: &mut Ctx, names: bool) -> CheckResult {
    if names {
        match dbg::parse(&format!("{r:?}")) {
            Some(d) => match d.get("0.0") {
                Some(d) => {
                    let n = dbg::compare(d, &m.expected()).map_err(|e| format!("{:?} row: {e}", m.kind))?;
                    if n == 0 {
                        ctx.tag("fields-unobserved");
                    }
                }
                None => ctx.tag("fields-unobserved"),
            },
            None => ctx.tag("fields-unobserved"),
        }
    }
    public_fields(r, m)
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> CheckResult {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:?}, the bytes say {want:?}"))
    }
}

fn sq(what: &str, got: &DeviceSQLString, want: Option<&Str>) -> CheckResult {
    let t = got.clone().into_string().map_err(|e| format!("{what}: {e}"))?;
    eq(what, t.as_str(), want.map_or("", Str::text))
}

fn public_fields(r: &p::Row, m: &Row) -> CheckResult {
    let v = |n: &str| m.val(n).unwrap() as u32;
    use row::Kind::*;
    macro_rules! variant {
        ($t:ty) => {
            r.as_variant::<$t>().ok_or_else(|| format!("a {:?} page's row is not a {} row", m.kind, stringify!($t)))?
        };
    }
    match m.kind {
        Track => {
            let t = variant!(p::Track);
            eq("Track.id", t.id.0, v("id"))?;
            eq("Track.artist_id", t.artist_id.0, v("artist_id"))?;
            eq("Track.rating", u32::from(t.rating), v("rating"))?;
            sq("Track title", &t.offsets.title, m.str("title"))?;
            sq("Track file path", &t.offsets.file_path, m.str("file_path"))?;
            sq("Track inner title", &t.offsets.inner.title, m.str("title"))
        }
        Artist => {
            let t = variant!(p::Artist);
            eq("Artist.id", t.id.0, v("id"))?;
            sq("Artist name", &t.offsets.name, m.str("name"))
        }
        Album => {
            variant!(p::Album);
            Ok(())
        }
        Genre => {
            variant!(p::Genre);
            Ok(())
        }
        Label => {
            variant!(p::Label);
            Ok(())
        }
        Key => {
            variant!(p::Key);
            Ok(())
        }
        Color => {
            variant!(p::Color);
            Ok(())
        }
        Artwork => {
            variant!(p::Artwork);
            Ok(())
        }
        HistoryPlaylist => {
            variant!(p::HistoryPlaylist);
            Ok(())
        }
        HistoryEntry => {
            variant!(p::HistoryEntry);
            Ok(())
        }
        History => {
            variant!(p::History);
            Ok(())
        }
        PlaylistTree => {
            let t = variant!(p::PlaylistTreeNode);
            eq("PlaylistTreeNode.parent_id", t.parent_id.0, v("parent_id"))?;
            eq("PlaylistTreeNode.id", t.id.0, v("id"))?;
            eq("PlaylistTreeNode.is_folder", t.is_folder(), v("node_is_folder") != 0)?;
            sq("PlaylistTreeNode.name", &t.name, m.str("name"))
        }
        PlaylistEntry => {
            let t = variant!(p::PlaylistEntry);
            eq("PlaylistEntry.entry_index", t.entry_index, v("entry_index"))?;
            eq("PlaylistEntry.track_id", t.track_id.0, v("track_id"))?;
            eq("PlaylistEntry.playlist_id", t.playlist_id.0, v("playlist_id"))
        }
        Column => {
            let t = variant!(p::ColumnEntry);
            sq("ColumnEntry.column_name", &t.column_name, m.str("column_name"))
        }
        Menu => {
            let t = variant!(p::Menu);
            eq("Menu.category_id", u32::from(t.category_id), v("category_id"))?;
            eq("Menu.content_pointer", u32::from(t.content_pointer), v("content_pointer"))?;
            eq("Menu.unknown", u32::from(t.unknown), v("unknown"))?;
            let vis = match v("visibility") {
                0 => p::MenuVisibility::Visible,
                1 => p::MenuVisibility::Hidden,
                x => p::MenuVisibility::Unknown(x as u8),
            };
            eq("Menu.visibility", t.visibility.clone(), vis)?;
            eq("Menu.sort_order", u32::from(t.sort_order), v("sort_order"))
        }
        Tag => {
            let p::Row::Ext(ExtRow::Tag(t)) = r else { return Err("a tag page's row is not a tag row".into()) };
            eq("TagOrCategory.subtype", u32::from(t.subtype.0), v("subtype"))?;
            eq("TagOrCategory.index_shift", u32::from(t.index_shift), v("index_shift"))?;
            eq("TagOrCategory.unknown1", t.unknown1, v("unknown1"))?;
            eq("TagOrCategory.unknown2", t.unknown2, v("unknown2"))?;
            eq("TagOrCategory.parent_id", t.parent_id.0.map(NonZero::get), Some(v("parent_id")).filter(|x| *x != 0))?;
            eq("TagOrCategory.position", t.position, v("position"))?;
            eq("TagOrCategory.id", t.id.0, v("id"))?;
            eq("TagOrCategory.raw_is_category", t.raw_is_category, v("raw_is_category"))?;
            sq("TagOrCategory name", &t.offsets.name, m.str("name"))?;
            sq("TagOrCategory unknown string", &t.offsets.unknown, m.str("unknown"))
        }
        TrackTag => {
            let p::Row::Ext(ExtRow::TrackTag(t)) = r else { return Err("a track tag page's row is not a track tag row".into()) };
            eq("TrackTag.track_id", t.track_id.0, v("track_id"))?;
            eq("TrackTag.tag_id", t.tag_id.0, v("tag_id"))?;
            eq("TrackTag.unknown_const", t.unknown_const, v("unknown_const"))
        }
    }
}

fn other_variants(r: &p::Row, kind: Kind) -> CheckResult {
    let mut n = 0;
    macro_rules! count {
        ($($t:ident)*) => { $( n += usize::from(r.as_variant::<p::$t>().is_some()); )* };
    }
    count!(Track Genre Artist Album Label Key Color Artwork HistoryPlaylist HistoryEntry History PlaylistTreeNode PlaylistEntry ColumnEntry Menu);
    let want = usize::from(kind.db() == p::DatabaseType::Plain);
    eq("number of row types the row converts to", n, want)
}

fn check(c: &Case, ctx: &mut Ctx, names: bool) -> CheckResult {
    let (b, owned) = place(&c.row, c.at, c.garbage);
    let r = decode(&b, c.at, c.row.kind)?;
    ctx.nt(c.row.vals.iter().any(|v| *v != 0) || c.row.strs.iter().any(|s| !s.text().is_empty()));
    ctx.tag(match c.row.val("subtype") {
        None => "inline",
        Some(v) if v & 4 != 0 => "16-bit offsets",
        _ => "8-bit offsets",
    });
    compare(&r, &c.row, ctx, names)?;
    other_variants(&r, c.row.kind)?;
    // Rewrite over another background: exactly the row's own bytes come out.
    let bg = filler(c.garbage + 91, b.len());
    let mut out = Cursor::new(bg.clone());
    out.set_position(c.at as u64);
    r.write_options(&mut out, Endian::Little, ()).map_err(|e| format!("writing fails: {}", short(&e)))?;
    let out = out.into_inner();
    for i in 0..b.len().max(out.len()) {
        let want = match owned.get(i) {
            Some(true) => Some(b[i]),
            Some(false) => Some(bg[i]),
            None => None,
        };
        if out.get(i).copied() != want {
            return Err(format!("rewriting: row byte {} is {:02x?}, expected {want:02x?}", i as i64 - c.at as i64, out.get(i)));
        }
    }
    Ok(())
}

fn check_plain(c: &Case, ctx: &mut Ctx) -> CheckResult {
    check(c, ctx, true)
}
fn check_any(c: &Case, ctx: &mut Ctx) -> CheckResult {
    check(c, ctx, false)
}

// ---- edits ----------------------------------------------------------------------------------

#[derive(Debug, Hash)]
struct Edit {
    row: Row,
    at: usize,
    /// New scalar values and texts; which are used depends on the row type.
    new: Vec<u32>,
    texts: Vec<Str>,
    mask: u64,
}

fn gen_edit(s: &mut Src) -> Edit {
    use row::Kind::*;
    let k = *s.pick(&[Track, Artist, PlaylistTree, PlaylistEntry, Column, Menu, Tag, TrackTag]);
    let mut row = row::gen(s, k, true, false);
    row.tail = 0;
    Edit { row, at: pos(s), new: s.exact(8, Src::u32), texts: s.exact(2, |s| Str::Auto(dsql::plain(s, 8).text().to_string())), mask: s.below(1 << 10) }
}

fn dstr(s: &Str) -> Result<DeviceSQLString, String> {
    DeviceSQLString::new(s.text()).map_err(|e| format!("{e}"))
}

fn check_edit(c: &Edit, ctx: &mut Ctx) -> CheckResult {
    use row::Kind::*;
    let (b, _) = place(&c.row, c.at, 5);
    let mut r = decode(&b, c.at, c.row.kind)?;
    let mut m = c.row.clone();
    let mut i = 0;
    let mut k = 0;
    let mut edits = 0;
    macro_rules! num {
        ($place:expr, $name:expr, $t:ty) => {{
            if c.mask >> i & 1 == 1 {
                let v = c.new[i % 8] as $t;
                $place = v;
                m.set_val($name, u64::from(v));
                edits += 1;
            }
            i += 1;
        }};
    }
    macro_rules! text {
        ($place:expr, $name:expr) => {{
            if c.mask >> i & 1 == 1 {
                $place = dstr(&c.texts[k])?;
                let si = m.str_index($name).unwrap();
                m.strs[si] = c.texts[k].clone();
                edits += 1;
            }
            i += 1;
            k += 1;
        }};
    }
    let mut moved = false;
    match c.row.kind {
        Track => {
            let t = r.as_variant_mut::<p::Track>().ok_or("not a track")?;
            num!(t.id.0, "id", u32);
            num!(t.artist_id.0, "artist_id", u32);
            num!(t.rating, "rating", u8);
            text!(t.offsets.inner.title, "title");
            text!(t.offsets.inner.file_path, "file_path");
            if k > 0 && (c.mask >> 3) & 3 != 0 {
                t.offsets.offsets = MaybeCalculated::Calculated;
                moved = true;
            }
        }
        Artist => {
            let t = r.as_variant_mut::<p::Artist>().ok_or("not an artist")?;
            num!(t.id.0, "id", u32);
            text!(t.offsets.inner.name, "name");
            if c.mask >> 1 & 1 == 1 {
                t.offsets.offsets = MaybeCalculated::Calculated;
                moved = true;
            }
        }
        PlaylistTree => {
            let t = r.as_variant_mut::<p::PlaylistTreeNode>().ok_or("not a node")?;
            num!(t.id.0, "id", u32);
            num!(t.parent_id.0, "parent_id", u32);
            text!(t.name, "name");
        }
        PlaylistEntry => {
            let t = r.as_variant_mut::<p::PlaylistEntry>().ok_or("not an entry")?;
            num!(t.entry_index, "entry_index", u32);
            num!(t.track_id.0, "track_id", u32);
            num!(t.playlist_id.0, "playlist_id", u32);
        }
        Column => {
            let t = r.as_variant_mut::<p::ColumnEntry>().ok_or("not a column")?;
            text!(t.column_name, "column_name");
        }
        Menu => {
            let t = r.as_variant_mut::<p::Menu>().ok_or("not a menu")?;
            num!(t.category_id, "category_id", u16);
            num!(t.content_pointer, "content_pointer", u16);
            num!(t.unknown, "unknown", u8);
            num!(t.sort_order, "sort_order", u16);
            if c.mask >> 8 & 1 == 1 {
                t.visibility = match c.new[7] % 3 {
                    0 => p::MenuVisibility::Visible,
                    1 => p::MenuVisibility::Hidden,
                    _ => p::MenuVisibility::Unknown(77),
                };
                m.set_val("visibility", [0, 1, 77][c.new[7] as usize % 3]);
                edits += 1;
            }
        }
        Tag => {
            let p::Row::Ext(ExtRow::Tag(t)) = &mut r else { return Err("not a tag".into()) };
            num!(t.unknown1, "unknown1", u32);
            num!(t.position, "position", u32);
            num!(t.id.0, "id", u32);
            num!(t.raw_is_category, "raw_is_category", u32);
            if c.mask >> 8 & 1 == 1 {
                let v = c.new[6];
                t.parent_id = ParentId(NonZero::new(v));
                m.set_val("parent_id", u64::from(v));
                edits += 1;
            }
            text!(t.offsets.inner.name, "name");
            text!(t.offsets.inner.unknown, "unknown");
            if c.mask >> 4 & 3 != 0 {
                t.offsets.offsets = MaybeCalculated::Calculated;
                moved = true;
            }
        }
        _ => {
            let p::Row::Ext(ExtRow::TrackTag(t)) = &mut r else { return Err("not a track tag".into()) };
            num!(t.track_id.0, "track_id", u32);
            num!(t.tag_id.0, "tag_id", u32);
            num!(t.unknown_const, "unknown_const", u32);
        }
    }
    let _ = (i, k);
    ctx.nt(edits > 0);
    ctx.tag(if moved { "strings moved" } else { "in place" });
    let mut out = Cursor::new(vec![0u8; c.at]);
    out.set_position(c.at as u64);
    if let Err(e) = r.write_options(&mut out, Endian::Little, ()) {
        // 8-bit offsets can overflow when the strings grow.
        let total: usize = 8 + m.strs.iter().map(|s| s.encode().len() + 3).sum::<usize>() + c.row.encode().bytes.len();
        if moved && !m.wide_offsets() && total > 255 {
            ctx.tag("grown beyond 8-bit offsets");
            return Ok(());
        }
        return Err(format!("writing the edited row fails: {}", short(&e)));
    }
    let out = out.into_inner();
    if !moved {
        let e = m.encode();
        let mut want = e.bytes.clone();
        for (x, y) in &e.padding {
            want[*x..*y].copy_from_slice(&out[c.at + x..c.at + y]);
        }
        if out[c.at..] != want[..] {
            return Err(format!("edited row is written as {:02x?}, expected {want:02x?}", &out[c.at..]));
        }
    }
    let mut padded = out.clone();
    padded.extend([0xA5; 4]);
    let back = decode(&padded, c.at, m.kind)?;
    compare(&back, &m, ctx, true)
}

// ---- undefined values ------------------------------------------------------------------------

#[derive(Debug, Hash)]
struct Bad {
    row: Row,
    what: u64,
    v: u64,
}

fn gen_bad(s: &mut Src) -> Bad {
    use row::Kind::*;
    let k = *s.pick(&[Track, Color, History, TrackTag, Artist, Album, Tag]);
    Bad { row: row::gen(s, k, true, true), what: s.below(3), v: s.int(1, 0xffff) }
}

/// Undefined color codes and wrong constants are errors.
fn check_bad(c: &Bad, ctx: &mut Ctx) -> CheckResult {
    let mut e = c.row.encode().bytes;
    let mut at = 0;
    let mut hit = None;
    for f in c.row.kind.schema() {
        match f {
            F::U8(_) | F::Vis(_) => at += 1,
            F::Clr(_) => {
                if c.what == 0 || c.row.kind != Kind::History {
                    e[at] = 9 + (c.v % 247) as u8;
                    hit = Some("color");
                    break;
                }
                at += 1;
            }
            F::U16(_) | F::FileType(_) | F::Sub(_) => at += 2,
            F::U32(_) => at += 4,
            F::C16(_) | F::C32(_) => {
                e[at] ^= c.v.max(1) as u8 | 1;
                hit = Some("constant");
                break;
            }
            F::St(_) => break,
            F::Offs(_) => {
                e[at] ^= c.v as u8 | 1;
                hit = Some("offset array marker");
                break;
            }
        }
    }
    let Some(what) = hit else { return Ok(()) };
    ctx.nt(true);
    ctx.tag(what);
    e.extend([0u8; 64]);
    let mut cur = Cursor::new(&e);
    match p::Row::read_options(&mut cur, Endian::Little, (c.row.kind.page_type(),)) {
        Ok(r) => Err(format!("a {:?} row with a wrong {what} (byte {at}: {:#x}) is accepted: {r:?}", c.row.kind, e[at])),
        Err(_) => Ok(()),
    }
}

// ---- row types ------------------------------------------------------------------------------

#[derive(Debug, Hash)]
struct Foreign {
    row: Row,
    ptype: Option<Kind>,
    number: u32,
    ext: bool,
    tail: u64,
}
fn gen_foreign(s: &mut Src) -> Foreign {
    let k = row::any_kind(s);
    let ptype = s.chance(6, 7).then(|| row::any_kind(s));
    Foreign { row: row::gen(s, k, true, true), ptype, number: *s.pick(&[9, 10, 14, 15, 18, 20, 0x1000, u32::MAX]), ext: s.bool(), tail: s.below(1 << 20) }
}
fn is_kind(r: &p::Row, kind: Kind) -> bool {
    use row::Kind::*;
    macro_rules! is {
        ($t:ident) => {
            r.as_variant::<p::$t>().is_some()
        };
    }
    match kind {
        Track => is!(Track),
        Genre => is!(Genre),
        Artist => is!(Artist),
        Album => is!(Album),
        Label => is!(Label),
        Key => is!(Key),
        Color => is!(Color),
        PlaylistTree => is!(PlaylistTreeNode),
        PlaylistEntry => is!(PlaylistEntry),
        HistoryPlaylist => is!(HistoryPlaylist),
        HistoryEntry => is!(HistoryEntry),
        Artwork => is!(Artwork),
        Column => is!(ColumnEntry),
        Menu => is!(Menu),
        History => is!(History),
        Tag => matches!(r, p::Row::Ext(ExtRow::Tag(_))),
        TrackTag => matches!(r, p::Row::Ext(ExtRow::TrackTag(_))),
    }
}
/// The page type alone decides the type of a row, whatever its bytes look like.
fn check_foreign(c: &Foreign, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.row.encode().bytes;
    b.extend(filler(c.tail, 200));
    let ptype = match c.ptype {
        Some(k) => k.page_type(),
        None => p::PageType::Unknown(c.number),
    };
    let r = p::Row::read_options(&mut Cursor::new(&b), Endian::Little, (ptype,));
    ctx.nt(c.ptype != Some(c.row.kind));
    match (r, c.ptype) {
        (Ok(r), Some(k)) => {
            ctx.tag("accepted");
            eq("is the row of its page's type", is_kind(&r, k), true)?;
            other_variants(&r, k)
        }
        (Err(e), _) => {
            ctx.tag("refused");
            if c.ptype == Some(c.row.kind) {
                return Err(format!("a valid row is refused: {}", short(&e)));
            }
            Ok(())
        }
        (Ok(r), None) => {
            eq("is a row of an unknown type", row::ALL.iter().any(|k| is_kind(&r, *k)), false)
        }
    }
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "fields", rule: "a non-zero value or non-empty text", quick: 720_000, thorough: 24_000_000, gen: gen_plain, check: check_plain }),
        Box::new(G { name: "texts", rule: "a non-zero value or non-empty text", quick: 720_000, thorough: 24_000_000, gen: gen_any, check: check_any }),
        Box::new(G { name: "edits", rule: "at least one field edited", quick: 720_000, thorough: 24_000_000, gen: gen_edit, check: check_edit }),
        Box::new(G { name: "types", rule: "a row of another type than the page's", quick: 200_000, thorough: 5_000_000, gen: gen_foreign, check: check_foreign }),
        Box::new(G { name: "undefined", rule: "a value outside the format", quick: 180_000, thorough: 3_000_000, gen: gen_bad, check: check_bad }),
    ];
    Property { id: "C03", level: "exploration", assumptions: &[], groups: g, known: vec![], needs_cli: false }
}
