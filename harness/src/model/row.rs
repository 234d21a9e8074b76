use super::dsql::{self, Str};
use crate::src::Src;
use rekordcrate::pdb::ext::ExtPageType;
use rekordcrate::pdb::{DatabaseType, PageType, PlainPageType};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Track,
    Genre,
    Artist,
    Album,
    Label,
    Key,
    Color,
    PlaylistTree,
    PlaylistEntry,
    HistoryPlaylist,
    HistoryEntry,
    Artwork,
    Column,
    Menu,
    History,
    Tag,
    TrackTag,
}
pub use Kind::*;

pub const ALL: &[Kind] = &[
    Track, Genre, Artist, Album, Label, Key, Color, PlaylistTree, PlaylistEntry, HistoryPlaylist, HistoryEntry, Artwork,
    Column, Menu, History, Tag, TrackTag,
];

#[derive(Clone, Copy)]
pub enum F {
    U8(&'static str),
    U16(&'static str),
    U32(&'static str),
    C16(u16),
    C32(u32),
    Clr(&'static str),
    FileType(&'static str),
    Vis(&'static str),
    St(&'static str),
    /// Subtype word that decides the offset size.
    Sub(&'static str),
    Offs(&'static [&'static str]),
}
use F::*;

pub const TRACK_STRINGS: &[&str] = &[
    "isrc", "lyricist", "unknown_string2", "unknown_string3", "unknown_string4", "message", "publish_track_information",
    "autoload_hotcues", "unknown_string5", "unknown_string6", "date_added", "release_date", "mix_name",
    "unknown_string7", "analyze_path", "analyze_date", "comment", "title", "unknown_string8", "filename", "file_path",
];

impl Kind {
    pub fn number(self) -> u32 {
        match self {
            Track => 0,
            Genre => 1,
            Artist => 2,
            Album => 3,
            Label => 4,
            Key => 5,
            Color => 6,
            PlaylistTree => 7,
            PlaylistEntry => 8,
            HistoryPlaylist => 11,
            HistoryEntry => 12,
            Artwork => 13,
            Column => 16,
            Menu => 17,
            History => 19,
            Tag => 3,
            TrackTag => 4,
        }
    }
    pub fn db(self) -> DatabaseType {
        match self {
            Tag | TrackTag => DatabaseType::Ext,
            _ => DatabaseType::Plain,
        }
    }
    pub fn page_type(self) -> PageType {
        PageType::Plain(match self {
            Track => PlainPageType::Tracks,
            Genre => PlainPageType::Genres,
            Artist => PlainPageType::Artists,
            Album => PlainPageType::Albums,
            Label => PlainPageType::Labels,
            Key => PlainPageType::Keys,
            Color => PlainPageType::Colors,
            PlaylistTree => PlainPageType::PlaylistTree,
            PlaylistEntry => PlainPageType::PlaylistEntries,
            HistoryPlaylist => PlainPageType::HistoryPlaylists,
            HistoryEntry => PlainPageType::HistoryEntries,
            Artwork => PlainPageType::Artwork,
            Column => PlainPageType::Columns,
            Menu => PlainPageType::Menu,
            History => PlainPageType::History,
            Tag => return PageType::Ext(ExtPageType::Tag),
            TrackTag => return PageType::Ext(ExtPageType::TrackTag),
        })
    }
    pub fn schema(self) -> &'static [F] {
        match self {
            Track => &[
                Sub("subtype"), U16("index_shift"), U32("bitmask"), U32("sample_rate"), U32("composer_id"), U32("file_size"),
                U32("unknown2"), U16("unknown3"), U16("unknown4"), U32("artwork_id"), U32("key_id"), U32("orig_artist_id"),
                U32("label_id"), U32("remixer_id"), U32("bitrate"), U32("track_number"), U32("tempo"), U32("genre_id"),
                U32("album_id"), U32("artist_id"), U32("id"), U16("disc_number"), U16("play_count"), U16("year"),
                U16("sample_depth"), U16("duration"), U16("unknown5"), Clr("color"), U8("rating"), FileType("file_type"),
                Offs(TRACK_STRINGS),
            ],
            Genre | Label | HistoryPlaylist => &[U32("id"), St("name")],
            Artist => &[Sub("subtype"), U16("index_shift"), U32("id"), Offs(&["name"])],
            Album => &[
                Sub("subtype"), U16("index_shift"), U32("unknown2"), U32("artist_id"), U32("id"), U32("unknown3"), Offs(&["name"]),
            ],
            Key => &[U32("id"), U32("id2"), St("name")],
            Color => &[U32("unknown1"), U8("unknown2"), Clr("color"), U16("unknown3"), St("name")],
            PlaylistTree => &[
                U32("parent_id"), U32("unknown"), U32("sort_order"), U32("id"), U32("node_is_folder"), St("name"),
            ],
            PlaylistEntry => &[U32("entry_index"), U32("track_id"), U32("playlist_id")],
            HistoryEntry => &[U32("track_id"), U32("playlist_id"), U32("entry_index")],
            Artwork => &[U32("id"), St("path")],
            Column => &[U16("id"), U16("unknown0"), St("column_name")],
            Menu => &[U16("category_id"), U16("content_pointer"), U8("unknown"), Vis("visibility"), U16("sort_order")],
            History => &[
                Sub("subtype"), U16("index_shift"), U32("num_tracks"), C32(0), St("date"), C16(0x1E19), St("version"), St("label"),
            ],
            Tag => &[
                Sub("subtype"), U16("index_shift"), U32("unknown1"), U32("unknown2"), U32("parent_id"), U32("position"), U32("id"),
                U32("raw_is_category"), Offs(&["name", "unknown"]),
            ],
            TrackTag => &[C32(0), U32("track_id"), U32("tag_id"), U32("unknown_const")],
        }
    }
}

pub const COLORS: &[&str] = &["None", "Pink", "Red", "Orange", "Yellow", "Green", "Aqua", "Blue", "Purple"];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Row {
    pub kind: Kind,
    /// Scalars in schema order (constants excluded).
    pub vals: Vec<u64>,
    pub strs: Vec<Str>,
    /// Heap order of the offset-array strings and the gap before each (in heap order).
    pub order: Vec<usize>,
    pub gaps: Vec<usize>,
    /// Strings equal to an earlier one (heap order) are stored once.
    pub share: bool,
    /// Unused bytes at the end of the row.
    pub tail: usize,
}

#[derive(Clone, Debug)]
pub struct Encoded {
    pub bytes: Vec<u8>,
    /// Offsets of the offset-array strings, in slot order.
    pub offsets: Vec<usize>,
    /// Byte ranges that belong to no field.
    pub padding: Vec<(usize, usize)>,
}

impl Row {
    pub fn val(&self, name: &str) -> Option<u64> {
        let mut i = 0;
        for f in self.kind.schema() {
            match f {
                U8(n) | U16(n) | U32(n) | Clr(n) | FileType(n) | Vis(n) | Sub(n) => {
                    if *n == name {
                        return Some(self.vals[i]);
                    }
                    i += 1;
                }
                _ => {}
            }
        }
        None
    }
    pub fn set_val(&mut self, name: &str, v: u64) {
        let mut i = 0;
        for f in self.kind.schema() {
            match f {
                U8(n) | U16(n) | U32(n) | Clr(n) | FileType(n) | Vis(n) | Sub(n) => {
                    if *n == name {
                        self.vals[i] = v;
                        return;
                    }
                    i += 1;
                }
                _ => {}
            }
        }
        panic!("no field {name}");
    }
    pub fn str_index(&self, name: &str) -> Option<usize> {
        let mut i = 0;
        for f in self.kind.schema() {
            match f {
                St(n) => {
                    if *n == name {
                        return Some(i);
                    }
                    i += 1;
                }
                Offs(ns) => {
                    if let Some(k) = ns.iter().position(|n| *n == name) {
                        return Some(i + k);
                    }
                    i += ns.len();
                }
                _ => {}
            }
        }
        None
    }
    pub fn str(&self, name: &str) -> Option<&Str> {
        self.strs.get(self.str_index(name)?)
    }
    pub fn wide_offsets(&self) -> bool {
        self.val("subtype").is_some_and(|v| v & 4 != 0)
    }
    pub fn encode(&self) -> Encoded {
        let mut b = vec![];
        let (mut vi, mut si) = (0, 0);
        let mut offsets = vec![];
        let mut padding = vec![];
        for f in self.kind.schema() {
            match f {
                U8(_) | Clr(_) | Vis(_) => {
                    b.push(self.vals[vi] as u8);
                    vi += 1;
                }
                U16(_) | FileType(_) | Sub(_) => {
                    b.extend_from_slice(&(self.vals[vi] as u16).to_le_bytes());
                    vi += 1;
                }
                U32(_) => {
                    b.extend_from_slice(&(self.vals[vi] as u32).to_le_bytes());
                    vi += 1;
                }
                C16(v) => b.extend_from_slice(&v.to_le_bytes()),
                C32(v) => b.extend_from_slice(&v.to_le_bytes()),
                St(_) => {
                    b.extend(self.strs[si].encode());
                    si += 1;
                }
                Offs(ns) => {
                    let wide = self.wide_offsets();
                    let osz = if wide { 2 } else { 1 };
                    let head = b.len();
                    b.resize(head + (ns.len() + 1) * osz, 0);
                    offsets = vec![0; ns.len()];
                    let mut placed: Vec<(Vec<u8>, usize)> = vec![];
                    for (k, &slot) in self.order.iter().enumerate() {
                        let enc = self.strs[si + slot].encode();
                        if self.share {
                            if let Some((_, o)) = placed.iter().find(|(e, _)| *e == enc) {
                                offsets[slot] = *o;
                                continue;
                            }
                        }
                        let gap = self.gaps[k];
                        if gap > 0 {
                            padding.push((b.len(), b.len() + gap));
                            b.resize(b.len() + gap, 0);
                        }
                        offsets[slot] = b.len();
                        placed.push((enc.clone(), b.len()));
                        b.extend(enc);
                    }
                    let mut h = vec![];
                    if wide {
                        h.extend_from_slice(&3u16.to_le_bytes());
                        for o in &offsets {
                            h.extend_from_slice(&(*o as u16).to_le_bytes());
                        }
                    } else {
                        h.push(3);
                        for o in &offsets {
                            h.push(*o as u8);
                        }
                    }
                    b[head..head + h.len()].copy_from_slice(&h);
                    si += ns.len();
                }
            }
        }
        if self.tail > 0 {
            padding.push((b.len(), b.len() + self.tail));
            b.resize(b.len() + self.tail, 0);
        }
        Encoded { bytes: b, offsets, padding }
    }
    /// Expected `(path, token)` pairs inside the row struct's Debug output.
    pub fn expected(&self) -> Vec<(String, String)> {
        let mut out = vec![];
        let (mut vi, mut si) = (0, 0);
        for f in self.kind.schema() {
            match f {
                U8(n) | U16(n) | U32(n) | Sub(n) => {
                    if !(self.kind == Tag && *n == "parent_id") {
                        out.push(((*n).to_string(), self.vals[vi].to_string()));
                    }
                    vi += 1;
                }
                Clr(n) => {
                    out.push(((*n).to_string(), COLORS[self.vals[vi] as usize].to_string()));
                    vi += 1;
                }
                FileType(n) => {
                    let t = match self.vals[vi] {
                        0 => "Unknown".to_string(),
                        1 => "Mp3".into(),
                        4 => "M4a".into(),
                        5 => "Flac".into(),
                        0xb => "Wav".into(),
                        0xc => "Aiff".into(),
                        v => v.to_string(),
                    };
                    out.push(((*n).to_string(), t));
                    vi += 1;
                }
                Vis(n) => {
                    let t = match self.vals[vi] {
                        0 => "Visible".to_string(),
                        1 => "Hidden".into(),
                        v => v.to_string(),
                    };
                    out.push(((*n).to_string(), t));
                    vi += 1;
                }
                St(n) => {
                    out.push(((*n).to_string(), self.strs[si].text().to_string()));
                    si += 1;
                }
                Offs(ns) => {
                    for n in *ns {
                        out.push((format!("offsets.inner.{n}"), self.strs[si].text().to_string()));
                        si += 1;
                    }
                }
                _ => {}
            }
        }
        out
    }
    /// Make the offsets fit: switch to 16-bit offsets when one is above 255.
    pub fn fix_offsets(&mut self) {
        if self.val("subtype").is_some() && !self.wide_offsets() && self.encode().offsets.iter().any(|o| *o > 255) {
            let v = self.val("subtype").unwrap() | 4;
            self.set_val("subtype", v);
        }
    }
}

pub fn gen(s: &mut Src, kind: Kind, plain: bool, compact: bool) -> Row {
    let mut vals = vec![];
    let mut strs = vec![];
    let mut order = vec![];
    let mut gaps = vec![];
    let mut share = false;
    let string = |s: &mut Src| if plain { dsql::plain(s, 6) } else { dsql::any(s, 40) };
    for f in kind.schema() {
        match f {
            U8(_) => vals.push(u64::from(s.u8())),
            U16(_) => vals.push(u64::from(s.u16())),
            U32(_) => vals.push(u64::from(s.u32())),
            Clr(_) => vals.push(s.below(9)),
            Vis(_) => vals.push(s.weighted(&[3, 3, 0, 1]) as u64 * (1 + s.below(60))),
            FileType(_) => {
                let v = *s.pick(&[0u64, 1, 4, 5, 0xb, 0xc, 0x103, 2, 0xffff]);
                vals.push(v)
            }
            Sub(_) => {
                let v = if s.chance(1, 4) { u64::from(s.u16()) } else { *s.pick(&[0x80u64, 0x84, 0x60, 0x64, 0x24, 0x680, 0x684]) };
                vals.push(v)
            }
            St(_) => strs.push(string(s)),
            Offs(ns) => {
                for _ in 0..ns.len() {
                    // Mostly empty, so that 8-bit offsets are reachable for tracks too.
                    if ns.len() > 2 && s.chance(2, 3) {
                        strs.push(if plain { Str::Auto("q".into()) } else { Str::Auto(String::new()) });
                    } else {
                        strs.push(string(s));
                    }
                }
                order = (0..ns.len()).collect();
                if !compact {
                    if s.chance(1, 3) {
                        for i in (1..order.len()).rev() {
                            let j = s.usize(0, i);
                            order.swap(i, i - j);
                        }
                    }
                    let g = s.chance(1, 3);
                    gaps = (0..ns.len()).map(|_| if g { s.usize(0, 3) } else { 0 }).collect();
                    share = s.chance(1, 6);
                } else {
                    gaps = vec![0; ns.len()];
                }
            }
            C16(_) | C32(_) => {}
        }
    }
    let tail = if compact { 0 } else { *s.pick(&[0usize, 0, 0, 6, 48]) };
    let mut r = Row { kind, vals, strs, order, gaps, share, tail };
    r.fix_offsets();
    r
}

pub fn any_kind(s: &mut Src) -> Kind {
    *s.pick(ALL)
}

impl Kind {
    pub fn from_number(n: u32, ext: bool) -> Option<Kind> {
        ALL.iter().copied().find(|k| k.number() == n && (k.db() == DatabaseType::Ext) == ext)
    }
}
