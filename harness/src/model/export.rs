//! export.pdb with a playlist tree, playlist entries, tracks and artists.
use super::dsql::{self, Str};
use super::page::{self, Db, PageM};
use super::row::{self, Kind, Row};
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Debug, Clone, Hash)]
pub struct NodeRow {
    pub present: bool,
    pub id: u32,
    pub parent: u32,
    pub folder: u32,
    pub sort: u32,
    pub name: Str,
}
#[derive(Debug, Clone, Hash)]
pub struct EntryRow {
    pub present: bool,
    pub index: u32,
    pub track: u32,
    pub list: u32,
}
#[derive(Debug, Clone, Hash)]
pub struct TrackRow {
    pub present: bool,
    pub id: u32,
    pub artist: u32,
    pub title: Str,
    pub path: Str,
}
#[derive(Debug, Clone, Hash)]
pub struct ArtistRow {
    pub present: bool,
    pub id: u32,
    pub name: Str,
}
#[derive(Debug, Clone, Hash, Default)]
pub struct Export {
    pub nodes: Vec<NodeRow>,
    pub entries: Vec<EntryRow>,
    pub tracks: Vec<TrackRow>,
    pub artists: Vec<ArtistRow>,
    pub db: Option<Db>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Tree {
    pub id: u32,
    pub name: String,
    /// None for a playlist.
    pub kids: Option<Vec<Tree>>,
}

fn ids(s: &mut Src, n: usize) -> Vec<u32> {
    let mut used = BTreeSet::new();
    (0..n)
        .map(|k| {
            let mut v = if s.chance(1, 5) { s.u32() } else { 1 + k as u32 };
            while v == 0 || !used.insert(v) {
                v = v.wrapping_add(1);
            }
            v
        })
        .collect()
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    if s.bool() {
        for i in (1..v.len()).rev() {
            v.swap(i, i - s.below(i as u64 + 1) as usize);
        }
    }
}

pub struct Names {
    pub node: fn(&mut Src) -> Str,
    pub path: fn(&mut Src) -> Str,
}

fn base(s: &mut Src, kind: Kind) -> Row {
    let mut r = row::gen(s, kind, true, true);
    r.gaps.iter_mut().for_each(|g| *g = 0);
    r
}

pub fn title(s: &mut Src) -> Str {
    line(s, 12)
}

/// Text without control characters.
pub fn line(s: &mut Src, max: usize) -> Str {
    loop {
        let t: String = dsql::text(s, max).chars().map(|c| if c.is_control() { '_' } else { c }).collect();
        let x = Str::Auto(t);
        if !x.ambiguous() {
            return x;
        }
    }
}

/// Well-formed: unique ids, rows of every kind in any storage order; orphans and unreachable cycles
/// may occur, cycles reachable from the root do not.
pub fn gen(s: &mut Src, names: &Names, max_nodes: usize) -> Export {
    let mut x = Export::default();
    let n = s.usize(0, max_nodes);
    let id = ids(s, n);
    let deep = s.chance(1, 6);
    for k in 0..n {
        let folders: Vec<u32> = (0..k).filter(|&j| x.nodes[j].folder != 0).map(|j| id[j]).collect();
        let parent = match s.weighted(&[4, 4, 1]) {
            _ if deep && !folders.is_empty() => folders[folders.len() - 1],
            1 if !folders.is_empty() => *s.pick(&folders),
            2 => match s.below(3) {
                // Itself, a missing row or a later row: not reachable from the root.
                0 => id[k],
                1 => 0x7fff_0000 + s.below(9) as u32,
                _ => id[k..][s.below((n - k) as u64) as usize],
            },
            _ => 0,
        };
        let folder = if deep || s.chance(2, 5) { *s.pick(&[1u32, 1, 1, 2, 0x8000_0000]) } else { 0 };
        x.nodes.push(NodeRow { present: !s.chance(1, 12), id: id[k], parent, folder, sort: s.u32(), name: (names.node)(s) });
    }
    // Rows below a playlist have no defined place: those become orphans.
    let lists: BTreeSet<u32> = x.nodes.iter().filter(|n| n.folder == 0).map(|n| n.id).collect();
    for n in &mut x.nodes {
        if lists.contains(&n.parent) {
            n.parent = 0x7fff_ffff;
        }
    }
    shuffle(s, &mut x.nodes);
    let nt = s.usize(0, 8);
    let na = s.usize(0, 4);
    // Only playlists cannot have the id 0.
    let zero = |s: &mut Src, mut ids: Vec<u32>| {
        if !ids.is_empty() && s.chance(1, 10) {
            ids[0] = 0;
        }
        ids
    };
    let (ia, it) = (ids(s, na), ids(s, nt));
    for a in zero(s, ia) {
        x.artists.push(ArtistRow { present: !s.chance(1, 12), id: a, name: title(s) });
    }
    for t in zero(s, it) {
        let artist = if x.artists.is_empty() || s.chance(1, 8) { *s.pick(&[0x7f00u32, 0x7f00, 0xffff_ffff]) } else { s.pick(&x.artists).id };
        x.tracks.push(TrackRow { present: !s.chance(1, 12), id: t, artist, title: title(s), path: (names.path)(s) });
    }
    let all: Vec<u32> = x.nodes.iter().filter(|n| n.folder == 0).map(|n| n.id).collect();
    for l in all {
        let k = s.list(0, 20, 4, |s| s.chance(1, 6)).len();
        let mut at = match s.weighted(&[8, 1, 1]) {
            0 => 0,
            1 => u32::MAX,
            _ => s.u32() / 2,
        };
        for _ in 0..k {
            // From 0 at times.
            at = at.wrapping_add(1 + if s.chance(1, 5) { s.below(300) as u32 } else { 0 });
            let track = if x.tracks.is_empty() || s.chance(1, 8) { *s.pick(&[0x7f01u32, 0x7f01, 0xffff_fffe]) } else { s.pick(&x.tracks).id };
            x.entries.push(EntryRow { present: !s.chance(1, 12), index: at, track, list: l });
        }
    }
    shuffle(s, &mut x.entries);
    shuffle(s, &mut x.tracks);
    x.build(s);
    x
}

impl Export {
    /// Lay the rows out in pages of a database.
    pub fn build(&mut self, s: &mut Src) {
        let ps = *s.pick(&[4096u32, 4096, 1024, 8192]);
        let mut tables: Vec<(Kind, Vec<(bool, Row)>)> = vec![
            (
                Kind::PlaylistTree,
                self.nodes
                    .iter()
                    .map(|n| {
                        let mut r = base(s, Kind::PlaylistTree);
                        r.set_val("parent_id", n.parent.into());
                        r.set_val("id", n.id.into());
                        r.set_val("sort_order", n.sort.into());
                        r.set_val("node_is_folder", n.folder.into());
                        r.strs[0] = n.name.clone();
                        (n.present, r)
                    })
                    .collect(),
            ),
            (
                Kind::PlaylistEntry,
                self.entries
                    .iter()
                    .map(|n| {
                        let mut r = base(s, Kind::PlaylistEntry);
                        r.set_val("entry_index", n.index.into());
                        r.set_val("track_id", n.track.into());
                        r.set_val("playlist_id", n.list.into());
                        (n.present, r)
                    })
                    .collect(),
            ),
            (
                Kind::Track,
                self.tracks
                    .iter()
                    .map(|n| {
                        let mut r = base(s, Kind::Track);
                        r.set_val("id", n.id.into());
                        r.set_val("artist_id", n.artist.into());
                        let i = r.str_index("title").expect("title");
                        r.strs[i] = n.title.clone();
                        let i = r.str_index("file_path").expect("file_path");
                        r.strs[i] = n.path.clone();
                        (n.present, r)
                    })
                    .collect(),
            ),
            (
                Kind::Artist,
                self.artists
                    .iter()
                    .map(|n| {
                        let mut r = base(s, Kind::Artist);
                        r.set_val("id", n.id.into());
                        r.strs[0] = n.name.clone();
                        (n.present, r)
                    })
                    .collect(),
            ),
        ];
        if s.bool() {
            let r = row::gen(s, Kind::Genre, true, true);
            tables.push((Kind::Genre, vec![(true, r)]));
        }
        shuffle(s, &mut tables);
        let mut chains = vec![];
        for (kind, rows) in tables {
            let mut pages = vec![];
            if !s.chance(1, 4) {
                pages.push(PageM::Index(page::gen_index(s, ps, kind.number())));
            }
            let mut rest = rows;
            rest.iter_mut().for_each(|r| r.1.fix_offsets());
            while !rest.is_empty() {
                let want = if s.bool() { rest.len() } else { s.usize(1, rest.len()) };
                let mut n = want;
                let d = loop {
                    let d = page::layout(s, ps, kind.number(), rest[..n].to_vec(), true);
                    if d.slots.len() == n {
                        break Some(d);
                    }
                    if n == 1 {
                        break None;
                    }
                    n = n.div_ceil(2);
                };
                if let Some(d) = d {
                    pages.push(PageM::Data(d));
                }
                rest.drain(..n);
                if s.chance(1, 8) {
                    pages.push(PageM::Data(page::layout(s, ps, kind.number(), vec![], true)));
                }
            }
            if pages.is_empty() {
                pages.push(PageM::Index(page::gen_index(s, ps, kind.number())));
            }
            chains.push((kind.number(), 0, pages));
        }
        let mut db = Db { page_size: ps, unknown: 0, sequence: 1, chains, next_unused: 0, garbage: 0 };
        let i = s.bool();
        db.assign(s, i);
        self.db = Some(db);
        // Rows too large for a page were dropped.
        let kept = |kind: Kind, key: &str, db: &Db| -> BTreeSet<u64> {
            db.chains
                .iter()
                .filter(|c| c.0 == kind.number())
                .flat_map(|c| &c.2)
                .filter_map(|p| if let PageM::Data(d) = p { Some(d) } else { None })
                .flat_map(|d| &d.slots)
                .filter_map(|x| x.row.val(key))
                .collect()
        };
        if let Some(db) = &self.db {
            let k = kept(Kind::Track, "id", db);
            self.tracks.retain(|t| k.contains(&t.id.into()));
            let k = kept(Kind::PlaylistTree, "id", db);
            self.nodes.retain(|t| k.contains(&t.id.into()));
            let k = kept(Kind::Artist, "id", db);
            self.artists.retain(|t| k.contains(&t.id.into()));
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.db.as_ref().map(Db::encode).unwrap_or_default()
    }
    pub fn tree(&self) -> Vec<Tree> {
        fn kids(x: &Export, id: u32) -> Vec<Tree> {
            x.nodes
                .iter()
                .filter(|n| n.present && n.parent == id)
                .map(|n| Tree { id: n.id, name: n.name.text().to_string(), kids: (n.folder != 0).then(|| kids(x, n.id)) })
                .collect()
        }
        kids(self, 0)
    }
    /// Track rows of a playlist in entry order; None for an entry whose track is missing.
    pub fn tracks_of(&self, list: u32) -> Vec<(u32, Option<&TrackRow>)> {
        let t: HashMap<u32, &TrackRow> = self.tracks.iter().filter(|t| t.present).map(|t| (t.id, t)).collect();
        let m: BTreeMap<u32, u32> = self.entries.iter().filter(|e| e.present && e.list == list).map(|e| (e.index, e.track)).collect();
        m.into_iter().map(|(i, id)| (i, t.get(&id).copied())).collect()
    }
    pub fn artist(&self, id: u32) -> Option<&ArtistRow> {
        self.artists.iter().find(|a| a.present && a.id == id)
    }
}
