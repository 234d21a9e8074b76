use super::row::{self, Kind, Row};
use crate::src::{filler, Src};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Slot {
    pub present: bool,
    /// Heap offset.
    pub offset: u16,
    pub row: Row,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct DataPage {
    pub page_size: u32,
    pub page_index: u32,
    pub ptype: u32,
    pub next_page: u32,
    pub unknown1: u32,
    pub unknown2: u32,
    pub flags: u8,
    pub free: u16,
    pub used: u16,
    pub hdr: [u16; 4],
    pub slots: Vec<Slot>,
    pub group_unknown: Vec<u16>,
    /// Seed for the bytes that belong to nothing.
    pub garbage: u64,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct IndexPage {
    pub page_size: u32,
    pub page_index: u32,
    pub ptype: u32,
    pub next_page: u32,
    pub unknown1: u32,
    pub unknown2: u32,
    pub flags: u8,
    pub free: u16,
    pub used: u16,
    pub counts: (u16, u16),
    pub a: u16,
    pub b: u16,
    pub next_offset: u16,
    pub idx_page: u32,
    pub idx_next: u32,
    pub entries: Vec<u32>,
    pub first_empty: u16,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PageM {
    Data(DataPage),
    Index(IndexPage),
}

pub fn header(out: &mut [u8], idx: u32, ptype: u32, next: u32, u1: u32, u2: u32, counts: (u16, u16), flags: u8, free: u16, used: u16) {
    out[4..8].copy_from_slice(&idx.to_le_bytes());
    out[0..4].fill(0);
    out[8..12].copy_from_slice(&ptype.to_le_bytes());
    out[12..16].copy_from_slice(&next.to_le_bytes());
    out[16..20].copy_from_slice(&u1.to_le_bytes());
    out[20..24].copy_from_slice(&u2.to_le_bytes());
    let packed = u32::from(counts.0 & 0x1fff) | (u32::from(counts.1 & 0x7ff) << 13);
    out[24..27].copy_from_slice(&packed.to_le_bytes()[..3]);
    out[27] = flags;
    out[28..30].copy_from_slice(&free.to_le_bytes());
    out[30..32].copy_from_slice(&used.to_le_bytes());
}

impl DataPage {
    pub fn groups(&self) -> usize {
        self.slots.len().div_ceil(16)
    }
    pub fn valid(&self) -> usize {
        self.slots.iter().filter(|s| s.present).count()
    }
    /// With garbage: absent rows and unused bytes are there, too; otherwise only what is reachable.
    pub fn encode(&self, with_garbage: bool) -> Vec<u8> {
        let ps = self.page_size as usize;
        if !with_garbage {
            let mut p = vec![0; ps];
            self.overlay(&mut p);
            return p;
        }
        let mut p = filler(self.garbage, ps);
        for s in &self.slots {
            let e = s.row.encode();
            let o = 40 + s.offset as usize;
            if s.present {
                p[o..o + e.bytes.len()].fill(0);
            } else {
                p[o..o + e.bytes.len()].copy_from_slice(&e.bytes);
            }
        }
        for g in 0..self.groups() {
            let base = ps - 36 * (g + 1);
            for k in 0..16 {
                if let Some(s) = self.slots.get(16 * g + k) {
                    let o = base + 2 * (15 - k);
                    p[o..o + 2].copy_from_slice(&s.offset.to_le_bytes());
                }
            }
        }
        self.overlay(&mut p);
        p
    }
    /// Put the page's values over `p`, leaving every byte that belongs to none of them.
    pub fn overlay(&self, p: &mut [u8]) {
        let ps = self.page_size as usize;
        header(
            p, self.page_index, self.ptype, self.next_page, self.unknown1, self.unknown2,
            (self.slots.len() as u16, self.valid() as u16), self.flags, self.free, self.used,
        );
        for (i, h) in self.hdr.iter().enumerate() {
            p[32 + 2 * i..34 + 2 * i].copy_from_slice(&h.to_le_bytes());
        }
        for s in self.slots.iter().filter(|s| s.present) {
            let e = s.row.encode();
            let o = 40 + s.offset as usize;
            let mut at = 0;
            for (x, y) in e.padding.iter().copied().chain([(e.bytes.len(), e.bytes.len())]) {
                p[o + at..o + x].copy_from_slice(&e.bytes[at..x]);
                at = y;
            }
        }
        for g in 0..self.groups() {
            let base = ps - 36 * (g + 1);
            let mut flags = 0u16;
            let top = (0..16).rev().find(|k| self.slots.get(16 * g + k).is_some_and(|s| s.present));
            for k in 0..16 {
                if let Some(s) = self.slots.get(16 * g + k) {
                    if s.present {
                        flags |= 1 << k;
                    }
                    if top.is_some_and(|t| k <= t) {
                        let o = base + 2 * (15 - k);
                        p[o..o + 2].copy_from_slice(&s.offset.to_le_bytes());
                    }
                }
            }
            p[base + 32..base + 34].copy_from_slice(&flags.to_le_bytes());
            p[base + 34..base + 36].copy_from_slice(&self.group_unknown.get(g).copied().unwrap_or(0).to_le_bytes());
        }
    }
}

impl IndexPage {
    pub fn capacity(page_size: u32) -> usize {
        ((page_size - 32 - 28 - 20) / 4) as usize
    }
    pub fn encode(&self) -> Vec<u8> {
        let ps = self.page_size as usize;
        let mut p = vec![0; ps];
        header(&mut p, self.page_index, self.ptype, self.next_page, self.unknown1, self.unknown2, self.counts, self.flags, self.free, self.used);
        p[32..34].copy_from_slice(&self.a.to_le_bytes());
        p[34..36].copy_from_slice(&self.b.to_le_bytes());
        p[36..38].copy_from_slice(&0x03ecu16.to_le_bytes());
        p[38..40].copy_from_slice(&self.next_offset.to_le_bytes());
        p[40..44].copy_from_slice(&self.idx_page.to_le_bytes());
        p[44..48].copy_from_slice(&self.idx_next.to_le_bytes());
        p[48..56].copy_from_slice(&0x03ff_ffffu64.to_le_bytes());
        p[56..58].copy_from_slice(&(self.entries.len() as u16).to_le_bytes());
        p[58..60].copy_from_slice(&self.first_empty.to_le_bytes());
        for k in 0..Self::capacity(self.page_size) {
            let e = self.entries.get(k).copied().unwrap_or(0x1FFF_FFF8);
            p[60 + 4 * k..64 + 4 * k].copy_from_slice(&e.to_le_bytes());
        }
        p
    }
}

impl PageM {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            PageM::Data(d) => d.encode(true),
            PageM::Index(i) => i.encode(),
        }
    }
    pub fn overlay(&self, p: &mut [u8]) {
        match self {
            PageM::Data(d) => d.overlay(p),
            PageM::Index(i) => p.copy_from_slice(&i.encode()),
        }
    }
    pub fn index(&self) -> u32 {
        match self {
            PageM::Data(d) => d.page_index,
            PageM::Index(d) => d.page_index,
        }
    }
    pub fn set(&mut self, index: u32, next: u32) {
        match self {
            PageM::Data(d) => {
                d.page_index = index;
                d.next_page = next;
            }
            PageM::Index(d) => {
                d.page_index = index;
                d.next_page = next;
                d.idx_page = index;
                d.idx_next = next;
            }
        }
    }
}

/// Assemble a page from rows; rows that do not fit are dropped.
pub fn layout(s: &mut Src, page_size: u32, kind_no: u32, rows: Vec<(bool, Row)>, compact: bool) -> DataPage {
    let heap = page_size as usize - 40;
    let mut used = 0usize;
    let mut slots: Vec<Slot> = vec![];
    let shuffle = !compact && s.chance(1, 4);
    for (present, row) in rows {
        let len = row.encode().bytes.len();
        let need = len.next_multiple_of(4);
        let groups = (slots.len() + 1).div_ceil(16);
        let footer = groups * 4 + (slots.len() + 1) * 2;
        if used + need + footer > heap || used > 65535 {
            continue;
        }
        slots.push(Slot { present, offset: used as u16, row });
        used += need;
    }
    if shuffle && slots.len() > 1 {
        // Row order in the offset table need not be heap order.
        for i in (1..slots.len()).rev() {
            let j = s.usize(0, i);
            slots.swap(i, i - j);
        }
    }
    let groups = slots.len().div_ceil(16);
    let footer = groups * 4 + slots.len() * 2;
    let deleted = slots.iter().any(|x| !x.present);
    let mut group_unknown = vec![];
    for _ in 0..groups {
        group_unknown.push(if s.chance(1, 3) { s.u16() } else { 0 });
    }
    DataPage {
        page_size,
        page_index: 1,
        ptype: kind_no,
        next_page: 2,
        unknown1: 1 + s.below(2500) as u32,
        unknown2: 0,
        flags: if deleted { 0x34 } else { 0x24 },
        free: (heap - used - footer).min(65535) as u16,
        used: used as u16,
        hdr: [1, 0, 0, 0],
        slots,
        group_unknown,
        garbage: if s.chance(1, 2) { 1 + s.below(1 << 20) } else { 0 },
    }
}

pub fn gen_data(s: &mut Src, page_size: u32, kind: Kind, plain: bool, max_rows: usize) -> DataPage {
    let want = match s.weighted(&[5, 3, 2]) {
        0 => s.usize(0, 5.min(max_rows)),
        1 => *s.pick(&[15usize, 16, 17, 31, 32, 33, 48]).min(&max_rows),
        _ => s.usize(0, max_rows),
    };
    let del = s.chance(1, 2);
    let mut rows = vec![];
    for _ in 0..want {
        let present = !(del && s.chance(1, 3));
        let compact = want > 40;
        rows.push((present, row::gen(s, kind, plain, compact)));
    }
    layout(s, page_size, kind.number(), rows, false)
}

pub fn gen_index(s: &mut Src, page_size: u32, kind_no: u32) -> IndexPage {
    let cap = IndexPage::capacity(page_size).min(if page_size > 1 << 17 { 3000 } else { 65535 });
    let n = match s.weighted(&[5, 2, 1]) {
        0 => s.usize(0, 8.min(cap)),
        1 => s.usize(0, cap),
        _ => cap,
    };
    let entries = if n > 40 {
        s.fill(n * 4).chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) & 0x1FFF_FFF7).collect()
    } else {
        (0..n)
            .map(|_| if s.chance(1, 5) { 0x1FFF_FFF8 } else { ((s.below(0x3FF_FFFF) as u32) << 3) | s.below(8) as u32 })
            .collect()
    };
    let full = s.chance(1, 2);
    IndexPage {
        page_size,
        page_index: 1,
        ptype: kind_no,
        next_page: 2,
        unknown1: 1 + s.below(2500) as u32,
        unknown2: 0,
        flags: 0x64,
        free: 0,
        used: 0,
        counts: (0, 0),
        a: if full { 0x1fff } else { 1 },
        b: if full { 0x1fff } else { 0 },
        next_offset: s.u16(),
        idx_page: 1,
        idx_next: 2,
        first_empty: if full { 0x1fff } else { n as u16 },
        entries,
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Table {
    pub ptype: u32,
    pub empty_candidate: u32,
    pub first: u32,
    pub last: u32,
}

pub fn db_header(page_size: u32, next_unused: u32, unknown: u32, sequence: u32, tables: &[Table]) -> Vec<u8> {
    let mut h = vec![0; 4];
    h.extend_from_slice(&page_size.to_le_bytes());
    h.extend_from_slice(&(tables.len() as u32).to_le_bytes());
    h.extend_from_slice(&next_unused.to_le_bytes());
    h.extend_from_slice(&unknown.to_le_bytes());
    h.extend_from_slice(&sequence.to_le_bytes());
    h.extend_from_slice(&[0; 4]);
    for t in tables {
        for v in [t.ptype, t.empty_candidate, t.first, t.last] {
            h.extend_from_slice(&v.to_le_bytes());
        }
    }
    h
}

/// A whole database: `chains[t]` are the pages of table `t` in chain order.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Db {
    pub page_size: u32,
    pub unknown: u32,
    pub sequence: u32,
    pub chains: Vec<(u32, u32, Vec<PageM>)>,
    /// Index of the first page not in the file.
    pub next_unused: u32,
    /// Seed for pages no chain uses.
    pub garbage: u64,
}

impl Db {
    /// Give every page an index; `gap(i)` pages stay unused after the i-th page.
    pub fn assign(&mut self, s: &mut Src, interleave: bool) {
        let mut todo: Vec<(usize, usize)> = vec![];
        let mut heads: Vec<usize> = vec![0; self.chains.len()];
        let total: usize = self.chains.iter().map(|c| c.2.len()).sum();
        while todo.len() < total {
            let open: Vec<usize> = (0..self.chains.len()).filter(|&c| heads[c] < self.chains[c].2.len()).collect();
            let c = if interleave { open[s.below(open.len() as u64) as usize] } else { open[0] };
            todo.push((c, heads[c]));
            heads[c] += 1;
        }
        let mut idx: Vec<Vec<u32>> = self.chains.iter().map(|c| vec![0; c.2.len()]).collect();
        let mut next = 1u32;
        for (c, k) in todo {
            if interleave && s.chance(1, 8) {
                next += 1;
            }
            idx[c][k] = next;
            next += 1;
        }
        if interleave && s.chance(1, 6) {
            next += 1;
        }
        self.next_unused = next;
        for (c, ch) in self.chains.iter_mut().enumerate() {
            let n = ch.2.len();
            for k in 0..n {
                let nx = if k + 1 < n { idx[c][k + 1] } else { next + s.below(3) as u32 };
                ch.2[k].set(idx[c][k], nx);
            }
            if ch.1 == 0 {
                ch.1 = next;
            }
        }
    }
    pub fn tables(&self) -> Vec<Table> {
        self.chains
            .iter()
            .map(|(t, e, p)| Table {
                ptype: *t,
                empty_candidate: *e,
                first: p.first().map_or(0, PageM::index),
                last: p.last().map_or(0, PageM::index),
            })
            .collect()
    }
    pub fn encode(&self) -> Vec<u8> {
        let ps = self.page_size as usize;
        let mut out = filler(self.garbage, ps * self.next_unused as usize);
        out[..ps].fill(0);
        let h = db_header(self.page_size, self.next_unused, self.unknown, self.sequence, &self.tables());
        out[..h.len()].copy_from_slice(&h);
        for (_, _, pages) in &self.chains {
            for p in pages {
                let o = p.index() as usize * ps;
                out[o..o + ps].copy_from_slice(&p.encode());
            }
        }
        out
    }
}

/// What kind of database to generate.
#[derive(Clone, Copy)]
pub struct Shape {
    pub sizes: &'static [u32],
    pub max_tables: usize,
    pub max_pages: usize,
    pub max_rows: usize,
    pub unknown_tables: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct AnyDb {
    pub ext: bool,
    pub db: Db,
}

impl AnyDb {
    pub fn db_type(&self) -> rekordcrate::pdb::DatabaseType {
        if self.ext {
            rekordcrate::pdb::DatabaseType::Ext
        } else {
            rekordcrate::pdb::DatabaseType::Plain
        }
    }
    pub fn kind(&self, table: usize) -> Option<Kind> {
        Kind::from_number(self.db.chains[table].0, self.ext)
    }
    pub fn page_type(&self, table: usize) -> rekordcrate::pdb::PageType {
        self.kind(table).map_or(rekordcrate::pdb::PageType::Unknown(self.db.chains[table].0), Kind::page_type)
    }
}

pub fn gen_db(s: &mut Src, shape: Shape) -> AnyDb {
    let ext = s.chance(1, 3);
    let dense = shape.sizes[0] <= 4096 && s.chance(1, 20);
    let ps = if dense { 4096 } else { *s.pick(shape.sizes) };
    let kinds: Vec<Kind> = row::ALL.iter().copied().filter(|k| (k.db() == rekordcrate::pdb::DatabaseType::Ext) == ext).collect();
    let n = s.usize(1, shape.max_tables);
    let mut chains = vec![];
    for _ in 0..n {
        let unknown = shape.unknown_tables && s.chance(1, 8);
        let kind = if unknown { Kind::PlaylistEntry } else { *s.pick(&kinds) };
        let no = if unknown { 9 + s.below(2) as u32 * 5 } else { kind.number() };
        let k = s.usize(1, shape.max_pages);
        let mut pages = vec![];
        for i in 0..k {
            // Usually the first page of a table is an index page.
            let index = if i == 0 { !s.chance(1, 3) } else { s.chance(1, 6) };
            let p = if index {
                PageM::Index(gen_index(s, ps, no))
            } else {
                let mut d = gen_data(s, ps, kind, true, shape.max_rows);
                d.ptype = no;
                PageM::Data(d)
            };
            pages.push(p);
        }
        let empty = if s.chance(1, 2) { s.u32() } else { 0 };
        chains.push((no, empty, pages));
    }
    if dense {
        // More than 255 rows in a page.
        let kind = if ext { Kind::TrackTag } else { *s.pick(&[Kind::PlaylistEntry, Kind::HistoryEntry]) };
        let n = s.usize(240, 300);
        let proto = row::gen(s, kind, true, true);
        let salt = s.below(1 << 20);
        let rows = (0..n as u64)
            .map(|i| {
                let mut r = proto.clone();
                r.set_val(if kind == Kind::HistoryEntry { "playlist_id" } else { "track_id" }, i * (1 + salt));
                (salt & 3 != 0 || i % 7 != salt % 5, r)
            })
            .collect();
        let d = layout(s, ps, kind.number(), rows, true);
        let at = s.usize(0, chains.len());
        chains.insert(at, (kind.number(), 0, vec![PageM::Data(d)]));
    }
    let mut db = Db { page_size: ps, unknown: s.u32(), sequence: s.u32(), chains, next_unused: 0, garbage: 1 + s.below(1 << 20) };
    let interleave = !s.chance(1, 4);
    db.assign(s, interleave);
    AnyDb { ext, db }
}

/// Spread the pages of a database over a large file. The last page index is at most `max`.
pub fn spread(s: &mut Src, db: &mut Db, max: u32) {
    let mut used: Vec<u32> = db.chains.iter().flat_map(|c| &c.2).map(PageM::index).collect();
    used.sort_unstable();
    let mut map = std::collections::BTreeMap::new();
    let mut room = max.saturating_sub(db.next_unused);
    let mut shift = 0;
    for u in &used {
        let gap = match s.weighted(&[3, 1, 2, 1]) {
            0 => 0,
            1 => s.below(3) as u32,
            2 => s.below(u64::from(room) + 1) as u32,
            _ => room - room.min(s.below(4) as u32),
        };
        let gap = gap.min(room);
        room -= gap;
        shift += gap;
        map.insert(*u, u + shift);
    }
    let next = db.next_unused + shift;
    db.next_unused = next;
    for c in &mut db.chains {
        for pm in &mut c.2 {
            let link = match &*pm {
                PageM::Data(d) => d.next_page,
                PageM::Index(d) => d.next_page,
            };
            let link = map.get(&link).copied().unwrap_or(next);
            let i = map[&pm.index()];
            pm.set(i, link);
        }
    }
}

/// A database whose file is gigabytes long, and zero outside its pages.
pub fn gen_large(s: &mut Src) -> AnyDb {
    let mut m = gen_db(s, Shape { sizes: &[1 << 20, 1 << 18, 1 << 16], max_tables: 3, max_pages: 3, max_rows: 8, unknown_tables: true });
    let limit: u64 = *s.pick(&[9 << 29, 9 << 29, 5 << 29, 3 << 29]);
    let max = (limit / u64::from(m.db.page_size)) as u32;
    spread(s, &mut m.db, max);
    for c in &mut m.db.chains {
        for pm in &mut c.2 {
            if let PageM::Data(d) = pm {
                d.garbage = 0;
            }
        }
    }
    m
}

/// The file of such a database, page by page.
pub fn large_pages(m: &AnyDb) -> std::collections::BTreeMap<u32, Vec<u8>> {
    let mut head = vec![0; m.db.page_size as usize];
    let h = db_header(m.db.page_size, m.db.next_unused, m.db.unknown, m.db.sequence, &m.db.tables());
    head[..h.len()].copy_from_slice(&h);
    let mut out = std::collections::BTreeMap::from([(0, head)]);
    out.extend(m.db.chains.iter().flat_map(|c| &c.2).map(|pm| (pm.index(), pm.encode())));
    out
}

pub fn large_file(m: &AnyDb) -> crate::sio::Sparse {
    let f = crate::sio::Sparse::default();
    for (i, b) in large_pages(m) {
        f.put(u64::from(i) * u64::from(m.db.page_size), &b);
    }
    f.set_len(u64::from(m.db.next_unused) * u64::from(m.db.page_size));
    f
}
