//! XML collections.
use crate::engine::{CheckResult, Ctx, Group, Known, Property, G};
use crate::model::xml::{self, DocM, El, NodeM, Style, TrackM, Vals, MARK, TEMPO, TRACK, V};
use crate::src::Src;
use rekordcrate::xml::{
    Collection, Document, PlaylistFolderNode, PlaylistGenericNode, PlaylistPlaylistNode, PlaylistTrack, Playlists, PositionMark, Product, Tempo, Track,
};

#[derive(Debug, Hash)]
struct Case {
    doc: DocM,
    style: u64,
}

fn gen(s: &mut Src) -> Case {
    let doc = xml::gen(s);
    Case { doc, style: s.below(1 << 32) }
}

struct Get<'a>(&'a [xml::Attr], &'a Vals);
impl Get<'_> {
    fn v(&self, n: &str) -> Option<&V> {
        let i = self.0.iter().position(|a| a.0 == n).expect("attribute name");
        self.1[i].as_ref()
    }
    fn t(&self, n: &str) -> Option<String> {
        self.v(n).map(|v| if let V::T(s) = v { s.clone() } else { String::new() })
    }
    fn i(&self, n: &str) -> Option<i32> {
        self.l(n).map(|v| v as i32)
    }
    fn l(&self, n: &str) -> Option<i64> {
        self.v(n).map(|v| if let V::I(i) = v { *i } else { 0 })
    }
    fn f(&self, n: &str) -> Option<f64> {
        self.v(n).map(|v| if let V::F(b) = v { f64::from_bits(*b) } else { 0.0 })
    }
}

fn node(n: &NodeM) -> PlaylistGenericNode {
    match n {
        NodeM::Folder(name, kids) => PlaylistGenericNode::Folder(PlaylistFolderNode { name: name.clone(), nodes: kids.iter().map(node).collect() }),
        NodeM::Playlist { name, keytype, keys } => PlaylistGenericNode::Playlist(PlaylistPlaylistNode {
            name: name.clone(),
            keytype: keytype.clone(),
            tracks: keys.iter().map(|k| PlaylistTrack { key: *k }).collect(),
        }),
    }
}

/// The document the model stands for, through the public types.
pub fn document(d: &DocM) -> Document {
    Document {
        version: d.version.clone(),
        product: Product { name: d.product[0].clone(), version: d.product[1].clone(), company: d.product[2].clone() },
        collection: Collection {
            entries: d.entries,
            track: d
                .tracks
                .iter()
                .map(|m| {
                    let g = Get(TRACK, &m.vals);
                    Track {
                        trackid: g.i("TrackID").unwrap_or(0),
                        name: g.t("Name"),
                        artist: g.t("Artist"),
                        composer: g.t("Composer"),
                        album: g.t("Album"),
                        grouping: g.t("Grouping"),
                        genre: g.t("Genre"),
                        kind: g.t("Kind"),
                        size: g.l("Size"),
                        totaltime: g.f("TotalTime"),
                        discnumber: g.i("DiscNumber"),
                        tracknumber: g.i("TrackNumber"),
                        year: g.i("Year"),
                        averagebpm: g.f("AverageBpm"),
                        datemodified: g.t("DateModified"),
                        dateadded: g.t("DateAdded"),
                        bitrate: g.i("BitRate"),
                        samplerate: g.f("SampleRate"),
                        comments: g.t("Comments"),
                        playcount: g.i("PlayCount"),
                        lastplayed: g.t("LastPlayed"),
                        rating: g.i("Rating"),
                        location: g.t("Location").unwrap_or_default(),
                        remixer: g.t("Remixer"),
                        tonality: g.t("Tonality"),
                        label: g.t("Label"),
                        mix: g.t("Mix"),
                        colour: g.t("Colour"),
                        tempos: m
                            .tempos
                            .iter()
                            .map(|v| {
                                let g = Get(TEMPO, v);
                                Tempo {
                                    inizio: g.f("Inizio").unwrap_or(0.0),
                                    bpm: g.f("Bpm").unwrap_or(0.0),
                                    metro: g.t("Metro").unwrap_or_default(),
                                    battito: g.i("Battito").unwrap_or(0),
                                }
                            })
                            .collect(),
                        position_marks: m
                            .marks
                            .iter()
                            .map(|v| {
                                let g = Get(MARK, v);
                                PositionMark {
                                    name: g.t("Name").unwrap_or_default(),
                                    mark_type: g.i("Type").unwrap_or(0),
                                    start: g.f("Start").unwrap_or(0.0),
                                    end: g.f("End"),
                                    num: g.i("Num").unwrap_or(0),
                                }
                            })
                            .collect(),
                    }
                })
                .collect(),
        },
        playlists: Playlists { node: PlaylistFolderNode { name: d.root.0.clone(), nodes: d.root.1.iter().map(node).collect() } },
    }
}

fn flat(s: &str) -> String {
    s.replace("\r\n", " ").replace(['\t', '\n', '\r'], " ")
}

/// Raw white space in attributes is normalised to spaces (listed finding attribute-whitespace).
fn flatten(d: &mut DocM) {
    let f = |s: &mut String| *s = flat(s);
    f(&mut d.version);
    d.product.iter_mut().for_each(f);
    let vs = |v: &mut Vals| {
        for v in v.iter_mut().flatten() {
            if let V::T(s) = v {
                *s = flat(s);
            }
        }
    };
    for t in &mut d.tracks {
        vs(&mut t.vals);
        t.tempos.iter_mut().for_each(vs);
        t.marks.iter_mut().for_each(vs);
    }
    fn n(x: &mut NodeM) {
        match x {
            NodeM::Folder(s, k) => {
                *s = flat(s);
                k.iter_mut().for_each(n);
            }
            NodeM::Playlist { name, keytype, .. } => {
                *name = flat(name);
                *keytype = flat(keytype);
            }
        }
    }
    f(&mut d.root.0);
    d.root.1.iter_mut().for_each(n);
}

fn same(path: &str, got: &El, want: &El) -> CheckResult {
    let path = format!("{path}/{}", want.name);
    if got.name != want.name {
        return Err(format!("{path}: element is <{}>", got.name));
    }
    for (k, v) in &want.attrs {
        let Some(V::T(g)) = got.attrs.get(k) else { return Err(format!("{path}: attribute {k} is not written, its value is {v:?}")) };
        let ok = match v {
            V::T(t) => flat(g) == flat(t),
            V::I(i) => g.parse() == Ok(*i),
            V::F(b) => g.parse::<f64>().is_ok_and(|x| x == f64::from_bits(*b)),
        };
        if !ok {
            return Err(format!("{path}: attribute {k} is written as {g:?}, its value is {v:?}"));
        }
    }
    if let Some(k) = got.attrs.keys().find(|k| !want.attrs.contains_key(*k)) {
        return Err(format!("{path}: attribute {k} is written but has no value"));
    }
    for kind in ["PRODUCT", "COLLECTION", "PLAYLISTS", "TRACK", "TEMPO", "POSITION_MARK", "NODE"] {
        let g: Vec<&El> = got.kids.iter().filter(|k| k.name == kind).collect();
        let w: Vec<&El> = want.kids.iter().filter(|k| k.name == kind).collect();
        if g.len() != w.len() {
            return Err(format!("{path}: {} <{kind}> elements are written, expected {}", g.len(), w.len()));
        }
        for (g, w) in g.iter().zip(w) {
            same(&path, g, w)?;
        }
    }
    if got.kids.len() != want.kids.len() {
        return Err(format!("{path}: unknown elements are written"));
    }
    Ok(())
}

fn nontrivial(c: &Case, ctx: &mut Ctx) {
    ctx.nt(!c.doc.tracks.is_empty() && !c.doc.root.1.is_empty());
    if c.doc.tracks.iter().any(|t| !t.tempos.is_empty() && !t.marks.is_empty()) {
        ctx.tag("tempo and position marks");
    }
    if c.doc.tracks.is_empty() {
        ctx.tag("empty collection");
    }
    if c.doc.root.1.iter().any(|n| matches!(n, NodeM::Folder(_, k) if k.iter().any(|n| matches!(n, NodeM::Folder(..))))) {
        ctx.tag("nested folders");
    }
    if c.doc.root.1.iter().any(|n| matches!(n, NodeM::Playlist { keys, .. } if keys.is_empty())) {
        ctx.tag("empty playlist");
    }
}

fn diff(got: &Document, want: &Document) -> String {
    let (a, b) = (format!("{got:?}"), format!("{want:?}"));
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60)..(i + 60).min(s.len())]).into_owned();
    format!("…{}… instead of …{}…", cut(&a), cut(&b))
}

fn check_write(c: &Case, ctx: &mut Ctx) -> CheckResult {
    nontrivial(c, ctx);
    let doc = document(&c.doc);
    let xml = quick_xml::se::to_string(&doc).map_err(|e| format!("serialisation fails: {e}"))?;
    let tree = xml::parse(&xml).map_err(|e| format!("the written XML is not well formed: {e}\n{xml}"))?;
    same("", &tree, &c.doc.tree())?;
    let back: Document = quick_xml::de::from_str(&xml).map_err(|e| format!("the written XML is not accepted: {e}\n{xml}"))?;
    if back != doc {
        let mut m = c.doc.clone();
        flatten(&mut m);
        let want = document(&m);
        if back != want {
            return Err(format!("the document reads back as {}", diff(&back, &want)));
        }
    }
    Ok(())
}

fn check_read(c: &Case, ctx: &mut Ctx) -> CheckResult {
    nontrivial(c, ctx);
    let xml = Style::new(c.style).document(&c.doc.tree());
    let want = document(&c.doc);
    let got: Document = quick_xml::de::from_str(&xml).map_err(|e| format!("not accepted: {e}\n{xml}"))?;
    if got != want {
        return Err(format!("decodes to {}\n{xml}", diff(&got, &want)));
    }
    let got: Document = quick_xml::de::from_reader(std::io::BufReader::with_capacity(1 + (c.style % 50) as usize, xml.as_bytes()))
        .map_err(|e| format!("not accepted from a reader: {e}\n{xml}"))?;
    if got != want {
        return Err(format!("decodes from a reader to {}\n{xml}", diff(&got, &want)));
    }
    Ok(())
}

/// Parts of a document, read and written on their own.
fn check_parts(c: &Case, ctx: &mut Ctx) -> CheckResult {
    use serde::{de::DeserializeOwned, Serialize};
    fn one<T: DeserializeOwned + Serialize + PartialEq + std::fmt::Debug>(what: &str, el: &El, want: &T, style: u64, root: &str) -> CheckResult {
        let mut x = String::new();
        Style::new(style).element(el, &mut x);
        let got: T = quick_xml::de::from_str(&x).map_err(|e| format!("{what} is not accepted: {e}\n{x}"))?;
        if got != *want {
            return Err(format!("{what} decodes to {got:?}, expected {want:?}\n{x}"));
        }
        let x = quick_xml::se::to_string_with_root(root, want).map_err(|e| format!("{what}: serialisation fails: {e}"))?;
        let tree = xml::parse(&x).map_err(|e| format!("the written {what} is not well formed: {e}\n{x}"))?;
        // The type of a node belongs to the enumeration around it.
        let mut el = el.clone();
        if what.ends_with("node") {
            el.attrs.remove("Type");
        }
        same(what, &tree, &el)
    }
    nontrivial(c, ctx);
    let (d, t) = (document(&c.doc), c.doc.tree());
    one("product", &t.kids[0], &d.product, c.style, "PRODUCT")?;
    one("collection", &t.kids[1], &d.collection, c.style, "COLLECTION")?;
    one("playlists", &t.kids[2], &d.playlists, c.style, "PLAYLISTS")?;
    one("folder node", &t.kids[2].kids[0], &d.playlists.node, c.style, "NODE")?;
    for (e, t) in t.kids[1].kids.iter().zip(&d.collection.track) {
        one("track", e, t, c.style, "TRACK")?;
        for (e, x) in e.kids.iter().zip(&t.tempos) {
            one("tempo", e, x, c.style, "TEMPO")?;
        }
        for (e, x) in e.kids[t.tempos.len()..].iter().zip(&t.position_marks) {
            one("position mark", e, x, c.style, "POSITION_MARK")?;
        }
    }
    for (e, n) in t.kids[2].kids[0].kids.iter().zip(&d.playlists.node.nodes) {
        match n {
            PlaylistGenericNode::Folder(f) => one("folder node", e, f, c.style, "NODE")?,
            PlaylistGenericNode::Playlist(p) => {
                one("playlist node", e, p, c.style, "NODE")?;
                for (e, k) in e.kids.iter().zip(&p.tracks) {
                    one("playlist entry", e, k, c.style, "TRACK")?;
                }
            }
        }
    }
    Ok(())
}

/// A document with one long list or text, written and read.
#[derive(Debug, Hash)]
struct Large {
    c: Case,
    what: u8,
    n: usize,
    first: i32,
}
fn gen_large(s: &mut Src) -> Large {
    let c = gen(s);
    let n = match s.weighted(&[3, 2, 1]) {
        0 => s.usize(65_530, 65_540),
        1 => s.usize(250, 40_000),
        _ => s.usize(40_000, 140_000),
    };
    Large { c, what: s.below(7) as u8, n, first: s.u32() as i32 }
}
fn check_large(c: &Large, ctx: &mut Ctx) -> CheckResult {
    let mut doc = c.c.doc.clone();
    let ids = (0..c.n).map(|i| c.first.wrapping_add(i as i32));
    let few = |a: &[xml::Attr], i: i32| -> Vals {
        a.iter()
            .map(|a| {
                a.2.then(|| match a.1 {
                    xml::K::T => V::T(format!("t{i}")),
                    xml::K::F => V::F(f64::from(i).to_bits()),
                    _ => V::I(i64::from(i)),
                })
            })
            .collect()
    };
    let track = |i: i32| TrackM { vals: few(TRACK, i), tempos: vec![], marks: vec![] };
    let list = |keys: Vec<i32>| NodeM::Playlist { name: "p".into(), keytype: "0".into(), keys };
    match c.what {
        0 | 1 => doc.root.1.push(list(ids.collect())),
        2 => doc.root.1.push(NodeM::Folder("f".into(), ids.map(|i| if i % 3 == 0 { NodeM::Folder(format!("{i}"), vec![]) } else { list(vec![i]) }).collect())),
        3 => doc.tracks.extend(ids.map(track)),
        4 | 5 => {
            let mut t = track(1);
            if c.what == 4 {
                t.tempos = ids.map(|i| few(TEMPO, i)).collect();
            } else {
                t.marks = ids.map(|i| few(MARK, i)).collect();
            }
            doc.tracks.push(t);
        }
        _ => doc.root.0 = "x é ".repeat(c.n / 2) + "y",
    }
    let case = Case { doc, style: c.c.style };
    let cut = |e: String| e.chars().take(1500).collect::<String>();
    check_write(&case, ctx).map_err(cut)?;
    check_read(&case, ctx).map_err(cut)?;
    ctx.nt(true);
    ctx.tag(["playlist entries", "playlist entries", "nodes of a folder", "tracks", "tempos", "position marks", "characters of a text"][c.what as usize]);
    Ok(())
}

#[derive(Debug, Hash)]
struct Bad {
    doc: DocM,
    style: u64,
    /// Which element, which of its attributes, and what happens to it.
    el: u64,
    attr: u64,
    how: u64,
    junk: String,
}
fn gen_bad(s: &mut Src) -> Bad {
    let doc = xml::gen(s);
    Bad { doc, style: s.below(1 << 32), el: s.below(1 << 20), attr: s.below(1 << 20), how: s.below(3), junk: (*s.pick(&["y", "x", "1x", "--1", "0x10", "1,5", "1 2", "99999999999999999999", "é"])).into() }
}
/// Required attributes that are absent, numbers that are none, and unknown node types are errors.
fn check_bad(c: &Bad, ctx: &mut Ctx) -> CheckResult {
    let mut tree = c.doc.tree();
    let mut paths: Vec<Vec<usize>> = vec![];
    fn walk(e: &El, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if !e.attrs.is_empty() {
            out.push(at.clone());
        }
        for (i, k) in e.kids.iter().enumerate() {
            at.push(i);
            walk(k, at, out);
            at.pop();
        }
    }
    walk(&tree, &mut vec![], &mut paths);
    let path = &paths[(c.el % paths.len() as u64) as usize];
    let mut e = &mut tree;
    let mut parent = String::new();
    for i in path {
        parent = e.name.clone();
        e = &mut e.kids[*i];
    }
    let table = match (e.name.as_str(), parent.as_str()) {
        ("TRACK", "COLLECTION") => TRACK,
        ("TEMPO", _) => TEMPO,
        ("POSITION_MARK", _) => MARK,
        _ => &[],
    };
    // The outermost node is always a folder, whatever its other attributes say.
    let root = e.name == "NODE" && parent == "PLAYLISTS";
    if root {
        e.attrs.retain(|k, _| k == "Name");
    }
    let required = |n: &str| table.iter().find(|a| a.0 == n).is_none_or(|a| a.2);
    let numbers: Vec<String> = e.attrs.iter().filter(|a| !matches!(a.1, V::T(_))).map(|a| a.0.clone()).collect();
    let needed: Vec<String> = e.attrs.keys().filter(|k| required(k)).cloned().collect();
    let pick = |v: &[String]| v[(c.attr % v.len() as u64) as usize].clone();
    let name = e.name.clone();
    let (what, attr) = match c.how {
        0 if !numbers.is_empty() => {
            let a = pick(&numbers);
            // The longest one is no integer the library can hold, but a perfectly good real number.
            let junk = if c.junk.len() > 9 && matches!(e.attrs[&a], V::F(_)) { "1e".to_string() } else { c.junk.clone() };
            e.attrs.insert(a.clone(), V::T(junk.clone()));
            (format!("the value {junk:?} of"), a)
        }
        1 if name == "NODE" && !root => {
            e.attrs.insert("Type".into(), V::T(if c.junk == "1 2" { "2".into() } else { c.junk.clone() }));
            ("the unknown value of".into(), "Type".to_string())
        }
        _ if !needed.is_empty() => {
            let a = pick(&needed);
            e.attrs.remove(&a);
            ("the absence of".into(), a)
        }
        _ => return Ok(()),
    };
    ctx.nt(true);
    ctx.tag(what.split(' ').nth(1).map_or("", |w| match w {
        "absence" => "absent attribute",
        "unknown" => "unknown node type",
        _ => "not a number",
    }));
    let xml = Style::new(c.style).document(&tree);
    match quick_xml::de::from_str::<Document>(&xml) {
        Err(e) if what.ends_with("absence of") && !e.to_string().contains(&attr) => {
            Err(format!("{what} {attr} in <{name}> is reported as {:?}, which does not name it\n{xml}", e.to_string()))
        }
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{what} {attr} in <{name}> is accepted\n{xml}")),
    }
}

fn whitespace() -> bool {
    let mut d = xml::gen(&mut Src::replay(vec![]));
    d.root.0 = "a\nb\tc".into();
    let doc = document(&d);
    let x = quick_xml::se::to_string(&doc).unwrap_or_default();
    quick_xml::de::from_str::<Document>(&x).ok() != Some(doc)
}

fn location_key() -> bool {
    let mut d = xml::gen(&mut Src::replay(vec![]));
    d.root.1 = vec![NodeM::Playlist { name: "p".into(), keytype: "1".into(), keys: vec![4711] }];
    let x = Style::new(0).document(&d.tree()).replace("4711", "file://localhost/a.mp3");
    quick_xml::de::from_str::<Document>(&x).is_err()
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "write", rule: "at least one track and one playlist or folder", quick: 180_000, thorough: 8_000_000, gen, check: check_write }),
        Box::new(G { name: "read", rule: "at least one track and one playlist or folder", quick: 180_000, thorough: 8_000_000, gen, check: check_read }),
        Box::new(G { name: "large", rule: "every case", quick: 56, thorough: 3_000, gen: gen_large, check: check_large }),
        Box::new(G { name: "faulty", rule: "an attribute is wrong or absent", quick: 60_000, thorough: 2_000_000, gen: gen_bad, check: check_bad }),
        Box::new(G { name: "parts", rule: "at least one track and one playlist or folder", quick: 25_000, thorough: 1_500_000, gen, check: check_parts }),
    ];
    Property {
        id: "C13",
        level: "exploration",
        assumptions: &[
            "texts hold only characters XML 1.0 allows; numbers are finite",
            "TEMPO and POSITION_MARK elements are not interleaved, NODE elements carry only the documented attributes",
        ],
        groups: g,
        known: vec![Known { key: "attribute-whitespace", still_fails: whitespace }, Known { key: "keytype-location", still_fails: location_key }],
        needs_cli: false,
    }
}
