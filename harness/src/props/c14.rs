//! The playlist tree.
use crate::cli;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::dsql::{self, Str};
use crate::model::export::{self, Export, Names, NodeRow, Tree};
use crate::src::Src;
use rekordcrate::device::{get_playlists, PlaylistNode};
use rekordcrate::pdb::{io::Database, DatabaseType};
use std::collections::HashSet;
use std::io::Cursor;

fn name(s: &mut Src) -> Str {
    dsql::any(s, 20)
}
fn plain_name(s: &mut Src) -> Str {
    export::line(s, 10)
}

fn gen(s: &mut Src) -> Export {
    export::gen(s, &Names { node: name, path: plain_name }, 25)
}
fn gen_deep(s: &mut Src) -> Export {
    let n = s.usize(2, LEVELS) as u32;
    chain(s, n)
}
/// Levels that every listing has to show.
const LEVELS: usize = 128;

/// More levels than any listing can show.
fn gen_nested(s: &mut Src) -> Export {
    let n = if s.chance(1, 3) { s.usize(LEVELS, 400) } else { s.usize(400, 12_000) };
    chain(s, n as u32)
}

/// Folders in folders, with a playlist in the last.
pub fn chain(s: &mut Src, n: u32) -> Export {
    let mut x = Export::default();
    for k in 1..=n {
        x.nodes.push(NodeRow { present: true, id: k, parent: k - 1, folder: u32::from(k < n), sort: 0, name: Str::Auto(format!("n{k}")) });
    }
    if s.bool() {
        x.nodes.reverse();
    }
    x.build(s);
    x
}
pub fn gen_list(s: &mut Src) -> Export {
    export::gen(s, &Names { node: plain_name, path: plain_name }, 10)
}
fn gen_degenerate(s: &mut Src) -> Export {
    let mut x = export::gen(s, &Names { node: name, path: plain_name }, 10);
    let k = s.usize(1, 4);
    for _ in 0..k {
        if x.nodes.is_empty() {
            break;
        }
        let i = s.below(x.nodes.len() as u64) as usize;
        let j = s.below(x.nodes.len() as u64) as usize;
        let id = x.nodes[j].id;
        match s.below(5) {
            0 => x.nodes[i].id = id,
            1 => x.nodes[i].parent = id,
            2 => x.nodes[i].id = 0,
            3 => {
                x.nodes[i].parent = x.nodes[i].id;
            }
            _ => {
                let mut c = x.nodes[i].clone();
                c.name = name(s);
                x.nodes.push(c);
            }
        }
    }
    x.build(s);
    x
}

fn tree(n: &[PlaylistNode]) -> Vec<Tree> {
    n.iter()
        .map(|n| match n {
            PlaylistNode::Folder(f) => Tree { id: f.id.0, name: f.name.clone(), kids: Some(tree(&f.children)) },
            PlaylistNode::Playlist(p) => Tree { id: p.id.0, name: p.name.clone(), kids: None },
        })
        .collect()
}

fn load(x: &Export) -> Result<Vec<Tree>, String> {
    let mut db = Database::open_non_persistent(Cursor::new(x.bytes()), DatabaseType::Plain).map_err(|e| format!("opening: {e}"))?;
    let a = tree(&get_playlists(&mut db).map_err(|e| format!("get_playlists: {e}"))?);
    let b = tree(&get_playlists(&mut db).map_err(|e| format!("get_playlists, again: {e}"))?);
    if a != b {
        return Err("a second listing of the same database differs".into());
    }
    Ok(a)
}

fn stats(x: &Export, want: &[Tree], ctx: &mut Ctx) {
    fn depth(t: &[Tree]) -> usize {
        t.iter().map(|t| 1 + t.kids.as_ref().map_or(0, |k| depth(k))).max().unwrap_or(0)
    }
    fn count(t: &[Tree]) -> usize {
        t.iter().map(|t| 1 + t.kids.as_ref().map_or(0, |k| count(k))).sum()
    }
    ctx.nt(depth(want) >= 2);
    if depth(want) >= 4 {
        ctx.tag("four or more levels");
    }
    if count(want) < x.nodes.iter().filter(|n| n.present).count() {
        ctx.tag("unreachable rows");
    }
}

fn differs(path: &str, got: &[Tree], want: &[Tree]) -> CheckResult {
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { return Err(format!("{path}: {:?} is missing", w.name)) };
        if (g.id, &g.name, g.kids.is_some()) != (w.id, &w.name, w.kids.is_some()) {
            return Err(format!("{path}: entry {i} is {:?} (id {}, folder {}), stored is {:?} (id {}, folder {})", g.name, g.id, g.kids.is_some(), w.name, w.id, w.kids.is_some()));
        }
        if let (Some(g), Some(k)) = (&g.kids, &w.kids) {
            differs(&format!("{path}/{}", w.name), g, k)?;
        }
    }
    match got.get(want.len()) {
        Some(g) => Err(format!("{path}: {:?} is listed but not stored there", g.name)),
        None => Ok(()),
    }
}

fn check(x: &Export, ctx: &mut Ctx) -> CheckResult {
    let want = x.tree();
    stats(x, &want, ctx);
    differs("", &load(x)?, &want)
}

fn check_degenerate(x: &Export, ctx: &mut Ctx) -> CheckResult {
    // An error is as good as a listing; a listing holds no row twice and every row under its parent.
    let ids: HashSet<u32> = x.nodes.iter().filter(|n| n.present).map(|n| n.id).collect();
    ctx.nt(ids.contains(&0) || ids.len() < x.nodes.iter().filter(|n| n.present).count());
    let Ok(got) = load(x) else {
        ctx.tag("refused");
        return Ok(());
    };
    let mut rows: Vec<&NodeRow> = x.nodes.iter().filter(|n| n.present).collect();
    fn walk(t: &[Tree], parent: u32, rows: &mut Vec<&NodeRow>) -> CheckResult {
        for t in t {
            let i = rows
                .iter()
                .position(|n| n.id == t.id && n.parent == parent && n.name.text() == t.name && (n.folder != 0) == t.kids.is_some())
                .ok_or_else(|| format!("{:?} (id {}) is listed under {parent} more often than it is stored there", t.name, t.id))?;
            rows.remove(i);
            if let Some(k) = &t.kids {
                walk(k, t.id, rows)?;
            }
        }
        Ok(())
    }
    walk(&got, 0, &mut rows)?;
    if rows.iter().any(|n| n.parent == 0) {
        return Err("a row below the root is not listed".into());
    }
    Ok(())
}

/// The same through the device export loader, from a folder on disk, with edits that stay in memory.
fn check_loader(x: &Export, ctx: &mut Ctx) -> CheckResult {
    use fallible_iterator::FallibleIterator;
    use rekordcrate::pdb::{PlainPageType, PageType};
    let want = x.tree();
    stats(x, &want, ctx);
    let io = |e: std::io::Error| format!("scratch: {e}");
    let top = crate::props::c12::scratch(ctx, "loader")?;
    let dir = top.join(crate::props::c12::folder_name((x.nodes.len() % 11) as u8));
    let at = dir.join("PIONEER").join("rekordbox");
    std::fs::create_dir_all(&at).map_err(io)?;
    let file = at.join("export.pdb");
    let bytes = x.bytes();
    std::fs::write(&file, &bytes).map_err(io)?;
    let mut perm = std::fs::metadata(&file).map_err(io)?.permissions();
    perm.set_readonly(true);
    std::fs::set_permissions(&file, perm).map_err(io)?;
    let loader = rekordcrate::DeviceExportLoader::new(dir.clone());
    if loader.get_path() != dir {
        return Err("the loader has another path than it was given".into());
    }
    let mut db = loader.open_pdb_non_persistent().map_err(|e| format!("opening PIONEER/rekordbox/export.pdb: {e}"))?;
    let got = tree(&get_playlists(&mut db).map_err(|e| format!("get_playlists: {e}"))?);
    differs("", &got, &want)?;
    // Rename the playlists in memory: the next listing shows the new names, the file does not change.
    let mut renamed = 0;
    {
        let mut it = db.iter_pages(PageType::Plain(PlainPageType::PlaylistTree)).map_err(|e| format!("iter_pages: {e}"))?;
        while let Some(pg) = it.next().map_err(|e| format!("page: {e}"))? {
            if let Some(d) = pg.content.as_data_mut() {
                for r in d.rows.values_mut() {
                    if let Some(n) = r.as_variant_mut::<rekordcrate::pdb::PlaylistTreeNode>() {
                        n.name = rekordcrate::pdb::string::DeviceSQLString::new(&format!("renamed {}", n.id.0)).map_err(|e| format!("{e}"))?;
                        renamed += 1;
                    }
                }
            }
        }
    }
    fn rename(t: &[Tree]) -> Vec<Tree> {
        t.iter().map(|t| Tree { id: t.id, name: format!("renamed {}", t.id), kids: t.kids.as_ref().map(|k| rename(k)) }).collect()
    }
    let got = tree(&get_playlists(&mut db).map_err(|e| format!("get_playlists after renaming: {e}"))?);
    differs("", &got, &rename(&want)).map_err(|e| format!("after renaming {renamed} rows in memory: {e}"))?;
    drop(db);
    if std::fs::read(&file).map_err(io)? != bytes {
        return Err("the file was changed".into());
    }
    std::fs::remove_dir_all(&top).map_err(io)
}

fn run_list(x: &Export, ctx: &Ctx) -> Result<cli::Out, String> {
    let dir = cli::scratch(ctx, "list")?;
    let f = dir.join("export.pdb");
    std::fs::write(&f, x.bytes()).map_err(|e| format!("scratch: {e}"))?;
    let o = cli::run(&["list-playlists".as_ref(), f.as_os_str()], &dir)?;
    std::fs::remove_dir_all(&dir).map_err(|e| format!("scratch: {e}"))?;
    Ok(o)
}

pub fn check_list(x: &Export, ctx: &mut Ctx) -> CheckResult {
    let want = x.tree();
    stats(x, &want, ctx);
    let o = run_list(x, ctx)?;
    o.success()?;
    let out = o.out();
    let mut lines = out.lines();
    fn walk<'a>(x: &Export, t: &[Tree], above: Option<usize>, it: &mut impl Iterator<Item = &'a str>, ctx: &mut Ctx) -> CheckResult {
        let mut first = None;
        for t in t {
            let l = it.next().ok_or_else(|| format!("{:?} is not listed", t.name))?;
            let ind = l.len() - l.trim_start_matches(' ').len();
            if !l.ends_with(&format!(" {}", t.name)) {
                return Err(format!("line {l:?} where {:?} is due", t.name));
            }
            // Folders and playlists are told apart by their mark.
            let mark = &l[ind..l.len() - t.name.len()];
            if mark != if t.kids.is_some() { "🗀 " } else { "🗎 " } {
                return Err(format!("line {l:?} marks {:?} as the wrong kind of node", t.name));
            }
            if above.is_some_and(|a| ind <= a) || *first.get_or_insert(ind) != ind {
                return Err(format!("line {l:?} is not indented as its parent and siblings demand"));
            }
            if let Some(k) = &t.kids {
                walk(x, k, Some(ind), it, ctx)?;
                continue;
            }
            for (i, tr) in x.tracks_of(t.id) {
                let l = it.next().ok_or_else(|| format!("entry {i} of {:?} is not listed", t.name))?;
                let l = l.trim_start();
                let head = format!("♫ {i}: ");
                let Some(rest) = l.strip_prefix(&head) else {
                    return Err(format!("line {l:?} where entry {i} of {:?} is due", t.name));
                };
                let Some(tr) = tr else {
                    if !rest.contains("not found") {
                        return Err(format!("line {l:?}, but the track of the entry is not stored"));
                    }
                    continue;
                };
                ctx.tag("playlist with tracks");
                match x.artist(tr.artist) {
                    Some(a) if rest != format!("{} - {}", a.name.text(), tr.title.text()) => {
                        return Err(format!("line {l:?}, the entry is {:?} by {:?}", tr.title.text(), a.name.text()));
                    }
                    Some(_) => {}
                    None => {
                        ctx.tag("unknown artist");
                        if !rest.contains("not found") || !rest.ends_with(&format!(" - {}", tr.title.text())) {
                            return Err(format!("line {l:?}, the entry is {:?} by an artist who is not stored", tr.title.text()));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    walk(x, &want, None, &mut lines, ctx)?;
    match lines.next() {
        Some(l) => Err(format!("line {l:?} is listed, but nothing of that kind is stored")),
        None => Ok(()),
    }
}

fn check_list_degenerate(x: &Export, ctx: &mut Ctx) -> CheckResult {
    ctx.nt(!x.nodes.is_empty());
    let o = run_list(x, ctx)?;
    o.clean()
}

/// Shown completely or refused.
fn check_nested(x: &Export, ctx: &mut Ctx) -> CheckResult {
    ctx.nt(x.nodes.len() > LEVELS);
    let mut db = Database::open_non_persistent(Cursor::new(x.bytes()), DatabaseType::Plain).map_err(|e| format!("opening: {e}"))?;
    match get_playlists(&mut db) {
        Ok(t) => {
            let (mut at, mut level) = (t.as_slice(), 0);
            while let [n] = at {
                level += 1;
                at = match n {
                    PlaylistNode::Folder(f) => &f.children,
                    PlaylistNode::Playlist(_) => &[],
                };
            }
            if level != x.nodes.len() || !at.is_empty() {
                return Err(format!("{level} of {} levels are listed", x.nodes.len()));
            }
        }
        Err(e) => {
            ctx.tag("refused");
            let _ = e.to_string();
        }
    }
    let o = run_list(x, ctx)?;
    o.clean()?;
    if o.code == Some(0) {
        let n = o.out().lines().count();
        if n != x.nodes.len() {
            return Err(format!("{n} of {} levels are listed", x.nodes.len()));
        }
    }
    Ok(())
}

pub fn prop() -> Property {
    let rule = "folders nested at least two levels deep";
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "tree", rule, quick: 25_000, thorough: 800_000, gen, check }),
        Box::new(G { name: "deep", rule, quick: 200, thorough: 4_000, gen: gen_deep, check }),
        Box::new(G { name: "degenerate", rule: "an id stored twice or id 0", quick: 15_000, thorough: 500_000, gen: gen_degenerate, check: check_degenerate }),
        Box::new(G { name: "loader", rule, quick: 4_000, thorough: 150_000, gen, check: check_loader }),
        Box::new(G { name: "list", rule, quick: 2_500, thorough: 50_000, gen: gen_list, check: check_list }),
        Box::new(G { name: "nested", rule: "more than 128 levels", quick: 80, thorough: 3_000, gen: gen_nested, check: check_nested }),
        Box::new(G { name: "list-degenerate", rule: "at least one row", quick: 800, thorough: 20_000, gen: gen_degenerate, check: check_list_degenerate }),
    ];
    Property {
        id: "C14",
        level: "exploration",
        assumptions: &[
            "rows of one page are stored in the order of their heap offsets; nodes below a playlist (not a folder) are not judged",
            "nesting up to 128 levels; deeper trees, up to 12,000 levels, are listed completely or refused",
        ],
        groups: g,
        known: vec![],
        needs_cli: true,
    }
}
