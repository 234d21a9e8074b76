//! Playlist export.
use crate::cli;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::dsql::{self, Str};
use crate::model::export::{self, Export, Names, Tree};
use crate::props::c12;
use crate::src::{Rng, Src};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

#[derive(Debug, Hash)]
struct Case {
    x: Export,
    build: u64,
    relative: bool,
    old: bool,
    /// Names of the device and output folders.
    device: u8,
    out: u8,
}

fn node_name(s: &mut Src) -> Str {
    match s.weighted(&[10, 4, 2]) {
        0 => export::line(s, 10),
        // '@' stands for the scratch folder of the case.
        1 => Str::Auto(
            (*s.pick(&[
                "..", ".", "", "/", "../x", "../../x", "../../../escape/x", "@/escape/x", "@/escape", "a/b", "a/../../x", "./x", "x/", "/..", "..\u{e9}", "...", "\\..\\x", "a\nb", "a\tb", "-rf", "~", "x.m3u",
                ".m3u", "a//b", "..//..", "x\0y", " ", "é/ü", "あ/..",
            ]))
            .into(),
        ),
        _ => {
            const P: &[&str] = &["..", "/", "a", ".", "b", "@", "escape"];
            Str::Auto(s.list(1, 7, 3, |s| *s.pick(P)).concat())
        }
    }
}
/// Few names, so that siblings share them.
fn twin_name(s: &mut Src) -> Str {
    Str::Auto((*s.pick(&["A", "B", "A (2)", "é", "a/b", "a_b", "A.m3u", "B", "B.m3u"])).into())
}
/// Names that differ in little more than their case.
fn case_name(s: &mut Src) -> Str {
    Str::Auto((*s.pick(&["a", "A", "ab", "aB", "AB", "Ab", "\u{e9}", "\u{c9}", "e\u{301}", "\u{df}", "ss", "SS", "a ", " a", "a.", "\u{ff41}"])).into())
}
fn good_name(s: &mut Src) -> Str {
    let n = match s.weighted(&[6, 2, 1]) {
        0 => export::line(s, 12),
        1 => dsql::any(s, 20),
        _ => Str::Auto("x".repeat(s.usize(1, 120))),
    };
    if benign(n.text()) {
        n
    } else {
        Str::Auto(format!("n{}", s.below(100)))
    }
}
fn path(s: &mut Src) -> Str {
    let mut t = String::new();
    for i in 0..s.usize(1, 4) {
        if i > 0 || !s.chance(1, 6) {
            t.push('/');
        }
        if i == 0 && s.chance(1, 8) {
            t += "//";
        }
        t += export::line(s, 8).text().replace('/', "_").trim();
        t.push('x');
    }
    // Blanks at the ends are part of the name.
    if s.chance(1, 6) {
        t += *s.pick(&[" ", "  ", "\u{3000}", "."]);
    }
    if s.chance(1, 12) {
        t.insert(0, ' ');
    }
    let x = Str::Auto(t);
    if x.ambiguous() {
        Str::Auto("/x.mp3".into())
    } else {
        x
    }
}

fn make(s: &mut Src, node: fn(&mut Src) -> Str) -> Case {
    let mut x = export::gen(s, &Names { node, path }, 10);
    x.db = None;
    Case { x, build: s.below(1 << 30), relative: s.bool(), old: s.chance(1, 4), device: c12::folder(s), out: c12::folder(s) }
}
fn gen(s: &mut Src) -> Case {
    make(s, good_name)
}
fn gen_odd(s: &mut Src) -> Case {
    make(s, node_name)
}
fn gen_twins(s: &mut Src) -> Case {
    if s.chance(1, 3) {
        return make(s, case_name);
    }
    make(s, twin_name)
}

fn benign(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains(['/', '\0']) && n.len() <= 240
}

/// Every file below `dir` with its content.
fn files(dir: &Path) -> Result<BTreeMap<PathBuf, Vec<u8>>, String> {
    fn go(d: &Path, rel: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) -> std::io::Result<()> {
        for e in std::fs::read_dir(d)? {
            let e = e?;
            let r = rel.join(e.file_name());
            let t = e.file_type()?;
            if t.is_dir() {
                go(&e.path(), &r, out)?;
            } else if t.is_symlink() {
                out.insert(r, b"symlink".to_vec());
            } else {
                out.insert(r, std::fs::read(e.path())?);
            }
        }
        Ok(())
    }
    let mut m = BTreeMap::new();
    if dir.exists() {
        go(dir, Path::new(""), &mut m).map_err(|e| format!("scratch: {e}"))?;
    }
    Ok(m)
}

/// Folders below `dir`, except below `skip`.
fn folders(dir: &Path, skip: &Path) -> Result<Vec<PathBuf>, String> {
    let mut out = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).map_err(|e| format!("scratch: {e}"))? {
            let e = e.map_err(|e| format!("scratch: {e}"))?;
            if e.path() != skip && e.file_type().is_ok_and(|t| t.is_dir()) {
                out.push(e.path());
                todo.push(e.path());
            }
        }
    }
    out.sort();
    Ok(out)
}

struct Want {
    /// Path of the file when all names on it are plain file names.
    path: Option<PathBuf>,
    content: Vec<u8>,
}

fn wanted(x: &Export, device: &Path) -> Vec<Want> {
    fn go(x: &Export, t: &[Tree], at: Option<PathBuf>, device: &Path, out: &mut Vec<Want>) {
        for t in t {
            let ok = benign(&t.name);
            match &t.kids {
                Some(k) => go(x, k, at.as_ref().filter(|_| ok).map(|p| p.join(&t.name)), device, out),
                None => {
                    let mut content = vec![];
                    for (_, tr) in x.tracks_of(t.id) {
                        if let Some(tr) = tr {
                            let p = tr.path.text();
                            content.extend(device.as_os_str().as_bytes());
                            content.extend(format!("/{}\n", p.trim_start_matches('/')).into_bytes());
                        }
                    }
                    out.push(Want { path: at.as_ref().filter(|_| ok).map(|p| p.join(format!("{}.m3u", t.name))), content });
                }
            }
        }
    }
    let mut out = vec![];
    go(x, &x.tree(), Some(PathBuf::new()), device, &mut out);
    out
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let io = |e: std::io::Error| format!("scratch: {e}");
    let top = cli::scratch(ctx, "exp")?.canonicalize().map_err(io)?;
    let work = top.join("w");
    let device = work.join(c12::folder_name(c.device));
    let deep = work.join("a/b/c");
    let out_name = c12::folder_name(c.out);
    let out = deep.join(&out_name);
    let escape = work.join("escape");
    for d in [&device.join("PIONEER/rekordbox"), &deep, &escape] {
        std::fs::create_dir_all(d).map_err(io)?;
    }
    for d in [&work, &work.join("a"), &work.join("a/b"), &deep, &escape, &device, &device.join("PIONEER"), &device.join("PIONEER/rekordbox")] {
        cli::give(d)?;
    }
    std::fs::write(escape.join("x.m3u"), b"keep").map_err(io)?;
    cli::give(&escape.join("x.m3u"))?;
    let mut x = c.x.clone();
    for n in &mut x.nodes {
        if n.name.text().contains('@') {
            n.name = Str::Auto(n.name.text().replace('@', &work.display().to_string()));
        }
    }
    x.build(&mut Src::random(Rng::new(c.build)));
    let db = device.join("PIONEER/rekordbox/export.pdb");
    std::fs::write(&db, x.bytes()).map_err(io)?;
    cli::give(&db)?;
    let want = wanted(&x, &device);
    let tree = x.tree();
    fn all(t: &[Tree], f: &dyn Fn(&Tree) -> bool) -> bool {
        t.iter().all(|t| f(t) && t.kids.as_ref().is_none_or(|k| all(k, f)))
    }
    let plain = all(&tree, &|t| benign(&t.name));
    let mut count: BTreeMap<&Path, usize> = BTreeMap::new();
    let mut folders_with: Vec<&Path> = vec![];
    for w in &want {
        if let Some(p) = &w.path {
            *count.entry(p).or_default() += 1;
            // A folder can have the name of a playlist's file.
            let mut up = p.parent();
            while let Some(d) = up.filter(|d| !d.as_os_str().is_empty()) {
                if !folders_with.contains(&d) {
                    folders_with.push(d);
                    *count.entry(d).or_default() += 1;
                }
                up = d.parent();
            }
        }
    }
    let unique = want.iter().all(|w| w.path.as_ref().is_some_and(|p| count[p.as_path()] == 1));
    let mut kept = BTreeMap::new();
    if c.old {
        // An older export is replaced, other files stay.
        std::fs::create_dir(&out).map_err(io)?;
        cli::give(&out)?;
        std::fs::write(out.join("other.txt"), b"other").map_err(io)?;
        kept.insert(PathBuf::from("other.txt"), b"other".to_vec());
        if let Some(p) = want.iter().find_map(|w| w.path.as_ref().filter(|p| plain && p.components().count() == 1 && !folders_with.contains(&p.as_path()))) {
            let p = out.join(p);
            std::fs::write(&p, "old\n".repeat(2000)).map_err(io)?;
            cli::give(&p)?;
        }
    }
    let before = files(&work)?;
    let dirs = folders(&work, &out)?;
    let o = if c.relative {
        cli::run(&["export-playlists".as_ref(), Path::new("../../..").join(c12::folder_name(c.device)).as_os_str(), Path::new(".").join(&out_name).as_os_str()], &deep)?
    } else {
        cli::run(&["export-playlists".as_ref(), device.as_os_str(), out.as_os_str()], &top)?
    };
    o.clean()?;
    if plain {
        o.success()?;
    }
    ctx.nt(want.len() > 1 && tree.iter().any(|t| t.kids.as_ref().is_some_and(|k| !k.is_empty())));
    if want.iter().any(|w| w.content.iter().filter(|b| **b == b'\n').count() > 2) {
        ctx.tag("playlist with several tracks");
    }
    if !plain {
        ctx.tag("unusual names");
    }
    if !unique {
        ctx.tag("shared names");
    }
    let after = files(&work)?;
    let inside_of = Path::new("a/b/c").join(&out_name);
    let inside = |p: &Path| p.starts_with(&inside_of);
    for (p, b) in &after {
        if !inside(p) && before.get(p) != Some(b) {
            return Err(format!("{} is outside of the output directory and was created or changed", p.display()));
        }
    }
    if let Some(p) = before.keys().find(|p| !inside(p) && !after.contains_key(*p)) {
        return Err(format!("{} is outside of the output directory and was removed", p.display()));
    }
    if let Some(d) = folders(&work, &out)?.iter().find(|d| !dirs.contains(d)) {
        return Err(format!("the folder {} was created outside of the output directory", d.display()));
    }
    if o.code != Some(0) {
        ctx.tag("refused");
        return Ok(());
    }
    let mut got = files(&out)?;
    for (p, b) in &kept {
        if got.remove(p).as_ref() != Some(b) {
            return Err(format!("{} was not part of the export and was changed", p.display()));
        }
    }
    let show = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    let mut loose: Vec<&[u8]> = vec![];
    for w in &want {
        match &w.path {
            Some(p) if plain && count[p.as_path()] == 1 && unique => {
                let b = got.remove(p).ok_or_else(|| format!("{} is not exported", p.display()))?;
                if b != w.content {
                    return Err(format!("{} holds {:?}, the playlist is {:?}", p.display(), show(&b), show(&w.content)));
                }
            }
            Some(p) if !got.contains_key(p) && plain && !folders_with.contains(&p.as_path()) => return Err(format!("{} is not exported", p.display())),
            _ => loose.push(&w.content),
        }
    }
    for l in loose {
        let p = got.iter().find(|g| g.1 == l).map(|g| g.0.clone());
        let p = p.ok_or_else(|| format!("no file holds the playlist with the tracks {:?}", show(l)))?;
        got.remove(&p);
    }
    if let Some(p) = got.keys().next() {
        return Err(format!("{} is exported, but there is no such playlist", p.display()));
    }
    std::fs::remove_dir_all(&top).map_err(io)
}

pub fn prop() -> Property {
    let rule = "at least two playlists, one of them in a folder";
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "export", rule, quick: 2_000, thorough: 40_000, gen, check }),
        Box::new(G { name: "names", rule, quick: 2_500, thorough: 50_000, gen: gen_odd, check }),
        Box::new(G { name: "twins", rule, quick: 800, thorough: 16_000, gen: gen_twins, check }),
    ];
    Property {
        id: "C15",
        level: "exploration",
        assumptions: &[
            "a case-sensitive file system; the output directory holds no symbolic links",
            "names that are no plain file names may be refused with an error or stored under another name inside the output directory",
        ],
        groups: g,
        known: vec![],
        needs_cli: true,
    }
}
