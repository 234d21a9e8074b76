//! The command line tool.
use crate::cli::{self, Out};
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::export::{self, Export, Names};
use crate::model::mutate::{self, Mut};
use crate::model::page::{self, AnyDb, Shape};
use crate::model::setting::{self, ALL};
use crate::model::xml::{self, DocM, Style};
use crate::model::{anlz, dsql};
use crate::props::{c12, c14, c16, c17};
use crate::src::Src;
use binrw::BinRead;
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::{self as p, DatabaseType, PageContent, PageType};
use rekordcrate::util::TableIndex;
use rekordcrate::DeviceExportLoader;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::{BufReader, Cursor};
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

/// How the file is given.
#[derive(Debug, Hash, Clone)]
enum Place {
    Absolute,
    Relative,
    /// Below a folder whose name is not UTF-8.
    Odd,
    /// Below a folder that has the name of a known file.
    Named,
    Missing,
    Directory,
}
fn place(s: &mut Src) -> Place {
    match s.weighted(&[8, 4, 1, 1, 1, 1]) {
        0 => Place::Absolute,
        1 => Place::Relative,
        2 => Place::Odd,
        3 => Place::Named,
        4 => Place::Missing,
        _ => Place::Directory,
    }
}

/// Names and contents below a folder.
fn snapshot(dir: &Path) -> Result<BTreeMap<PathBuf, Option<Vec<u8>>>, String> {
    let io = |e: std::io::Error| format!("scratch: {e}");
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).map_err(io)? {
            let e = e.map_err(io)?;
            if e.file_type().map_err(io)?.is_dir() {
                m.insert(e.path(), None);
                todo.push(e.path());
            } else {
                m.insert(e.path(), Some(std::fs::read(e.path()).map_err(io)?));
            }
        }
    }
    Ok(m)
}

/// Runs a command on one file in a folder the program may write to.
fn run(ctx: &Ctx, cmd: &[&str], name: &str, bytes: &[u8], place: &Place) -> Result<Out, String> {
    let io = |e: std::io::Error| format!("scratch: {e}");
    let dir = cli::scratch(ctx, "cli")?;
    let sub = match place {
        Place::Odd => dir.join(OsString::from_vec(b"a\xff b".to_vec())),
        Place::Named => dir.join("exportExt.pdb"),
        _ => dir.clone(),
    };
    std::fs::create_dir_all(&sub).map_err(io)?;
    let f = sub.join(name);
    match place {
        Place::Missing => {}
        Place::Directory => std::fs::create_dir(&f).map_err(io)?,
        _ => std::fs::write(&f, bytes).map_err(io)?,
    }
    for p in [&dir, &sub, &f] {
        if p.exists() {
            cli::give(p)?;
        }
    }
    let before = snapshot(&dir)?;
    let arg: &OsStr = if matches!(place, Place::Relative) { name.as_ref() } else { f.as_os_str() };
    let mut args: Vec<&OsStr> = cmd.iter().map(AsRef::as_ref).collect();
    args.push(arg);
    let o = cli::run(&args, &dir)?;
    if snapshot(&dir)? != before {
        return Err("the command changes files".into());
    }
    std::fs::remove_dir_all(&dir).map_err(io)?;
    Ok(o)
}

/// The output and status belong to what the library makes of the file.
fn judge(o: &Out, want: Result<String, String>, place: &Place, ctx: &mut Ctx) -> CheckResult {
    if matches!(place, Place::Missing | Place::Directory) {
        ctx.tag("no such file");
        return o.failure();
    }
    match want {
        Err(_) => {
            ctx.tag("refused");
            o.failure()
        }
        Ok(text) => {
            ctx.tag("shown");
            ctx.nt(true);
            o.success()?;
            same(&o.out(), &text)
        }
    }
}

fn same(got: &str, want: &str) -> CheckResult {
    let mut g = got.trim_end().lines();
    for (i, w) in want.trim_end().lines().enumerate() {
        let l = g.next().ok_or_else(|| format!("the output ends before {w:?}"))?;
        if l.trim() != w.trim() {
            let cut = |s: &str| s.trim().chars().take(300).collect::<String>();
            return Err(format!("line {} of the output is {:?}, the library gives {:?}", i + 1, cut(l), cut(w)));
        }
    }
    match g.next() {
        Some(l) => Err(format!("the output goes on with {l:?}")),
        None => Ok(()),
    }
}

fn mutations(s: &mut Src, n: usize, hot: &[usize]) -> Vec<Mut> {
    match s.below(4) {
        0 => mutate::gen(s, n, hot),
        1 => vec![Mut::Cut(s.below(n as u64 + 1) as usize)],
        _ => vec![],
    }
}

// ---- analysis files

#[derive(Debug, Hash)]
struct AnlzCase {
    file: anlz::File,
    muts: Vec<Mut>,
    place: Place,
}
fn gen_anlz(s: &mut Src) -> AnlzCase {
    let mut file = anlz::file(s);
    file.secs.truncate(6);
    let n = file.encode().len();
    AnlzCase { muts: mutations(s, n, &c17::hot(&file)), place: place(s), file }
}
fn check_anlz(c: &AnlzCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.file.encode();
    mutate::apply(&mut b, &c.muts);
    let want = rekordcrate::anlz::ANLZ::read(&mut Cursor::new(&b)).map(|a| format!("{a:#?}")).map_err(|e| e.to_string());
    judge(&run(ctx, &["dump-anlz"], "ANLZ0000.DAT", &b, &c.place)?, want, &c.place, ctx)
}

// ---- settings

#[derive(Debug, Hash)]
struct SetCase {
    file: setting::File,
    muts: Vec<Mut>,
    name: String,
    opt: Option<usize>,
    place: Place,
}

fn gen_set(s: &mut Src) -> SetCase {
    let file = setting::gen(s);
    let own = ALL[file.which].file;
    let name = match s.weighted(&[5, 1, 1, 2]) {
        0 => own.to_string(),
        1 => ALL[s.below(4) as usize].file.to_string(),
        2 => own.to_lowercase(),
        _ => (*s.pick(&["x.dat", "MYSETTING.DAT.bak", "MYSETTING3.DAT", "SETTING.DAT", "MYSETTING"])).to_string(),
    };
    let opt = match s.below(4) {
        0 => Some(file.which),
        1 => Some(s.below(4) as usize),
        _ => None,
    };
    let n = file.encode().len();
    SetCase { muts: mutations(s, n, &[0, 2, 4, 100, 102, 104, 112, n - 4, n - 2]), place: place(s), file, name, opt }
}
fn check_set(c: &SetCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.file.encode();
    mutate::apply(&mut b, &c.muts);
    let guess = ALL.iter().position(|l| l.file == c.name);
    let opt = c.opt.map(|o| ALL[o].file.to_lowercase().trim_end_matches(".dat").to_string());
    let mut cmd = vec!["dump-setting"];
    if let Some(o) = &opt {
        cmd.extend(["--setting-type", o]);
    }
    let o = run(ctx, &cmd, &c.name, &b, &c.place)?;
    let Some(kind) = c.opt.or(guess) else {
        ctx.tag("kind unknown");
        return unknown(&o);
    };
    let mismatch = c.opt.is_some_and(|o| guess.is_some_and(|g| g != o));
    if mismatch {
        ctx.tag("option against file name");
        if o.stderr.is_empty() {
            return Err("no warning about an option that contradicts the file name".into());
        }
    } else if o.code == Some(0) && !o.stderr.is_empty() {
        return Err(format!("without any problem, a message is given: {}", o.err()));
    }
    let want = rekordcrate::setting::Setting::read_args(&mut Cursor::new(&b), (ALL[kind].kind,)).map(|a| format!("{a:#04x?}")).map_err(|e| e.to_string());
    judge(&o, want, &c.place, ctx)
}
fn unknown(o: &Out) -> CheckResult {
    o.failure()?;
    if !o.stdout.is_empty() {
        return Err(format!("a file of unknown kind gives the output {:?} and the message {:?}", o.out(), o.err()));
    }
    Ok(())
}

// ---- XML

#[derive(Debug, Hash)]
struct XmlCase {
    doc: DocM,
    style: u64,
    muts: Vec<Mut>,
    place: Place,
}
fn gen_xml(s: &mut Src) -> XmlCase {
    let (doc, style) = (xml::gen(s), s.below(1 << 32));
    let n = Style::new(style).document(&doc.tree()).len();
    XmlCase { muts: mutations(s, n, &[]), place: place(s), doc, style }
}
fn check_xml(c: &XmlCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = Style::new(c.style).document(&c.doc.tree()).into_bytes();
    mutate::apply(&mut b, &c.muts);
    let want = quick_xml::de::from_reader::<_, rekordcrate::xml::Document>(BufReader::new(&b[..])).map(|a| format!("{a:#?}")).map_err(|e| e.to_string());
    judge(&run(ctx, &["dump-xml"], "rekordbox.xml", &b, &c.place)?, want, &c.place, ctx)
}

// ---- databases

#[derive(Debug, Hash)]
struct PdbCase {
    db: AnyDb,
    muts: Vec<Mut>,
    name: String,
    opt: Option<bool>,
    unknown: bool,
    place: Place,
}
const SHAPE: Shape = Shape { sizes: &[512, 1024], max_tables: 5, max_pages: 3, max_rows: 6, unknown_tables: true };

fn gen_pdb(s: &mut Src) -> PdbCase {
    let db = page::gen_db(s, SHAPE);
    let n = db.db.page_size as usize * db.db.next_unused as usize;
    let own = if db.ext { "exportExt.pdb" } else { "export.pdb" };
    let name = match s.weighted(&[6, 1, 2]) {
        0 => own,
        1 => *s.pick(&["export.pdb", "exportExt.pdb"]),
        _ => *s.pick(&["EXPORT.PDB", "exportext.pdb", "x.pdb", "export.pdb.bak", "export"]),
    };
    let opt = match s.below(4) {
        0 => Some(db.ext),
        1 => Some(s.bool()),
        _ => None,
    };
    let mut muts = mutations(s, n, &c16::hot(&db));
    if s.chance(1, 4) {
        // A broken chain, table or page.
        let h = c16::hot(&db);
        muts.push(Mut::Put32(*s.pick(&h), s.below(12) as u32, false));
    }
    PdbCase { muts, name: name.to_string(), opt, unknown: s.bool(), place: place(s), db }
}
fn dump(b: &[u8], ty: DatabaseType, all: bool, errors: &mut u64) -> Result<String, String> {
    let mut db = Database::open_non_persistent(Cursor::new(b), ty).map_err(|e| e.to_string())?;
    let mut out = format!("{:#?}\n", db.get_header());
    let tables = db.get_header().tables.clone();
    for (i, t) in tables.iter().enumerate() {
        let id = TableIndex::from(i);
        out += &format!("Table {id:?}: {:?}\n", t.page_type);
        if matches!(t.page_type, PageType::Unknown(_)) && !all {
            out += "Skipping unknown table type, use --parse-unknown-tables to attempt parsing\n";
            continue;
        }
        let r = db.iter_pages_for_table(id).and_then(|mut it| {
            while let Some(page) = it.next()? {
                out += &format!("{page:?}\n");
                match &page.content {
                    PageContent::Data(d) => d.rows.values().for_each(|r| out += &format!("{r:?}\n")),
                    PageContent::Index(x) => {
                        out += &format!("{x:?}\n");
                        x.entries.iter().for_each(|e| out += &format!("{e:?}\n"));
                    }
                }
            }
            Ok(())
        });
        *errors += u64::from(r.is_err());
    }
    Ok(out)
}
fn check_pdb(c: &PdbCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.db.db.encode();
    mutate::apply(&mut b, &c.muts);
    let guess = match c.name.as_str() {
        "export.pdb" => Some(false),
        "exportExt.pdb" => Some(true),
        _ => None,
    };
    let mut cmd = vec!["dump-pdb"];
    if let Some(o) = c.opt {
        cmd.extend(["--db-type", if o { "ext" } else { "plain" }]);
    }
    if c.unknown {
        cmd.push("--parse-unknown-tables");
    }
    let o = run(ctx, &cmd, &c.name, &b, &c.place)?;
    let Some(ext) = c.opt.or(guess) else {
        ctx.tag("kind unknown");
        return unknown(&o);
    };
    let ty = if ext { DatabaseType::Ext } else { DatabaseType::Plain };
    let mut errors = 0;
    let want = dump(&b, ty, c.unknown, &mut errors);
    let shown = want.is_ok() && !matches!(c.place, Place::Missing | Place::Directory);
    judge(&o, want, &c.place, ctx)?;
    let mismatch = c.opt.is_some_and(|o| guess.is_some_and(|g| g != o));
    if shown && errors > 0 {
        ctx.tag("table with errors");
        if o.stderr.is_empty() {
            return Err("a table that cannot be read is not reported".into());
        }
    }
    if shown && errors == 0 && !mismatch && !o.stderr.is_empty() {
        return Err(format!("without any problem, a message is given: {}", o.err()));
    }
    if mismatch && o.stderr.is_empty() {
        return Err("no warning about an option that contradicts the file name".into());
    }
    Ok(())
}

// ---- listings

#[derive(Debug, Hash)]
struct ListCase {
    x: Export,
    muts: Vec<Mut>,
    export: bool,
    /// More levels than can be shown.
    nested: bool,
    place: Place,
}
fn name(s: &mut Src) -> dsql::Str {
    dsql::any(s, 10)
}
fn gen_list(s: &mut Src) -> ListCase {
    let nested = s.chance(1, 60);
    let x = if nested {
        let n = s.usize(500, 3000) as u32;
        c14::chain(s, n)
    } else {
        let mut x = export::gen(s, &Names { node: name, path: name }, 8);
        x.build(s);
        x
    };
    let n = x.bytes().len();
    let hot: Vec<usize> = x.db.as_ref().map(|db| c16::hot(&AnyDb { ext: false, db: db.clone() })).unwrap_or_default();
    ListCase { nested, muts: if nested || s.chance(1, 4) { vec![] } else { mutate::gen(s, n, &hot) }, export: s.bool(), place: place(s), x }
}
/// Whether everything a listing needs can be read.
fn listable(b: &[u8], export: bool) -> Result<(), String> {
    let e = |e: rekordcrate::Error| e.to_string();
    let mut db = Database::open_non_persistent(Cursor::new(b), DatabaseType::Plain).map_err(e)?;
    db.iter_rows::<p::PlaylistTreeNode>().map_err(e)?.count().map_err(e)?;
    db.iter_rows::<p::PlaylistEntry>().map_err(e)?.count().map_err(e)?;
    if export {
        rekordcrate::device::get_playlists(&mut db).map_err(e)?;
    } else {
        db.iter_rows::<p::Artist>().map_err(e)?.count().map_err(e)?;
    }
    let mut n = Ok(());
    db.iter_rows::<p::Track>()
        .map_err(e)?
        .for_each(|t| {
            if export {
                if let Err(x) = t.offsets.file_path.clone().into_string() {
                    n = Err(x.to_string());
                }
            }
            Ok(())
        })
        .map_err(e)?;
    n
}
fn check_list(c: &ListCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.x.bytes();
    mutate::apply(&mut b, &c.muts);
    let want = if c.nested { Ok(()) } else { listable(&b, c.export) };
    let o = if c.export {
        let io = |e: std::io::Error| format!("scratch: {e}");
        let dir = cli::scratch(ctx, "cliexp")?;
        let (dev, out) = (dir.join(if matches!(c.place, Place::Odd) { OsString::from_vec(b"d\xff v".to_vec()) } else { "dev".into() }), dir.join("out"));
        let sub = dev.join("PIONEER/rekordbox");
        std::fs::create_dir_all(&sub).map_err(io)?;
        std::fs::create_dir_all(&out).map_err(io)?;
        let f = sub.join("export.pdb");
        match c.place {
            Place::Missing => {}
            Place::Directory => std::fs::create_dir(&f).map_err(io)?,
            _ => std::fs::write(&f, &b).map_err(io)?,
        }
        let before = snapshot(&dev)?;
        for p in [&dev, &sub, &out, &f] {
            if p.exists() {
                cli::give(p)?;
            }
        }
        let o = cli::run(&["export-playlists".as_ref(), dev.as_os_str(), out.as_os_str()], &dir)?;
        if snapshot(&dev)? != before {
            return Err("the export changes the device folder".into());
        }
        std::fs::remove_dir_all(&dir).map_err(io)?;
        o
    } else {
        run(ctx, &["list-playlists"], "export.pdb", &b, &c.place)?
    };
    ctx.nt(!c.muts.is_empty());
    if matches!(c.place, Place::Missing | Place::Directory) {
        ctx.tag("no such file");
        return o.failure();
    }
    if c.nested {
        ctx.tag("folders in folders");
        return if o.code == Some(0) { o.success() } else { o.failure() };
    }
    match want {
        // The export may still be refused because names are too long for the file system.
        Ok(()) if c.export => {
            ctx.tag("exported");
            if o.code == Some(0) { o.success() } else { o.failure() }
        }
        Ok(()) => {
            ctx.tag("listed");
            o.success()
        }
        Err(_) => {
            ctx.tag("refused");
            o.failure()
        }
    }
}

#[derive(Debug, Hash)]
struct SettingsCase {
    files: Vec<(setting::File, Vec<Mut>, u8)>,
    name: u8,
}
fn gen_settings(s: &mut Src) -> SettingsCase {
    SettingsCase {
        files: (0..4)
            .map(|w| {
                let f = setting::gen_of(s, w);
                let n = f.encode().len();
                let m = mutations(s, n, &[0, 4, 100, 102, 104, 112]);
                (f, m, s.weighted(&[8, 2, 1]) as u8)
            })
            .collect(),
        name: c12::folder(s),
    }
}
fn check_settings(c: &SettingsCase, ctx: &mut Ctx) -> CheckResult {
    c12::quiet();
    let io = |e: std::io::Error| format!("scratch: {e}");
    let top = cli::scratch(ctx, "cliset")?;
    let dir = top.join(c12::folder_name(c.name));
    let sub = dir.join("PIONEER");
    std::fs::create_dir_all(&sub).map_err(io)?;
    for (f, m, st) in &c.files {
        let p = sub.join(f.layout().file);
        let mut b = f.encode();
        mutate::apply(&mut b, m);
        match st {
            0 => std::fs::write(&p, &b).map_err(io)?,
            1 => continue,
            _ => std::fs::create_dir(&p).map_err(io)?,
        }
        ctx.nt(m.is_empty());
        cli::give(&p)?;
    }
    cli::give(&dir)?;
    cli::give(&sub)?;
    let before = snapshot(&dir)?;
    let want = DeviceExportLoader::new(dir.clone()).load_settings().to_string();
    let o = cli::run(&["list-settings".as_ref(), dir.as_os_str()], &dir)?;
    if snapshot(&dir)? != before {
        return Err("the command changes files".into());
    }
    std::fs::remove_dir_all(&top).map_err(io)?;
    o.success()?;
    same(&o.out(), &want)
}

// ---- usage

#[derive(Debug, Hash)]
struct Usage {
    args: Vec<String>,
}
fn gen_usage(s: &mut Src) -> Usage {
    const CMDS: &[(&str, usize)] = &[("list-playlists", 1), ("list-settings", 1), ("export-playlists", 2), ("dump-anlz", 1), ("dump-pdb", 1), ("dump-setting", 1), ("dump-xml", 1)];
    let word = |s: &mut Src| -> String {
        match s.below(4) {
            0 => (*s.pick(&["Plain", "PLAIN", "plain ", "export", "ext2", "", "0", "mysetting3", "MYSETTING", "my-setting", "devsettings", "-", "="])).into(),
            _ => format!("w{}", export::line(s, 6).text().replace('\0', "_")),
        }
    };
    let (cmd, n) = *s.pick(CMDS);
    let mut args = vec![cmd.to_string()];
    match s.weighted(&[4, 4, 2, 2, 2, 1, 1]) {
        0 | 1 => {
            // An option value that is no type.
            let (c, o, known): (_, _, &[&str]) = if s.bool() { ("dump-pdb", "--db-type", &["plain", "ext"]) } else { ("dump-setting", "--setting-type", &["devsetting", "djmmysetting", "mysetting", "mysetting2"]) };
            let mut w = if s.chance(1, 4) { (*s.pick(&["plain", "ext", "mysetting", "devsetting"])).to_string() } else { word(s) };
            if known.contains(&w.as_str()) {
                w.push('x');
            }
            args = vec![c.into()];
            let file = if c == "dump-pdb" { "export.pdb" } else { "MYSETTING.DAT" };
            if s.bool() {
                args.extend([o.into(), w, file.into()]);
            } else {
                args.extend([file.into(), format!("{o}={w}")]);
            }
        }
        // Too few or too many operands.
        2 => args.extend((0..s.usize(0, n - 1)).map(|_| "export.pdb".to_string())),
        3 => args.extend((0..n + s.usize(1, 3)).map(|_| "export.pdb".to_string())),
        // Unknown options.
        4 => args.extend(vec![(*s.pick(&["--unknown", "-x", "--db-typo=plain", "--parse-unknown-table"])).to_string(), "export.pdb".into(), "out".into()][..=n].to_vec()),
        5 => args = vec![word(s), "export.pdb".into()],
        _ => args = vec![],
    }
    Usage { args }
}
/// Calls the tool does not understand are refused before anything is done.
fn check_usage(c: &Usage, ctx: &mut Ctx) -> CheckResult {
    let io = |e: std::io::Error| format!("scratch: {e}");
    let dir = cli::scratch(ctx, "cliuse")?;
    cli::give(&dir)?;
    for n in ["export.pdb", "MYSETTING.DAT"] {
        std::fs::write(dir.join(n), b"no such file").map_err(io)?;
    }
    let before = snapshot(&dir)?;
    let args: Vec<&OsStr> = c.args.iter().map(AsRef::as_ref).collect();
    let o = cli::run(&args, &dir)?;
    ctx.nt(true);
    o.failure()?;
    if !o.stdout.is_empty() {
        return Err(format!("refused, but with the output {:?}", o.out()));
    }
    if snapshot(&dir)? != before {
        return Err("the command changes files".into());
    }
    std::fs::remove_dir_all(&dir).map_err(io)
}

pub fn prop() -> Property {
    let rule = "the file is accepted and shown";
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "dump-anlz", rule, quick: 1_200, thorough: 40_000, gen: gen_anlz, check: check_anlz }),
        Box::new(G { name: "dump-setting", rule, quick: 1_200, thorough: 40_000, gen: gen_set, check: check_set }),
        Box::new(G { name: "dump-xml", rule, quick: 1_200, thorough: 40_000, gen: gen_xml, check: check_xml }),
        Box::new(G { name: "dump-pdb", rule, quick: 2_500, thorough: 100_000, gen: gen_pdb, check: check_pdb }),
        Box::new(G { name: "list-playlists", rule: "a corrupted database", quick: 1_500, thorough: 60_000, gen: gen_list, check: check_list }),
        Box::new(G { name: "playlists-listed", rule: "folders nested at least two levels deep", quick: 1_200, thorough: 40_000, gen: c14::gen_list, check: c14::check_list }),
        Box::new(G { name: "usage", rule: "every case", quick: 500, thorough: 10_000, gen: gen_usage, check: check_usage }),
        Box::new(G { name: "list-settings", rule: "at least one valid file", quick: 1_000, thorough: 30_000, gen: gen_settings, check: check_settings }),
    ];
    Property {
        id: "C20",
        level: "exploration",
        assumptions: &["the expected output is formatted from what the library decodes; C01 to C13 check the library"],
        groups: g,
        known: vec![],
        needs_cli: true,
    }
}
