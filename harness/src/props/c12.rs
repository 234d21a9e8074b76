//! Device settings.
use super::c11;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::setting::{self, File, ALL};
use crate::src::Src;
use rekordcrate::device::DeviceExportLoader;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;

#[derive(Debug, Hash)]
enum State {
    Missing,
    Valid,
    Cut(usize),
    Undefined(usize, u8),
    Garbage(Vec<u8>),
    Directory,
    OtherKind(File),
}

#[derive(Debug, Hash)]
struct Case {
    files: Vec<(File, State)>,
    no_folder: bool,
    extra: bool,
    /// Name of the device folder.
    name: u8,
}

fn gen(s: &mut Src) -> Case {
    let files = (0..4)
        .map(|w| {
            let f = setting::gen_of(s, w);
            let st = match s.weighted(&[5, 2, 1, 1, 1, 1, 1]) {
                0 => State::Valid,
                1 => State::Missing,
                2 => State::Cut(s.below(f.encode().len() as u64) as usize),
                3 => State::Undefined(s.below(f.layout().fields.len() as u64) as usize, s.u8()),
                4 => State::Garbage(s.list(0, 200, 20, |s| s.u8())),
                5 => State::Directory,
                _ => {
                    let o = (w + 1 + s.below(3) as usize) % 4;
                    State::OtherKind(setting::gen_of(s, o))
                }
            };
            (f, st)
        })
        .collect();
    Case { files, no_folder: s.chance(1, 30), extra: s.bool(), name: folder(s) }
}

/// Names a device folder can have.
const FOLDERS: &[&[u8]] = &[b"E", b"my device", b"export.pdb", b"PIONEER", b" \xc3\xa9\xe3\x81\x82", b"a\xff b", b"\xc3", b"-x", b"a\\b", b"...", b"\xed\xa0\x80"];
pub fn folder(s: &mut Src) -> u8 {
    if s.chance(3, 5) { 0 } else { s.below(FOLDERS.len() as u64) as u8 }
}
pub fn folder_name(i: u8) -> OsString {
    OsString::from_vec(FOLDERS[i as usize].to_vec())
}

/// Scratch folder of this worker thread.
pub fn scratch(ctx: &Ctx, name: &str) -> Result<PathBuf, String> {
    let base = std::env::var_os("VH_SCRATCH").map_or_else(|| std::env::temp_dir().join(format!("vh-{}", std::process::id())), PathBuf::from);
    let p = base.join(format!("{name}{}", ctx.thread));
    if p.exists() {
        std::fs::remove_dir_all(&p).map_err(|e| format!("scratch: {}: {e}", p.display()))?;
    }
    std::fs::create_dir_all(&p).map_err(|e| format!("scratch: {}: {e}", p.display()))?;
    Ok(p)
}

/// The loader warns on stderr about every file it cannot load.
pub fn quiet() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
            libc::close(fd);
        }
    });
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase()
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    quiet();
    let top = scratch(ctx, "dev")?;
    let dir = top.join(folder_name(c.name));
    let pio = dir.join("PIONEER");
    let io = |e: std::io::Error| format!("scratch: {e}");
    std::fs::create_dir(&dir).map_err(io)?;
    if !c.no_folder {
        std::fs::create_dir(&pio).map_err(io)?;
        for (f, st) in &c.files {
            let p = pio.join(f.layout().file);
            let bytes = match st {
                State::Missing => continue,
                State::Directory => {
                    std::fs::create_dir(&p).map_err(io)?;
                    continue;
                }
                State::Valid => f.encode(),
                State::Cut(n) => f.encode()[..*n].to_vec(),
                State::Undefined(i, v) => {
                    let d = &f.layout().fields[*i];
                    let mut data = f.data();
                    data[d.at] = if d.values.iter().any(|x| x.0 == *v) { 0x7f } else { *v };
                    f.encode_data(&data)
                }
                State::Garbage(b) => b.clone(),
                State::OtherKind(o) => o.encode(),
            };
            std::fs::write(&p, bytes).map_err(io)?;
        }
        if c.extra {
            std::fs::write(pio.join("djprofile.nxs"), b"x").map_err(io)?;
            std::fs::create_dir(pio.join("rekordbox")).map_err(io)?;
        }
    }
    let loader = DeviceExportLoader::new(dir.clone());
    if loader.get_path() != dir {
        return Err("the loader reports another path".into());
    }
    let s = loader.load_settings();
    let got = c11::device(&s);
    let text = s.to_string();
    let mut lines = std::collections::BTreeMap::new();
    for l in text.lines() {
        let (k, v) = l.split_once(':').ok_or_else(|| format!("settings line without a name: {l:?}"))?;
        if lines.insert(norm(k), v.trim().to_string()).is_some() {
            return Err(format!("setting listed twice: {k}"));
        }
    }
    let mut n = 0;
    for (f, st) in &c.files {
        let present = matches!(st, State::Valid) && !c.no_folder;
        n += u64::from(present);
        for (d, v) in f.layout().fields.iter().zip(&f.values) {
            let o = &got.iter().find(|o| o.0 == d.name).ok_or_else(|| format!("{} is missing", d.name))?.1;
            let line = lines.get(&norm(d.name));
            match (present, o) {
                (true, Some((variant, _))) => {
                    let (_, want, label) = d.values[*v];
                    if variant != want {
                        return Err(format!("{} of {} loads as {variant}, the file says {want}", d.name, f.layout().file));
                    }
                    if line.map(String::as_str) != Some(label) {
                        return Err(format!("{} is listed as {line:?}, expected {label:?}", d.name));
                    }
                }
                (true, None) => return Err(format!("{} of the valid {} is not loaded", d.name, f.layout().file)),
                (false, Some((variant, _))) => {
                    return Err(format!("{} is {variant} although {} is {st:?}", d.name, f.layout().file));
                }
                (false, None) => {
                    if line.map(String::as_str) != Some("<missing>") {
                        return Err(format!("{} is unset but listed as {line:?}", d.name));
                    }
                }
            }
        }
    }
    ctx.nt(n > 0);
    if n == 4 {
        ctx.tag("all four files valid");
    } else if n > 0 {
        ctx.tag("some files missing or damaged");
    }
    if ALL.len() != c.files.len() {
        return Err("case without all files".into());
    }
    std::fs::remove_dir_all(&top).map_err(io)
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> =
        vec![Box::new(G { name: "exports", rule: "at least one valid settings file", quick: 80_000, thorough: 2_400_000, gen, check })];
    Property {
        id: "C12",
        level: "exploration",
        assumptions: &["export folders are on a local file system; unreadable files are stood for by folders and truncated files"],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
