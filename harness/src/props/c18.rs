//! Robustness of settings and XML parsing.
use super::c11;
use super::c16::{format, format_to};
use crate::alloc::with_limit;
use crate::engine::{no_panic, CheckResult, Ctx, Group, Property, G};
use crate::model::mutate::{self, Mut};
use crate::model::setting::{self, ALL};
use crate::model::xml::{self, DocM, El, NodeM, Style, V};
use crate::sio::Shared;
use crate::src::{filler, Src};
use binrw::{BinRead, BinWrite};
use rekordcrate::setting::Setting;
use rekordcrate::xml::Document;
use std::io::{BufReader, Cursor};

// ---- settings

#[derive(Debug, Hash)]
struct SetCase {
    file: Option<setting::File>,
    muts: Vec<Mut>,
    raw: (usize, u64),
    which: usize,
}
fn gen_set(s: &mut Src) -> SetCase {
    let file = s.chance(7, 8).then(|| setting::gen(s));
    let (which, n) = file.as_ref().map_or((s.below(4) as usize, 0), |f| (f.which, f.encode().len()));
    let hot = [0usize, 2, 4, 34, 35, 36, 66, 67, 68, 98, 99, 100, 102, 104, 112, n.saturating_sub(4), n.saturating_sub(2)];
    let h = if s.bool() { &hot[..] } else { &[] };
    SetCase { muts: mutate::gen(s, n, h), raw: (if s.chance(1, 3) { s.usize(0, 300) } else { 0 }, s.below(1 << 20)), which: if s.chance(1, 6) { s.below(4) as usize } else { which }, file }
}
fn check_set(c: &SetCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = vec![];
    if let Some(f) = &c.file {
        b = f.encode();
        mutate::apply(&mut b, &c.muts);
    }
    b.extend(filler(c.raw.1, c.raw.0));
    ctx.nt(b.len() > 100);
    let dev = Shared::new(b.clone());
    let ops = 100_000 + 100 * b.len() as u64;
    dev.with(|d| d.max_ops = Some(ops));
    let (ok, _) = with_limit((1 << 20) + 64 * b.len(), || match Setting::read_args(&mut dev.clone(), (ALL[c.which].kind,)) {
        Ok(s) => {
            format(&s);
            let _ = c11::fields(&s.data);
            let _ = s.write(&mut Cursor::new(vec![]));
            true
        }
        Err(e) => {
            format(&e);
            let _ = e.to_string();
            false
        }
    });
    if dev.with(|d| d.over_budget && d.ops > ops) {
        return Err(format!("more than {ops} I/O operations for {} bytes", b.len()));
    }
    ctx.tag(if ok { "accepted" } else { "refused" });
    Ok(())
}

#[derive(Debug, Hash)]
struct TextCase {
    file: setting::File,
    texts: [Vec<u8>; 3],
}
fn gen_text(s: &mut Src) -> TextCase {
    let file = setting::gen(s);
    let texts = [0, 1, 2].map(|_| {
        let n = match s.below(4) {
            0 => s.usize(0, 31),
            1 => *s.pick(&[31usize, 32, 33, 30, 63, 64, 96, 255, 256, 65536 + 5]),
            2 => s.usize(0, 100),
            _ => 3,
        };
        if n > 100 {
            s.fill(n)
        } else {
            s.exact(n, |s| if s.chance(1, 20) { 0 } else { s.u8() })
        }
    });
    TextCase { file, texts }
}
fn check_text(c: &TextCase, ctx: &mut Ctx) -> CheckResult {
    let (mut a, _) = c11::try_read(&c.file.encode(), c.file.which)?;
    [&mut a.brand, &mut a.software, &mut a.version].into_iter().zip(&c.texts).for_each(|(f, t)| f.0.clone_from(t));
    let fits = c.texts.iter().all(|t| t.len() < 32);
    ctx.nt(!fits);
    let mut out = Cursor::new(vec![]);
    match no_panic(|| a.write(&mut out).map_err(|e| e.to_string()))? {
        Ok(()) if !fits => Err("texts that do not fit their fields are written without an error".into()),
        Err(e) if fits => Err(format!("texts that fit their fields are not written: {e}")),
        Ok(()) if out.get_ref().len() != c.file.encode().len() => Err(format!("{} bytes are written", out.get_ref().len())),
        _ => Ok(()),
    }
}

// ---- XML

/// What XML bytes do: true if they are accepted.
fn run(b: &[u8], ctx: &mut Ctx) -> CheckResult {
    // The stack is bounded too: parsing runs on a thread with 8 MiB.
    let heap = (16 << 20) + 200 * b.len();
    let doc = |ctx: &mut Ctx, d: Option<Document>| {
        match d {
            Some(d) => {
                ctx.tag("accepted");
                format_to(&d, 100_000);
                let (d2, _) = with_limit(heap, || {
                    let x = quick_xml::se::to_string(&d).unwrap_or_default();
                    quick_xml::de::from_str::<Document>(&x).ok()
                });
                format_to(&d2, 20_000);
            }
            None => ctx.tag("refused"),
        };
    };
    let (d, _) = with_limit(heap, || {
        quick_xml::de::from_reader::<_, Document>(BufReader::with_capacity(64, b)).map_err(|e| {
            format(&e);
            e.to_string()
        })
    });
    doc(ctx, d.ok());
    if let Ok(t) = std::str::from_utf8(b) {
        let (d, _) = with_limit(heap, || quick_xml::de::from_str::<Document>(t).ok());
        doc(ctx, d);
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct XmlCase {
    doc: DocM,
    style: u64,
    muts: Vec<Mut>,
    splices: Vec<(usize, &'static str)>,
}
const BITS: &[&str] = &[
    "<", ">", "/>", "</NODE>", "<NODE", "<NODE Type=\"0\" Name=\"\" Count=\"1\">", "<NODE Type='1' Name='' KeyType='0' Entries='0'>", "<TRACK", "<TRACK Key=\"1\"/>",
    "<![CDATA[", "]]>", "<!--", "-->", "<?xml ?>", "<?", "?>", "<!DOCTYPE a [<!ENTITY x \"yyyyyyyy\">]>", "&x;", "&amp;", "&#0;", "&#x110000;", "&#xd800;", "&", "\"", "'", "=",
    " Count=\"-1\"", " Entries=\"99999999999999999999\"", " Type=\"0\"", " Type=\"2\"", " Name=\"\"", " TrackID=\"x\"", "\0", "\u{feff}", "xsi:nil=\"true\"", " xmlns:a=\"b\"", "<TEMPO/>",
    "<POSITION_MARK/>", "NaN", "inf", "-", "1e999", "text", "<X>", "</X>", "<PLAYLISTS>", "</COLLECTION>", "<COLLECTION Entries=\"0\">",
];
fn gen_xml(s: &mut Src) -> XmlCase {
    let doc = xml::gen(s);
    let n = Style::new(0).document(&doc.tree()).len();
    let muts = if s.bool() { mutate::gen(s, n, &[]) } else { vec![] };
    XmlCase { doc, style: s.below(1 << 32), muts, splices: s.list(0, 6, 1, |s| (s.below(n as u64 + 1) as usize, *s.pick(BITS))) }
}
fn check_xml(c: &XmlCase, ctx: &mut Ctx) -> CheckResult {
    let mut b = Style::new(c.style).document(&c.doc.tree()).into_bytes();
    for (at, t) in &c.splices {
        // Mostly where markup begins or ends.
        let at = (*at..b.len()).find(|i| matches!(b[*i], b'<' | b' ' | b'"')).unwrap_or(b.len());
        b.splice(at..at, t.bytes());
    }
    mutate::apply(&mut b, &c.muts);
    ctx.nt(!c.muts.is_empty() || !c.splices.is_empty());
    run(&b, ctx)
}

/// Elements and attributes in any arrangement.
#[derive(Debug, Hash)]
struct TreeCase {
    doc: DocM,
    edits: Vec<(u8, usize, usize, String)>,
    style: u64,
}
fn gen_tree(s: &mut Src) -> TreeCase {
    let doc = xml::gen(s);
    TreeCase { doc, edits: s.list(1, 6, 2, |s| (s.below(8) as u8, s.below(64) as usize, s.below(64) as usize, xml::text(s))), style: s.below(1 << 32) }
}
fn nth(e: &mut El, n: &mut usize, f: &mut dyn FnMut(&mut El)) -> bool {
    if *n == 0 {
        f(e);
        return true;
    }
    *n -= 1;
    e.kids.iter_mut().any(|k| nth(k, n, f))
}
fn size(e: &El) -> usize {
    1 + e.kids.iter().map(size).sum::<usize>()
}
fn check_tree(c: &TreeCase, ctx: &mut Ctx) -> CheckResult {
    let mut t = c.doc.tree();
    for (op, a, b, text) in &c.edits {
        let n = size(&t);
        let mut other = None;
        nth(&mut t, &mut (b % n), &mut |e| other = Some(e.clone()));
        let Some(other) = other else { continue };
        nth(&mut t, &mut (a % n), &mut |e| {
            let key = e.attrs.keys().nth(b % e.attrs.len().max(1)).cloned();
            match op {
                0 => drop(key.and_then(|k| e.attrs.remove(&k))),
                1 => drop(key.map(|k| e.attrs.insert(k, V::T(text.clone())))),
                2 => drop(e.attrs.insert((*["Type", "Name", "Count", "Entries", "KeyType", "Key", "Other", "TrackID"].get(b % 8).unwrap_or(&"x")).into(), V::T(text.clone()))),
                3 if n < 2000 => e.kids.push(other.clone()),
                4 => drop(e.kids.pop()),
                5 => e.name.clone_from(&other.name),
                6 if n < 2000 => {
                    let k = e.kids.clone();
                    e.kids.extend(k);
                }
                _ => e.attrs.clone_from(&other.attrs),
            }
        });
    }
    ctx.nt(true);
    run(Style::new(c.style).document(&t).as_bytes(), ctx)
}

/// Deeply nested or long documents.
#[derive(Debug, Hash)]
struct DeepCase {
    doc: DocM,
    depth: usize,
    what: u8,
    close: bool,
}
fn gen_deep(s: &mut Src) -> DeepCase {
    let depth = match s.below(3) {
        0 => s.usize(1, 300),
        1 => s.usize(1, 5000),
        _ => *s.pick(&[20_000usize, 1000, 127, 128, 129, 50_000]),
    };
    let mut doc = xml::gen(s);
    if !matches!(doc.root.1.last(), Some(NodeM::Playlist { .. })) {
        doc.root.1.push(NodeM::Playlist { name: "p".into(), keytype: "0".into(), keys: vec![1] });
    }
    DeepCase { doc, depth, what: s.below(8) as u8, close: s.chance(3, 4) }
}
fn check_deep(c: &DeepCase, ctx: &mut Ctx) -> CheckResult {
    let base = Style::new(0).document(&c.doc.tree());
    let n = c.depth;
    let (at, open, close) = match c.what {
        0..=2 => ("</NODE></PLAYLISTS>", "<NODE Type=\"0\" Name=\"x\" Count=\"1\">", "</NODE>"),
        3 => ("</PLAYLISTS>", "<X>", "</X>"),
        4 => ("</COLLECTION>", "<TRACK TrackID=\"1\" Location=\"\">", "</TRACK>"),
        5 => ("<COLLECTION", "<X>", "</X>"),
        6 => ("</COLLECTION>", "<TRACK TrackID=\"1\" Location=\"\"/>", ""),
        _ => ("</NODE></PLAYLISTS>", "<NODE Type=\"1\" Name=\"x\" KeyType=\"0\" Entries=\"1\"><TRACK Key=\"1\"/>", "</NODE>"),
    };
    // The plain style closes an element without children itself.
    let Some(i) = base.rfind(at) else {
        ctx.tag("no place");
        return Ok(());
    };
    let mut x = base[..i].to_string();
    x += &open.repeat(n);
    if c.close {
        x += &close.repeat(n);
        x += &base[i..];
    }
    ctx.nt(n > 100);
    run(x.as_bytes(), ctx)
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "settings", rule: "at least 100 bytes", quick: 150_000, thorough: 5_000_000, gen: gen_set, check: check_set }),
        Box::new(G { name: "setting-texts", rule: "a text does not fit its field", quick: 60_000, thorough: 2_000_000, gen: gen_text, check: check_text }),
        Box::new(G { name: "xml-bytes", rule: "the document is changed", quick: 30_000, thorough: 2_000_000, gen: gen_xml, check: check_xml }),
        Box::new(G { name: "xml-trees", rule: "every case", quick: 30_000, thorough: 2_000_000, gen: gen_tree, check: check_tree }),
        Box::new(G { name: "xml-deep", rule: "nested or repeated more than 100 times", quick: 600, thorough: 20_000, gen: gen_deep, check: check_deep }),
    ];
    Property {
        id: "C18",
        level: "exploration",
        assumptions: &[
            "memory: 1 MiB plus 64 bytes per byte of settings, 16 MiB plus 200 bytes per byte of XML and the stack of a harness thread; 40 s of CPU time",
            "integer overflow counts as a panic (the harness is built with overflow checks)",
        ],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
