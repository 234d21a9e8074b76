//! Analysis files: values and rewriting.
use super::c04::eq;
use crate::dbg;
use crate::engine::{CheckResult, Ctx, Group, Property, G};
use crate::model::anlz::{self, CueM, ExtM, File, Sec, Song};
use crate::src::Src;
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz as a;
use std::io::Cursor;

pub fn read(bytes: &[u8]) -> Result<a::ANLZ, String> {
    let mut c = Cursor::new(bytes);
    let f = a::ANLZ::read(&mut c).map_err(|e| format!("well-formed file is refused: {e}"))?;
    eq("position after reading", c.position(), bytes.len() as u64)?;
    Ok(f)
}

pub fn write(f: &a::ANLZ) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    f.write(&mut c).map_err(|e| format!("writing a decoded file failed: {e}"))?;
    Ok(c.into_inner())
}

pub fn same_bytes(what: &str, got: &[u8], want: &[u8]) -> CheckResult {
    if let Some(i) = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]) {
        return Err(format!("{what}: byte {i:#x} is {:#04x}, expected {:#04x}", got[i], want[i]));
    }
    eq(&format!("{what}: length"), got.len(), want.len())
}

const COLORS: [&str; 9] = ["None", "Pink", "Red", "Orange", "Yellow", "Green", "Aqua", "Blue", "Purple"];
const BANKS: [&str; 9] = ["Default", "Cool", "Natural", "Hot", "Subtle", "Warm", "Vivid", "Club1", "Club2"];

fn cue(w: &str, c: &a::Cue, m: &CueM) -> CheckResult {
    eq(&format!("{w} header kind"), &c.header.kind, &a::ContentKind::Cue)?;
    eq(&format!("{w} header sizes"), (c.header.size, c.header.total_size), (m.head_size, 56))?;
    eq(
        &format!("{w} (hot_cue, status, order_first, order_last, time, loop_time)"),
        (c.hot_cue, c.status, c.order_first, c.order_last, c.time, c.loop_time),
        (m.hot_cue, m.status, m.order_first, m.order_last, m.time, m.loop_time),
    )?;
    eq(&format!("{w} cue_type"), &c.cue_type, if m.looped { &a::CueType::Loop } else { &a::CueType::Point })
}

fn ext_cue(w: &str, c: &a::ExtendedCue, m: &ExtM) -> CheckResult {
    eq(&format!("{w} header kind"), &c.header.kind, &a::ContentKind::ExtendedCue)?;
    eq(&format!("{w} header sizes"), (c.header.size, c.header.total_size), (m.head_size, m.total()))?;
    eq(
        &format!("{w} (hot_cue, time, loop_time, loop_numerator, loop_denominator, hot_cue_color_index, rgb)"),
        (c.hot_cue, c.time, c.loop_time, c.loop_numerator, c.loop_denominator, c.hot_cue_color_index, c.hot_cue_color_rgb),
        (m.hot_cue, m.time, m.loop_time, m.num, m.den, m.color_index, m.rgb),
    )?;
    eq(&format!("{w} cue_type"), &c.cue_type, if m.looped { &a::CueType::Loop } else { &a::CueType::Point })?;
    eq(&format!("{w} color"), format!("{:?}", c.color).as_str(), COLORS[usize::from(m.color)])?;
    eq(&format!("{w} comment"), c.comment.0.as_str(), m.comment.as_str())?;
    eq(&format!("{w} byte_len"), c.comment.byte_len() as usize, m.comment_bytes().len())?;
    eq(&format!("{w} trailing"), &c.trailing, &m.trailing)
}

/// The song structure's data is private; it is observed by name through its Debug form.
pub fn song(w: &str, c: &a::SongStructure, m: &Song, ctx: &mut Ctx) -> CheckResult {
    let text = format!("{c:?}");
    let Some(d) = dbg::parse(&text) else { return Ok(()) };
    let mut want: Vec<(String, String)> = vec![
        ("is_encrypted".into(), m.encrypted.to_string()),
        ("data.mood".into(), ["", "High", "Mid", "Low"][usize::from(m.mood)].into()),
        ("data.end_beat".into(), m.end_beat.to_string()),
        ("data.bank".into(), BANKS[usize::from(m.bank)].into()),
    ];
    for (i, p) in m.phrases.iter().enumerate() {
        let w = |o: usize| u16::from_be_bytes([p[o], p[o + 1]]).to_string();
        for (n, v) in [
            ("index", w(0)),
            ("beat", w(2)),
            ("kind", w(4)),
            ("k1", p[7].to_string()),
            ("k2", p[9].to_string()),
            ("b", p[11].to_string()),
            ("beat2", w(12)),
            ("beat3", w(14)),
            ("beat4", w(16)),
            ("k3", p[19].to_string()),
            ("fill", p[21].to_string()),
            ("beat_fill", w(22)),
        ] {
            want.push((format!("data.phrases.{i}.{n}"), v));
        }
    }
    let n = dbg::compare(&d, &want).map_err(|e| format!("{w}: {e}"))?;
    if let Some(dbg::D::List(l)) = d.get("data.phrases") {
        eq(&format!("{w} phrases"), l.len(), m.phrases.len())?;
    }
    if n == want.len() {
        ctx.tag("song structure fully observed");
    }
    Ok(())
}

fn previews(w: &str, got: &[a::WaveformPreviewColumn], m: &[u8]) -> CheckResult {
    eq(&format!("{w} columns"), got.len(), m.len())?;
    for (i, (g, b)) in got.iter().zip(m).enumerate() {
        if (g.height(), g.whiteness()) != (b & 31, b >> 5) {
            return Err(format!("{w} column {i}: byte {b:#x} decodes to height {}, whiteness {}", g.height(), g.whiteness()));
        }
    }
    Ok(())
}

pub fn section(i: usize, s: &a::Section, m: &Sec, ctx: &mut Ctx) -> CheckResult {
    use a::Content as C;
    let w = format!("section {i}");
    let enc = m.encode();
    let word = |o: usize| u32::from_be_bytes([enc[o], enc[o + 1], enc[o + 2], enc[o + 3]]);
    eq(&format!("{w} header sizes"), (s.header.size, s.header.total_size), (word(4), word(8)))?;
    let kind = |k: a::ContentKind| eq(&format!("{w} kind"), &s.header.kind, &k);
    match (&s.content, m) {
        (C::BeatGrid(g), Sec::Beats { beats, .. }) => {
            ctx.tag("beat grid");
            kind(a::ContentKind::BeatGrid)?;
            let got: Vec<_> = g.beats.iter().map(|b| (b.beat_number, b.tempo, b.time)).collect();
            eq(&format!("{w} beats"), &got, beats)
        }
        (C::CueList(l), Sec::Cues { hot, cues, .. }) => {
            ctx.tag("cue list");
            kind(a::ContentKind::CueList)?;
            eq(&format!("{w} list type"), &l.list_type, if *hot { &a::CueListType::HotCues } else { &a::CueListType::MemoryCues })?;
            eq(&format!("{w} cues"), l.cues.len(), cues.len())?;
            l.cues.iter().zip(cues).enumerate().try_for_each(|(k, (c, m))| cue(&format!("{w} cue {k}"), c, m))
        }
        (C::ExtendedCueList(l), Sec::ExtCues { hot, cues }) => {
            ctx.tag("extended cue list");
            kind(a::ContentKind::ExtendedCueList)?;
            eq(&format!("{w} list type"), &l.list_type, if *hot { &a::CueListType::HotCues } else { &a::CueListType::MemoryCues })?;
            eq(&format!("{w} cues"), l.cues.len(), cues.len())?;
            l.cues.iter().zip(cues).enumerate().try_for_each(|(k, (c, m))| ext_cue(&format!("{w} cue {k}"), c, m))
        }
        (C::Path(p), Sec::Path(t)) => {
            ctx.tag("path");
            kind(a::ContentKind::Path)?;
            let want: Vec<u16> = t.encode_utf16().collect();
            eq(&format!("{w} path units"), &p.path.0, &want)?;
            eq(&format!("{w} path"), p.path.to_string(), t.clone())
        }
        (C::VBR(_), Sec::Vbr { .. }) => {
            ctx.tag("vbr");
            kind(a::ContentKind::VBR)
        }
        (C::WaveformPreview(p), Sec::Preview { data, .. }) => {
            ctx.tag("preview");
            kind(a::ContentKind::WaveformPreview)?;
            previews(&w, &p.data, data)
        }
        (C::WaveformDetail(p), Sec::Detail(data)) => {
            ctx.tag("detail");
            kind(a::ContentKind::WaveformDetail)?;
            previews(&w, &p.data, data)
        }
        (C::TinyWaveformPreview(p), Sec::Tiny { data, .. }) => {
            ctx.tag("tiny preview");
            kind(a::ContentKind::TinyWaveformPreview)?;
            let got: Vec<u8> = p.data.iter().map(a::TinyWaveformPreviewColumn::height).collect();
            let want: Vec<u8> = data.iter().map(|b| b & 15).collect();
            eq(&format!("{w} heights"), &got, &want)
        }
        (C::WaveformColorPreview(p), Sec::ColorPreview { data, .. }) => {
            ctx.tag("color preview");
            kind(a::ContentKind::WaveformColorPreview)?;
            let got: Vec<_> = p
                .data
                .iter()
                .map(|c| [c.energy_bottom_half_freq, c.energy_bottom_third_freq, c.energy_mid_third_freq, c.energy_top_third_freq])
                .collect();
            let want: Vec<_> = data.iter().map(|c| [c[2], c[3], c[4], c[5]]).collect();
            eq(&format!("{w} energies"), &got, &want)
        }
        (C::WaveformColorDetail(p), Sec::ColorDetail { data, .. }) => {
            ctx.tag("color detail");
            kind(a::ContentKind::WaveformColorDetail)?;
            let got: Vec<_> = p.data.iter().map(|c| (c.red(), c.green(), c.blue(), c.height())).collect();
            let bits = |v: u16, at: u32, n: u32| ((v >> at) & ((1 << n) - 1)) as u8;
            let want: Vec<_> = data.iter().map(|&v| (bits(v, 13, 3), bits(v, 10, 3), bits(v, 7, 3), bits(v, 2, 5))).collect();
            eq(&format!("{w} (red, green, blue, height)"), &got, &want)
        }
        (C::Waveform3BandPreview(p), Sec::BandPreview(data)) => {
            ctx.tag("3-band preview");
            kind(a::ContentKind::Waveform3BandPreview)?;
            let got: Vec<_> =
                p.data.iter().map(|c| [c.energy_mid_third_freq, c.energy_top_third_freq, c.energy_bottom_third_freq]).collect();
            eq(&format!("{w} energies"), &got, data)
        }
        (C::Waveform3BandDetail(p), Sec::BandDetail(data)) => {
            ctx.tag("3-band detail");
            kind(a::ContentKind::Waveform3BandDetail)?;
            let got: Vec<_> =
                p.data.iter().map(|c| [c.energy_mid_third_freq, c.energy_top_third_freq, c.energy_bottom_third_freq]).collect();
            eq(&format!("{w} energies"), &got, data)
        }
        (C::SongStructure(c), Sec::Song(m)) => {
            ctx.tag("song structure");
            kind(a::ContentKind::SongStructure)?;
            if m.phrases.len() <= 60 {
                song(&w, c, m, ctx)?;
            }
            Ok(())
        }
        (C::Unknown(_), Sec::Unknown { tag, .. }) => {
            ctx.tag("unknown section");
            kind(a::ContentKind::Unknown(*tag))
        }
        (got, m) => Err(format!("{w}: decoded as {:.60}, stored {:.60}", format!("{got:?}"), format!("{m:?}"))),
    }
}

pub fn compare(f: &a::ANLZ, m: &File, ctx: &mut Ctx) -> CheckResult {
    eq("file kind", &f.header.kind, &a::ContentKind::File)?;
    eq("file header size", f.header.size as usize, 12 + m.head.len())?;
    eq("file header data", &f.header_data, &m.head)?;
    eq("sections", f.sections.len(), m.secs.len())?;
    f.sections.iter().zip(&m.secs).enumerate().try_for_each(|(i, (s, m))| section(i, s, m, ctx))
}

fn check(m: &File, ctx: &mut Ctx) -> CheckResult {
    let bytes = m.encode();
    let f = read(&bytes)?;
    ctx.nt(!m.secs.is_empty());
    compare(&f, m, ctx)?;
    same_bytes("rewritten file", &write(&f)?, &bytes)?;
    // In the middle of another stream, at any position.
    let pre = bytes.len() % 7;
    let mut all = vec![0xaa; pre];
    all.extend_from_slice(&bytes);
    all.extend_from_slice(&[0xbb; 5]);
    let mut c = Cursor::new(&all[..]);
    c.set_position(pre as u64);
    let g = a::ANLZ::read(&mut c).map_err(|e| format!("refused at offset {pre}: {e}"))?;
    eq("position after reading at an offset", c.position(), (pre + bytes.len()) as u64)?;
    if g != f {
        return Err(format!("decodes differently at offset {pre}"));
    }
    let mut c = Cursor::new(vec![0xcc; pre + bytes.len() + 3]);
    c.set_position(pre as u64);
    f.write(&mut c).map_err(|e| format!("writing at offset {pre} failed: {e}"))?;
    let out = c.into_inner();
    same_bytes("file written at an offset", &out[pre..pre + bytes.len()], &bytes)?;
    if out[..pre].iter().chain(&out[pre + bytes.len()..]).any(|b| *b != 0xcc) {
        return Err("writing changed bytes around the file".into());
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct Edit {
    file: File,
    edits: Vec<(usize, u8, usize, u32, String, CueM, ExtM)>,
}

fn gen_edit(s: &mut Src) -> Edit {
    let file = File { head: s.fill(16), secs: s.list(1, 6, 3, anlz::sec) };
    let edits = s.list(1, 8, 3, |s| {
        (s.below(6) as usize, s.below(8) as u8, s.below(50) as usize, s.u32(), anlz::text(s, 40), anlz::cue(s), anlz::ext_cue(s))
    });
    Edit { file, edits }
}

fn lib_cue(m: &CueM) -> Result<a::Cue, String> {
    a::Cue::read(&mut Cursor::new(m.encode())).map_err(|e| format!("well-formed cue is refused: {e}"))
}
fn lib_ext(m: &ExtM) -> Result<a::ExtendedCue, String> {
    a::ExtendedCue::read(&mut Cursor::new(m.encode())).map_err(|e| format!("well-formed extended cue is refused: {e}"))
}

/// Edits through the public fields end up in the file, and nothing else changes.
fn check_edit(e: &Edit, ctx: &mut Ctx) -> CheckResult {
    use a::Content as C;
    let mut m = e.file.clone();
    let mut f = read(&m.encode())?;
    let mut done = 0;
    for (si, op, k, v, text, cue, ext) in &e.edits {
        let n = m.secs.len();
        let (si, k, v) = (si % n, *k, *v);
        done += 1;
        if *op == 7 && n > 1 {
            m.secs.swap(si, k % n);
            f.sections.swap(si, k % n);
            continue;
        }
        match (&mut f.sections[si].content, &mut m.secs[si]) {
            (C::BeatGrid(g), Sec::Beats { beats, .. }) => {
                if beats.is_empty() || op % 4 == 0 {
                    g.beats.push(a::Beat { beat_number: v as u16, tempo: (v >> 8) as u16, time: v });
                    beats.push((v as u16, (v >> 8) as u16, v));
                } else if op % 4 == 1 {
                    let k = k % beats.len();
                    g.beats.remove(k);
                    beats.remove(k);
                } else {
                    let k = k % beats.len();
                    g.beats[k].tempo = v as u16;
                    g.beats[k].time = !v;
                    beats[k] = (beats[k].0, v as u16, !v);
                }
            }
            (C::CueList(l), Sec::Cues { hot, cues, .. }) => match op % 3 {
                0 => {
                    l.cues.insert(k % (cues.len() + 1), lib_cue(cue)?);
                    cues.insert(k % (cues.len() + 1), cue.clone());
                }
                1 => {
                    l.list_type = if *hot { a::CueListType::MemoryCues } else { a::CueListType::HotCues };
                    *hot = !*hot;
                }
                _ => {
                    if let Some(c) = cues.first_mut() {
                        l.cues[0].time = v;
                        c.time = v;
                        l.cues[0].hot_cue = v >> 3;
                        c.hot_cue = v >> 3;
                        l.cues[0].cue_type = a::CueType::Loop;
                        c.looped = true;
                    }
                }
            },
            (C::ExtendedCueList(l), Sec::ExtCues { cues, .. }) => match op % 3 {
                0 => {
                    l.cues.insert(k % (cues.len() + 1), lib_ext(ext)?);
                    cues.insert(k % (cues.len() + 1), ext.clone());
                }
                1 => {
                    l.cues.truncate(k % 4);
                    cues.truncate(k % 4);
                }
                _ => {
                    if let Some(c) = cues.last_mut() {
                        let x = l.cues.last_mut().ok_or("cue is missing")?;
                        c.comment.clone_from(text);
                        x.comment = text.as_str().into();
                        x.header.total_size = c.total();
                        c.rgb = (v as u8, (v >> 8) as u8, (v >> 16) as u8);
                        x.hot_cue_color_rgb = c.rgb;
                        c.loop_time = v;
                        x.loop_time = v;
                    }
                }
            },
            (C::Path(p), Sec::Path(t)) => {
                p.path = text.as_str().into();
                t.clone_from(text);
            }
            (C::WaveformPreview(a::WaveformPreview { data: g, .. }), Sec::Preview { data, .. })
            | (C::WaveformDetail(a::WaveformDetail { data: g, .. }), Sec::Detail(data)) => {
                let b = v as u8;
                let col = a::WaveformPreviewColumn::new().with_height(b & 31).with_whiteness(b >> 5);
                if data.is_empty() || op % 2 == 0 {
                    g.push(col);
                    data.push(b);
                } else {
                    let k = k % data.len();
                    g[k] = col;
                    data[k] = b;
                }
            }
            (C::TinyWaveformPreview(g), Sec::Tiny { data, .. }) => {
                let col = a::TinyWaveformPreviewColumn::new().with_height(v as u8 & 15);
                g.data.push(col);
                data.push(v as u8 & 15);
            }
            (C::WaveformColorDetail(g), Sec::ColorDetail { data, .. }) => {
                let w = v as u16 & !3;
                let col = a::WaveformColorDetailColumn::new()
                    .with_red((w >> 13) as u8)
                    .with_green((w >> 10) as u8 & 7)
                    .with_blue((w >> 7) as u8 & 7)
                    .with_height((w >> 2) as u8 & 31);
                if data.is_empty() || op % 2 == 0 {
                    g.data.insert(0, col);
                    data.insert(0, w);
                } else {
                    // Only the height changes; the stored unknown bits stay.
                    let k = k % data.len();
                    g.data[k].set_height((w >> 2) as u8 & 31);
                    data[k] = (data[k] & !0x7c) | (w & 0x7c);
                }
            }
            (C::Waveform3BandPreview(g), Sec::BandPreview(data)) => {
                let [_, x, y, z] = v.to_be_bytes();
                g.data.push(a::Waveform3BandPreviewColumn {
                    energy_mid_third_freq: x,
                    energy_top_third_freq: y,
                    energy_bottom_third_freq: z,
                });
                data.push([x, y, z]);
            }
            (C::Waveform3BandDetail(g), Sec::BandDetail(data)) => {
                let [_, x, y, z] = v.to_be_bytes();
                g.data.push(a::Waveform3BandDetailColumn {
                    energy_mid_third_freq: x,
                    energy_top_third_freq: y,
                    energy_bottom_third_freq: z,
                });
                data.push([x, y, z]);
            }
            (C::WaveformColorPreview(g), Sec::ColorPreview { data, .. }) => {
                if let Some(c) = data.first_mut() {
                    g.data[0].energy_top_third_freq = v as u8;
                    c[5] = v as u8;
                    g.data[0].energy_bottom_half_freq = (v >> 8) as u8;
                    c[2] = (v >> 8) as u8;
                }
            }
            _ => done -= 1,
        }
    }
    ctx.nt(done > 0);
    // The sizes in the section headers are fields of their own.
    for (s, m) in f.sections.iter_mut().zip(&m.secs) {
        s.header.total_size = m.encode().len() as u32;
    }
    let want = m.encode();
    f.header.total_size = want.len() as u32;
    let out = write(&f)?;
    same_bytes("edited file", &out, &want)?;
    let back = read(&out)?;
    compare(&back, &m, ctx)?;
    if back != f {
        return Err("the edited file reads back different".into());
    }
    Ok(())
}

#[derive(Debug, Hash)]
struct Long {
    n: usize,
    ext: bool,
    comment: usize,
}
fn gen_long(s: &mut Src) -> Long {
    Long { n: s.usize(65520, 65550), ext: s.bool(), comment: s.usize(0, 2) }
}
/// Cue lists around the limit of their 16-bit count.
fn check_long(l: &Long, ctx: &mut Ctx) -> CheckResult {
    ctx.nt(true);
    let mut z = Src::replay(vec![]);
    let mut e = anlz::ext_cue(&mut z);
    e.comment = "x".repeat(l.comment);
    let c = anlz::cue(&mut z);
    let m = |n| Sec::ExtCues { hot: false, cues: vec![e.clone(); n] };
    let mc = |n| Sec::Cues { hot: false, unknown: 0, memory: 0, cues: vec![c.clone(); n] };
    let one = File { head: vec![], secs: vec![if l.ext { m(1) } else { mc(1) }] };
    let mut f = read(&one.encode())?;
    match &mut f.sections[0].content {
        a::Content::ExtendedCueList(x) => x.cues = (0..l.n).map(|_| lib_ext(&e)).collect::<Result<_, _>>()?,
        a::Content::CueList(x) => x.cues = (0..l.n).map(|_| lib_cue(&c)).collect::<Result<_, _>>()?,
        _ => return Err("wrong section".into()),
    }
    let want = File { head: vec![], secs: vec![if l.ext { m(l.n.min(65535)) } else { mc(l.n.min(65535)) }] }.encode();
    f.sections[0].header.total_size = want.len() as u32 - 12;
    f.header.total_size = want.len() as u32;
    let mut out = Cursor::new(vec![]);
    match f.write(&mut out) {
        Ok(()) if l.n > 65535 => Err(format!("{} cues were written although the count field holds 65535", l.n)),
        Ok(()) => same_bytes("long cue list", &out.into_inner(), &want),
        Err(e) if l.n <= 65535 => Err(format!("{} cues were refused: {e}", l.n)),
        Err(_) => Ok(()),
    }
}

#[derive(Debug, Hash)]
enum Wrong {
    /// Another length or count in a 32-bit (or, for song structures, 16-bit) field.
    Value { at: usize, wide: bool, to: u32 },
    /// A text that ends before the section does.
    Nul(usize),
    Tag(&'static [u8; 4]),
    FileTag([u8; 4]),
}
#[derive(Debug, Hash)]
struct Contra {
    f: File,
    k: usize,
    wrong: Wrong,
}
/// A section whose own lengths contradict its size.
fn gen_contra(s: &mut Src) -> Contra {
    let mut f = anlz::file(s);
    let own = |x: &Sec| !matches!(x, Sec::Beats { .. } | Sec::Cues { .. } | Sec::ExtCues { .. } | Sec::Vbr { .. } | Sec::Unknown { .. });
    let k = match f.secs.iter().position(own) {
        Some(k) => k,
        None => {
            let k = s.usize(0, f.secs.len());
            f.secs.insert(k, if s.bool() { Sec::Detail(vec![3, 4]) } else { Sec::Path("/a".into()) });
            k
        }
    };
    let other = |s: &mut Src, v: u32| {
        let d = if s.bool() { 1 } else { 1 + s.below(300) as u32 };
        match s.weighted(&[4, 4, 1, 1, 1]) {
            0 => v.wrapping_add(d),
            1 if v >= d => v - d,
            2 if v != 0 => 0,
            3 => v.wrapping_add(0x8000_0000),
            _ => v.wrapping_add(1 << s.below(32)),
        }
    };
    if s.chance(1, 20) {
        let t = if s.bool() { anlz::tag(s) } else { **s.pick(&anlz::KNOWN_TAGS[1..]) };
        return Contra { f, k, wrong: Wrong::FileTag(t) };
    }
    let sec = f.secs[k].encode();
    let at32 = |at: usize| u32::from_be_bytes([sec[at], sec[at + 1], sec[at + 2], sec[at + 3]]);
    let mut tags: Vec<&'static [u8; 4]> = vec![];
    let wrong = match &f.secs[k] {
        Sec::Path(p) if !p.is_empty() && s.chance(1, 3) => Wrong::Nul(s.usize(0, p.encode_utf16().count() - 1)),
        Sec::Path(_) | Sec::Preview { .. } | Sec::Tiny { .. } => Wrong::Value { at: 12, wide: true, to: other(s, at32(12)) },
        Sec::Song(x) => match s.weighted(&[1, 2]) {
            0 => Wrong::Value { at: 12, wide: true, to: other(s, 24) },
            _ => {
                let d = if s.bool() { 1 + s.below(3) } else { 1 + s.below(65535) } as u32;
                let n = x.phrases.len() as u32;
                Wrong::Value { at: 16, wide: false, to: if s.bool() { n.wrapping_add(d) } else { n.wrapping_sub(d) } & 0xffff }
            }
        },
        sec => {
            for (t, own) in [
                (b"PWV3", matches!(sec, Sec::Detail(_))),
                (b"PWV4", matches!(sec, Sec::ColorPreview { .. })),
                (b"PWV5", matches!(sec, Sec::ColorDetail { .. })),
                (b"PWV6", matches!(sec, Sec::BandPreview(_) | Sec::BandDetail(_))),
                (b"PWV7", matches!(sec, Sec::BandPreview(_) | Sec::BandDetail(_))),
                (b"PSSI", false),
            ] {
                if !own {
                    tags.push(t);
                }
            }
            match s.weighted(&[2, 4, 1]) {
                0 => Wrong::Value { at: 12, wide: true, to: other(s, at32(12)) },
                1 => Wrong::Value { at: 16, wide: true, to: other(s, at32(16)) },
                _ => Wrong::Tag(*s.pick(&tags)),
            }
        }
    };
    Contra { f, k, wrong }
}
fn check_contra(c: &Contra, ctx: &mut Ctx) -> CheckResult {
    let mut b = c.f.encode();
    let at = 12 + c.f.head.len() + c.f.secs[..c.k].iter().map(|x| x.encode().len()).sum::<usize>();
    let before = b.clone();
    match &c.wrong {
        Wrong::Value { at: o, wide: true, to } => b[at + o..at + o + 4].copy_from_slice(&to.to_be_bytes()),
        Wrong::Value { at: o, wide: false, to } => b[at + o..at + o + 2].copy_from_slice(&(*to as u16).to_be_bytes()),
        Wrong::Nul(i) => b[at + 16 + 2 * i..at + 18 + 2 * i].fill(0),
        Wrong::Tag(t) => b[at..at + 4].copy_from_slice(*t),
        Wrong::FileTag(t) => b[..4].copy_from_slice(t),
    }
    ctx.nt(c.f.secs.len() > 1);
    if b == before {
        return Ok(());
    }
    ctx.tag(match &c.wrong {
        Wrong::Value { .. } => "length or count",
        Wrong::Nul(_) => "short text",
        Wrong::Tag(_) => "other kind",
        Wrong::FileTag(_) => "not an analysis file",
    });
    match a::ANLZ::read(&mut Cursor::new(&b)) {
        Err(_) => Ok(()),
        Ok(f) => Err(format!("the file contradicts itself ({:?}) and is read without an error; the section is {:?}", c.wrong, f.sections.get(c.k).map(|x| format!("{x:?}").chars().take(300).collect::<String>()))),
    }
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "files", rule: "the file has at least one section", quick: 480_000, thorough: 16_000_000, gen: anlz::file, check }),
        Box::new(G { name: "large", rule: "every case", quick: 1_500, thorough: 60_000, gen: anlz::large_file, check }),
        Box::new(G { name: "edits", rule: "at least one edit applied", quick: 320_000, thorough: 8_000_000, gen: gen_edit, check: check_edit }),
        Box::new(G { name: "long-cue-lists", rule: "every case", quick: 96, thorough: 480, gen: gen_long, check: check_long }),
        Box::new(G { name: "contradictions", rule: "another section before or behind the contradicting one", quick: 60_000, thorough: 2_000_000, gen: gen_contra, check: check_contra }),
    ];
    Property {
        id: "C09",
        level: "exploration",
        assumptions: &[
            "files are well-formed: section sizes match their contents, extended cues are in the current long form",
            "the private song structure data is observed through Debug",
        ],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
