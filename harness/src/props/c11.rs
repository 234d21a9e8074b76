//! Settings files.
use super::c04::eq;
use super::c09::same_bytes;
use crate::engine::{no_panic, CheckResult, Ctx, Group, Property, G};
use crate::model::setting::{self, File, ALL};
use crate::src::Src;
use binrw::{BinRead, BinWrite};
use rekordcrate::setting::{Setting, SettingData};
use std::io::Cursor;

pub type Observed = Vec<(&'static str, String, String)>;

macro_rules! tables {
    ($($var:ident $ty:ident: $($f:ident),*;)*) => {
        /// (field, variant, label) of every setting.
        pub fn fields(d: &SettingData) -> Observed {
            match d {
                $(SettingData::$var(x) => vec![$((stringify!($f), format!("{:?}", x.$f), format!("{}", x.$f))),*],)*
            }
        }
        /// Copy one setting from another file of the same kind.
        pub fn copy(a: &mut SettingData, b: &SettingData, name: &str) {
            match (a, b) {
                $((SettingData::$var(x), SettingData::$var(y)) => match name {
                    $(stringify!($f) => x.$f = y.$f,)*
                    _ => {}
                },)*
                _ => {}
            }
        }
        /// The settings of a device export: (field, variant, label) or unset.
        pub fn device(s: &rekordcrate::device::Settings) -> Vec<(&'static str, Option<(String, String)>)> {
            vec![$($((stringify!($f), s.$f.map(|v| (format!("{v:?}"), format!("{v}"))))),*),*]
        }
    };
}
tables! {
    DevSetting DevSetting: overview_waveform_type, waveform_color, key_display_format, waveform_current_position;
    DJMMySetting DJMMySetting: channel_fader_curve, crossfader_curve, headphones_pre_eq, headphones_mono_split, beat_fx_quantize,
        mic_low_cut, talk_over_mode, talk_over_level, midi_channel, midi_button_type, display_brightness, indicator_brightness,
        channel_fader_curve_long_fader;
    MySetting MySetting: on_air_display, lcd_brightness, quantize, auto_cue_level, language, jog_ring_brightness, jog_ring_indicator,
        slip_flashing, disc_slot_illumination, eject_lock, sync, play_mode, quantize_beat_value, hotcue_autoload, hotcue_color,
        needle_lock, time_mode, jog_mode, auto_cue, master_tempo, tempo_range, phase_meter;
    MySetting2 MySetting2: vinyl_speed_adjust, jog_display_mode, pad_button_brightness, jog_lcd_brightness, waveform_divisions,
        waveform, beat_jump_beat_value;
}

pub fn try_read(b: &[u8], which: usize) -> Result<(Setting, u64), String> {
    let mut c = Cursor::new(b);
    let s = Setting::read_args(&mut c, (ALL[which].kind,)).map_err(|e| format!("well-formed {} is refused: {e}", ALL[which].file))?;
    Ok((s, c.position()))
}

pub fn write(s: &Setting) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    s.write(&mut c).map_err(|e| format!("writing settings failed: {e}"))?;
    Ok(c.into_inner())
}

pub fn compare(s: &Setting, m: &File) -> CheckResult {
    let l = m.layout();
    for (n, got, want) in [("brand", &s.brand, &m.texts[0]), ("software", &s.software, &m.texts[1]), ("version", &s.version, &m.texts[2])] {
        eq(n, &got.0, want)?;
    }
    let obs = fields(&s.data);
    eq("number of settings", obs.len(), l.fields.len())?;
    for (f, v) in l.fields.iter().zip(&m.values) {
        let (_, variant, label) = obs.iter().find(|o| o.0 == f.name).ok_or_else(|| format!("setting {} is missing", f.name))?;
        let (byte, want, want_label) = f.values[*v];
        if variant != want {
            return Err(format!("{}: byte {byte:#x} at {} decodes to {variant}, documented {want}", f.name, f.at));
        }
        eq(&format!("label of {} {want}", f.name), label.as_str(), want_label)?;
    }
    Ok(())
}

fn check(m: &File, ctx: &mut Ctx) -> CheckResult {
    ctx.nt(true);
    ctx.tag(m.layout().file);
    let b = m.encode();
    let (s, pos) = try_read(&b, m.which)?;
    eq("position after reading", pos, b.len() as u64)?;
    compare(&s, m)?;
    same_bytes("rewritten file", &write(&s)?, &b)
}

#[derive(Debug, Hash)]
struct Edit {
    from: File,
    to: File,
    fields: Vec<usize>,
    brand: Option<Vec<u8>>,
}
fn gen_edit(s: &mut Src) -> Edit {
    let from = setting::gen(s);
    let to = setting::gen_of(s, from.which);
    let n = from.layout().fields.len();
    Edit { from, to, fields: s.list(1, 4, 1, |s| s.below(n as u64) as usize), brand: s.chance(1, 3).then(|| s.list(0, 31, 6, |s| s.int(1, 255) as u8)) }
}
fn check_edit(e: &Edit, ctx: &mut Ctx) -> CheckResult {
    let (mut a, _) = try_read(&e.from.encode(), e.from.which)?;
    let (b, _) = try_read(&e.to.encode(), e.to.which)?;
    let mut m = e.from.clone();
    for i in &e.fields {
        copy(&mut a.data, &b.data, m.layout().fields[*i].name);
        m.values[*i] = e.to.values[*i];
    }
    if let Some(t) = &e.brand {
        a.brand.0.clone_from(t);
        m.texts[0].clone_from(t);
    }
    ctx.nt(m != e.from);
    compare(&a, &m)?;
    same_bytes("edited file", &write(&a)?, &m.encode())
}

#[derive(Debug, Hash)]
struct Byte {
    file: File,
    field: usize,
}
fn gen_byte(s: &mut Src) -> Byte {
    let w = s.weighted(&[4, 13, 22, 7]);
    let field = s.below(ALL[w].fields.len() as u64) as usize;
    Byte { file: setting::gen_of(s, w), field }
}
/// All 256 values of one setting's byte.
fn check_byte(c: &Byte, ctx: &mut Ctx) -> CheckResult {
    ctx.nt(true);
    let l = c.file.layout();
    let f = &l.fields[c.field];
    for v in 0..=255u8 {
        ctx.evals += 1;
        let mut d = c.file.data();
        d[f.at] = v;
        let r = no_panic(|| try_read(&c.file.encode_data(&d), c.file.which))?;
        match (r, f.values.iter().position(|x| x.0 == v)) {
            (Ok((s, _)), Some(i)) => {
                let mut m = c.file.clone();
                m.values[c.field] = i;
                compare(&s, &m)?;
            }
            (Err(_), None) => {}
            (Ok((s, _)), None) => {
                let o = fields(&s.data);
                let got = o.iter().find(|o| o.0 == f.name).map(|o| o.1.clone()).unwrap_or_default();
                return Err(format!("{}: undefined byte {v:#x} is accepted as {got}", f.name));
            }
            (Err(e), Some(_)) => return Err(format!("{}: documented byte {v:#x}: {e}", f.name)),
        }
    }
    Ok(())
}

#[derive(Debug, Hash)]
enum Damage {
    Cut(usize),
    StringLen(u32),
    DataLen(u32),
    Kind(usize),
    Checksum(u16),
    Unterminated(usize),
}
fn gen_damage(s: &mut Src) -> (File, Damage) {
    let f = setting::gen(s);
    let n = f.encode().len();
    let d = match s.below(6) {
        0 => Damage::Cut(s.usize(0, n - 1)),
        1 => Damage::StringLen(s.u32()),
        2 => Damage::DataLen(s.u32()),
        3 => Damage::Kind(s.below(4) as usize),
        4 => Damage::Checksum(s.u16()),
        _ => Damage::Unterminated(s.below(3) as usize),
    };
    (f, d)
}
fn check_damage((m, d): &(File, Damage), ctx: &mut Ctx) -> CheckResult {
    let mut b = m.encode();
    let mut which = m.which;
    let n = b.len();
    match d {
        Damage::Cut(k) => b.truncate(*k),
        Damage::StringLen(v) => {
            if *v == 0x60 {
                return Ok(());
            }
            b[..4].copy_from_slice(&v.to_le_bytes());
        }
        Damage::DataLen(v) => {
            if *v as usize == m.layout().size {
                return Ok(());
            }
            b[100..104].copy_from_slice(&v.to_le_bytes());
        }
        Damage::Kind(k) => {
            if ALL[*k].size == m.layout().size {
                return Ok(());
            }
            which = *k;
        }
        Damage::Checksum(v) => {
            // The checksum is not stated to be checked; it must be right when the file is rewritten.
            b[n - 4] ^= v.to_le_bytes()[0];
            b[n - 3] ^= v.to_le_bytes()[1];
            ctx.nt(*v != 0);
            return match no_panic(|| try_read(&b, which))? {
                Err(_) if *v != 0 => Ok(()),
                Err(e) => Err(e),
                Ok((s, _)) => {
                    compare(&s, m)?;
                    same_bytes("rewritten file", &write(&s)?, &m.encode())
                }
            };
        }
        Damage::Unterminated(i) => {
            for (k, x) in b[4 + 32 * i..36 + 32 * i].iter_mut().enumerate() {
                *x = b'a' + (k % 26) as u8;
            }
        }
    }
    ctx.nt(true);
    match no_panic(|| try_read(&b, which))? {
        Ok(_) => Err(format!("accepted with {d:?}")),
        Err(_) => Ok(()),
    }
}

#[derive(Debug, Hash)]
struct Long {
    file: File,
    which: usize,
    n: usize,
}
fn gen_long(s: &mut Src) -> Long {
    Long { file: setting::gen(s), which: s.below(3) as usize, n: *s.pick(&[32usize, 31, 33, 40, 64, 300]) }
}
fn check_long(l: &Long, ctx: &mut Ctx) -> CheckResult {
    let (mut a, _) = try_read(&l.file.encode(), l.file.which)?;
    let t = vec![b'x'; l.n];
    match l.which {
        0 => a.brand.0.clone_from(&t),
        1 => a.software.0.clone_from(&t),
        _ => a.version.0.clone_from(&t),
    }
    ctx.nt(l.n > 31);
    match (no_panic(|| write(&a))?, l.n > 31) {
        (Err(_), true) => Ok(()),
        (Ok(_), true) => Err(format!("a text of {} bytes was written to a 32-byte field", l.n)),
        (Ok(b), false) => {
            let mut m = l.file.clone();
            m.texts[l.which].clone_from(&t);
            same_bytes("file", &b, &m.encode())
        }
        (Err(e), false) => Err(e),
    }
}

/// Settings built from the defaults: the default file is a well-formed file of its kind, and
/// settings changed in the object end up at their bytes, with everything else as in the default file.
fn check_default(e: &Edit, ctx: &mut Ctx) -> CheckResult {
    let l = e.to.layout();
    let mut a = match e.to.which {
        0 => Setting::default_devsetting(),
        1 => Setting::default_djmmysetting(),
        2 => Setting::default_mysetting(),
        _ => Setting::default_mysetting2(),
    };
    let views = [a.data.as_dev_setting().is_some(), a.data.as_djm_my_setting().is_some(), a.data.as_my_setting().is_some(), a.data.as_my_setting2().is_some()];
    eq("which view of the data exists", views.iter().position(|v| *v), Some(e.to.which))?;
    eq("number of views of the data", views.iter().filter(|v| **v).count(), 1)?;
    let base = write(&a)?;
    eq("length of the default file", base.len(), 108 + l.size)?;
    eq("data length of the default file", &base[100..104], &(l.size as u32).to_le_bytes()[..])?;
    let (back, _) = try_read(&base, e.to.which)?;
    if back != a {
        return Err(format!("the default {} reads back as {back:?}", l.file));
    }
    let (b, _) = try_read(&e.to.encode(), e.to.which)?;
    let mut data = base[104..104 + l.size].to_vec();
    for i in &e.fields {
        let f = &l.fields[*i];
        copy(&mut a.data, &b.data, f.name);
        data[f.at] = f.values[e.to.values[*i]].0;
    }
    let mut m = e.to.clone();
    m.texts = [0, 1, 2].map(|i| {
        let t = &base[4 + 32 * i..36 + 32 * i];
        t.iter().take_while(|b| **b != 0).copied().collect()
    });
    ctx.nt(data != base[104..104 + l.size]);
    ctx.tag(l.file);
    same_bytes("file built from the defaults", &write(&a)?, &m.encode_data(&data))?;
    let name = std::path::Path::new("x/y").join(l.file);
    eq("kind by file name", rekordcrate::setting::SettingType::from_filename(&name), Some(l.kind))
}

pub fn prop() -> Property {
    let g: Vec<Box<dyn Group>> = vec![
        Box::new(G { name: "files", rule: "every case", quick: 900_000, thorough: 24_000_000, gen: setting::gen, check }),
        Box::new(G { name: "edits", rule: "the edit changes the file", quick: 600_000, thorough: 18_000_000, gen: gen_edit, check: check_edit }),
        Box::new(G { name: "defaults", rule: "the edit changes the default file", quick: 150_000, thorough: 4_000_000, gen: gen_edit, check: check_default }),
        Box::new(G { name: "byte-values", rule: "every case: all 256 values of one setting", quick: 18_000, thorough: 240_000, gen: gen_byte, check: check_byte }),
        Box::new(G { name: "damaged", rule: "the file was changed", quick: 360_000, thorough: 6_000_000, gen: gen_damage, check: check_damage }),
        Box::new(G { name: "long-texts", rule: "the text does not fit", quick: 30_000, thorough: 600_000, gen: gen_long, check: check_long }),
    ];
    Property {
        id: "C11",
        level: "exploration",
        assumptions: &["the stored checksum of a file that is read is not judged, only the one that is written"],
        groups: g,
        known: vec![],
        needs_cli: false,
    }
}
