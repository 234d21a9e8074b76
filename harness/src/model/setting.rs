//! Reference model of the `*SETTING.DAT` files.
use crate::src::Src;
use rekordcrate::setting::SettingType;

/// Byte value, variant name, label.
pub type Value = (u8, &'static str, &'static str);

pub struct Field {
    pub name: &'static str,
    pub at: usize,
    pub values: &'static [Value],
}

pub struct Layout {
    pub kind: SettingType,
    pub file: &'static str,
    pub size: usize,
    pub fields: &'static [Field],
    /// Bytes with one allowed content.
    pub fixed: &'static [(usize, &'static [u8])],
    /// Unknown bytes kept as they are.
    pub free: &'static [(usize, usize)],
}

const OFF_ON: &[Value] = &[(0x80, "Off", "Off"), (0x81, "On", "On")];
const LOCKS: &[Value] = &[(0x80, "Unlock", "Unlock"), (0x81, "Lock", "Lock")];
const LCD: &[Value] = &[(0x81, "One", "1"), (0x82, "Two", "2"), (0x83, "Three", "3"), (0x84, "Four", "4"), (0x85, "Five", "5")];
const RING: &[Value] = &[(0x80, "Off", "Off"), (0x81, "Dark", "1 (Dark)"), (0x82, "Bright", "2 (Bright)")];

macro_rules! f {
    ($n:literal, $at:expr, $v:expr) => {
        Field { name: $n, at: $at, values: $v }
    };
}

pub const DEV: Layout = Layout {
    kind: SettingType::DevSetting,
    file: "DEVSETTING.DAT",
    size: 32,
    fields: &[
        f!("overview_waveform_type", 9, &[(1, "HalfWaveform", "Half Waveform"), (2, "FullWaveform", "Full Waveform")]),
        f!("waveform_color", 10, &[(1, "Blue", "Blue"), (3, "Rgb", "RGB"), (4, "TriBand", "3Band")]),
        f!("key_display_format", 12, &[(1, "Classic", "Classic"), (2, "Alphanumeric", "Alphanumeric")]),
        f!("waveform_current_position", 13, &[(1, "Center", "Center"), (2, "Left", "Left")]),
    ],
    fixed: &[(0, &[0x78, 0x56, 0x34, 0x12, 1, 0, 0, 0, 1]), (11, &[1]), (14, &[0; 18])],
    free: &[],
};

pub const DJM: Layout = Layout {
    kind: SettingType::DJMMySetting,
    file: "DJMMYSETTING.DAT",
    size: 52,
    fields: &[
        f!("channel_fader_curve", 12, &[(0x80, "SteepTop", "Steep Top"), (0x81, "Linear", "Linear"), (0x82, "SteepBottom", "Steep Bottom")]),
        f!("crossfader_curve", 13, &[(0x80, "ConstantPower", "Constant Power"), (0x81, "SlowCut", "Slow Cut"), (0x82, "FastCut", "Fast Cut")]),
        f!("headphones_pre_eq", 14, &[(0x80, "PostEQ", "Post EQ"), (0x81, "PreEQ", "Pre EQ")]),
        f!("headphones_mono_split", 15, &[(0x80, "Stereo", "Stereo"), (0x81, "MonoSplit", "Mono Split")]),
        f!("beat_fx_quantize", 16, OFF_ON),
        f!("mic_low_cut", 17, OFF_ON),
        f!("talk_over_mode", 18, &[(0x80, "Advanced", "Advanced"), (0x81, "Normal", "Normal")]),
        f!("talk_over_level", 19, &[
            (0x80, "Minus24dB", "-24dB"), (0x81, "Minus18dB", "-18dB"), (0x82, "Minus12dB", "-12dB"), (0x83, "Minus6dB", "-6dB")]),
        f!("midi_channel", 20, &[
            (0x80, "One", "1"), (0x81, "Two", "2"), (0x82, "Three", "3"), (0x83, "Four", "4"), (0x84, "Five", "5"), (0x85, "Six", "6"),
            (0x86, "Seven", "7"), (0x87, "Eight", "8"), (0x88, "Nine", "9"), (0x89, "Ten", "10"), (0x8a, "Eleven", "11"),
            (0x8b, "Twelve", "12"), (0x8c, "Thirteen", "13"), (0x8d, "Fourteen", "14"), (0x8e, "Fifteen", "15"), (0x8f, "Sixteen", "16")]),
        f!("midi_button_type", 21, &[(0x80, "Toggle", "Toggle"), (0x81, "Trigger", "Trigger")]),
        f!("display_brightness", 22, &[
            (0x80, "White", "White"), (0x81, "One", "1"), (0x82, "Two", "2"), (0x83, "Three", "3"), (0x84, "Four", "4"), (0x85, "Five", "5")]),
        f!("indicator_brightness", 23, &[(0x80, "One", "1"), (0x81, "Two", "2"), (0x82, "Three", "3")]),
        f!("channel_fader_curve_long_fader", 24, &[(0x80, "Exponential", "Exponential"), (0x81, "Smooth", "Smooth"), (0x82, "Linear", "Linear")]),
    ],
    fixed: &[(25, &[0; 27])],
    free: &[(0, 12)],
};

pub const MY: Layout = Layout {
    kind: SettingType::MySetting,
    file: "MYSETTING.DAT",
    size: 40,
    fields: &[
        f!("on_air_display", 8, OFF_ON),
        f!("lcd_brightness", 9, LCD),
        f!("quantize", 10, OFF_ON),
        f!("auto_cue_level", 11, &[
            (0x80, "Minus36dB", "-36dB"), (0x81, "Minus42dB", "-42dB"), (0x82, "Minus48dB", "-48dB"), (0x83, "Minus54dB", "-54dB"),
            (0x84, "Minus60dB", "-60dB"), (0x85, "Minus66dB", "-66dB"), (0x86, "Minus72dB", "-72dB"), (0x87, "Minus78dB", "-78dB"),
            (0x88, "Memory", "Memory")]),
        f!("language", 12, &[
            (0x81, "English", "English"), (0x82, "French", "Français"), (0x83, "German", "Deutsch"), (0x84, "Italian", "Italiano"),
            (0x85, "Dutch", "Nederlands"), (0x86, "Spanish", "Español"), (0x87, "Russian", "Русский"), (0x88, "Korean", "한국어"),
            (0x89, "ChineseSimplified", "简体中文"), (0x8a, "ChineseTraditional", "繁體中文"), (0x8b, "Japanese", "日本語"),
            (0x8c, "Portuguese", "Português"), (0x8d, "Swedish", "Svenska"), (0x8e, "Czech", "Čeština"), (0x8f, "Hungarian", "Magyar"),
            (0x90, "Danish", "Dansk"), (0x91, "Greek", "Ελληνικά"), (0x92, "Turkish", "Türkçe")]),
        f!("jog_ring_brightness", 14, RING),
        f!("jog_ring_indicator", 15, OFF_ON),
        f!("slip_flashing", 16, OFF_ON),
        f!("disc_slot_illumination", 20, RING),
        f!("eject_lock", 21, LOCKS),
        f!("sync", 22, OFF_ON),
        f!("play_mode", 23, &[(0x80, "Continue", "Continue / On"), (0x81, "Single", "Single / Off")]),
        f!("quantize_beat_value", 24, &[
            (0x80, "FullBeat", "1 Beat"), (0x81, "HalfBeat", "1/2 Beat"), (0x82, "QuarterBeat", "1/4 Beat"), (0x83, "EighthBeat", "1/8 Beat")]),
        f!("hotcue_autoload", 25, &[(0x80, "Off", "Off"), (0x81, "On", "On"), (0x82, "RekordboxSetting", "rekordbox SETTING")]),
        f!("hotcue_color", 26, OFF_ON),
        f!("needle_lock", 29, LOCKS),
        f!("time_mode", 32, &[(0x80, "Elapsed", "Elapsed"), (0x81, "Remain", "Remain")]),
        f!("jog_mode", 33, &[(0x80, "CDJ", "CDJ"), (0x81, "Vinyl", "Vinyl")]),
        f!("auto_cue", 34, OFF_ON),
        f!("master_tempo", 35, OFF_ON),
        f!("tempo_range", 36, &[(0x80, "SixPercent", "±6%"), (0x81, "TenPercent", "±10%"), (0x82, "SixteenPercent", "±16%"), (0x83, "Wide", "Wide")]),
        f!("phase_meter", 37, &[(0x80, "Type1", "Type 1"), (0x81, "Type2", "Type 2")]),
    ],
    fixed: &[(27, &[0; 2]), (30, &[0; 2]), (38, &[0; 2])],
    free: &[(0, 8), (13, 1), (17, 3)],
};

pub const MY2: Layout = Layout {
    kind: SettingType::MySetting2,
    file: "MYSETTING2.DAT",
    size: 40,
    fields: &[
        f!("vinyl_speed_adjust", 0, &[(0x80, "TouchRelease", "Touch & Release"), (0x81, "Touch", "Touch"), (0x82, "Release", "Release")]),
        f!("jog_display_mode", 1, &[(0x80, "Auto", "Auto"), (0x81, "Info", "Info"), (0x82, "Simple", "Simple"), (0x83, "Artwork", "Artwork")]),
        f!("pad_button_brightness", 2, &[(0x81, "One", "1"), (0x82, "Two", "2"), (0x83, "Three", "3"), (0x84, "Four", "4")]),
        f!("jog_lcd_brightness", 3, LCD),
        f!("waveform_divisions", 4, &[(0x80, "TimeScale", "Time Scale"), (0x81, "Phrase", "Phrase")]),
        f!("waveform", 10, &[(0x80, "Waveform", "Waveform"), (0x81, "PhaseMeter", "Phase Meter")]),
        f!("beat_jump_beat_value", 12, &[
            (0x80, "HalfBeat", "1/2 Beat"), (0x81, "OneBeat", "1 Beat"), (0x82, "TwoBeat", "2 Beat"), (0x83, "FourBeat", "4 Beat"),
            (0x84, "EightBeat", "8 Beat"), (0x85, "SixteenBeat", "16 Beat"), (0x86, "ThirtytwoBeat", "32 Beat"), (0x87, "SixtyfourBeat", "64 Beat")]),
    ],
    fixed: &[(5, &[0; 5]), (13, &[0; 27])],
    free: &[(11, 1)],
};

pub const ALL: [&Layout; 4] = [&DEV, &DJM, &MY, &MY2];

#[derive(Clone, Hash, PartialEq)]
pub struct File {
    pub which: usize,
    pub texts: [Vec<u8>; 3],
    /// Index of the value of each field.
    pub values: Vec<usize>,
    pub free: Vec<u8>,
}

impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let l = self.layout();
        write!(f, "{}{{", l.file)?;
        for t in &self.texts {
            write!(f, "{:?} ", String::from_utf8_lossy(t))?;
        }
        for (d, v) in l.fields.iter().zip(&self.values) {
            write!(f, "{}={:#x} ", d.name, d.values[*v].0)?;
        }
        write!(f, "free={:02x?}}}", self.free)
    }
}

pub fn crc16(data: &[u8]) -> u16 {
    let mut c = 0u16;
    for b in data {
        c ^= u16::from(*b) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 };
        }
    }
    c
}

impl File {
    pub fn layout(&self) -> &'static Layout {
        ALL[self.which]
    }
    pub fn data(&self) -> Vec<u8> {
        let l = self.layout();
        let mut d = vec![0; l.size];
        for (at, b) in l.fixed {
            d[*at..at + b.len()].copy_from_slice(b);
        }
        let mut free = self.free.iter();
        for (at, n) in l.free {
            for i in 0..*n {
                d[at + i] = free.next().copied().unwrap_or(0);
            }
        }
        for (f, v) in l.fields.iter().zip(&self.values) {
            d[f.at] = f.values[*v].0;
        }
        d
    }
    pub fn encode_data(&self, data: &[u8]) -> Vec<u8> {
        let mut o = 0x60u32.to_le_bytes().to_vec();
        for t in &self.texts {
            let mut b = t.clone();
            b.resize(32, 0);
            o.extend_from_slice(&b);
        }
        o.extend_from_slice(&(data.len() as u32).to_le_bytes());
        o.extend_from_slice(data);
        let c = if self.which == 1 { crc16(&o) } else { crc16(data) };
        o.extend_from_slice(&c.to_le_bytes());
        o.extend_from_slice(&[0, 0]);
        o
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_data(&self.data())
    }
}

pub fn gen_of(s: &mut Src, which: usize) -> File {
    let l = ALL[which];
    let texts = [0, 1, 2].map(|i| match s.below(3) {
        0 => [&b"PIONEER"[..], b"rekordbox", b"6.6.1"][i].to_vec(),
        1 => s.list(0, 31, 8, |s| s.int(1, 255) as u8),
        _ => {
            let n = *s.pick(&[31usize, 30, 0, 1]);
            s.exact(n, |s| s.int(1, 255) as u8)
        }
    });
    let values = l.fields.iter().map(|f| s.below(f.values.len() as u64) as usize).collect();
    let n = l.free.iter().map(|f| f.1).sum();
    File { which, texts, values, free: s.bytes(n) }
}

pub fn gen(s: &mut Src) -> File {
    let w = s.below(4) as usize;
    gen_of(s, w)
}
