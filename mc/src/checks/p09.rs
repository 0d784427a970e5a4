//! Sound files survive extraction and are valid playable files.
use super::common::*;
use super::exp::*;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use vpin::vpx::expanded::PrimitiveMeshFormat as Pmf;
use vpin::vpx::sound::{OutputTarget, SoundData, WaveForm, read_sound, write_sound};

/// Reads a RIFF/WAVE file the way a strict player does; the format and the samples.
fn riff(f: &[u8]) -> Result<(Wave, Vec<u8>), String> {
    let u16_ = |p: usize| u16::from_le_bytes(f[p..p + 2].try_into().unwrap());
    let u32_ = |p: usize| u32::from_le_bytes(f[p..p + 4].try_into().unwrap());
    if f.len() < 12 || &f[..4] != b"RIFF" || &f[8..12] != b"WAVE" {
        return Err("not a RIFF/WAVE file".into());
    }
    let size = u32_(4) as usize;
    // a pad byte behind data of odd length may be left out of the size
    if size + 8 != f.len() && size + 9 != f.len() {
        return Err(format!("the RIFF size is {size} in a file of {} bytes", f.len()));
    }
    let mut fmt = None;
    let mut p = 12;
    loop {
        if p + 8 > f.len() {
            return Err(format!("no data chunk; the chunks end at {p} of {}", f.len()));
        }
        let (id, n) = (&f[p..p + 4], u32_(p + 4) as usize);
        let body = p + 8;
        if body + n > f.len() {
            return Err(format!("chunk {:?} of {n} bytes at {p} is longer than the file", latin1(id)));
        }
        match id {
            b"fmt " => {
                if fmt.is_some() {
                    return Err("two fmt chunks".into());
                }
                if n != 16 && n < 18 {
                    return Err(format!("fmt chunk of {n} bytes"));
                }
                fmt = Some(Wave {
                    tag: u16_(body),
                    channels: u16_(body + 2),
                    rate: u32_(body + 4),
                    bps: u32_(body + 8),
                    align: u16_(body + 12),
                    bits: u16_(body + 14),
                    cb: if n >= 18 { u16_(body + 16) } else { 0 },
                });
            }
            b"data" => {
                let w = fmt.ok_or("data before fmt")?;
                let end = body + n;
                if f.len() - end > n % 2 {
                    return Err(format!("{} bytes behind the samples that belong to no chunk", f.len() - end));
                }
                return Ok((w, f[body..end].to_vec()));
            }
            _ => {}
        }
        p = body + n + n % 2;
    }
}

/// The extracted file of a sound.
fn judge(s: &Snd, f: &[u8]) -> Result<(), String> {
    if !s.is_wave() {
        return if f == s.data { Ok(()) } else { Err(format!("not the stored bytes: {}", diff_bytes(&s.data, f))) };
    }
    let (w, d) = riff(f)?;
    if d != s.data {
        return Err(format!("the samples are {} bytes, stored {}: {}", d.len(), s.data.len(), diff_bytes(&s.data, &d)));
    }
    let a = (w.tag, w.channels, w.rate, w.bps, w.align, w.bits);
    let b = (s.wave.tag, s.wave.channels, s.wave.rate, s.wave.bps, s.wave.align, s.wave.bits);
    if a != b {
        return Err(format!("the format is {a:?}, stored {b:?}"));
    }
    Ok(())
}

fn data_of(s: &Snd) -> SoundData {
    SoundData {
        name: latin1(&s.name),
        path: latin1(&s.path),
        wave_form: if s.is_wave() {
            WaveForm {
                format_tag: s.wave.tag,
                channels: s.wave.channels,
                samples_per_sec: s.wave.rate,
                avg_bytes_per_sec: s.wave.bps,
                block_align: s.wave.align,
                bits_per_sample: s.wave.bits,
                cb_size: s.wave.cb,
            }
        } else {
            WaveForm::default()
        },
        data: s.data.clone(),
        internal_name: latin1(&s.internal),
        fade: s.fade,
        volume: s.volume,
        balance: s.balance,
        output_target: if s.out == 0 { OutputTarget::Table } else { OutputTarget::Backglass },
    }
}

/// Through the public functions.
fn direct(s: &Snd) -> Result<u64, String> {
    let d = data_of(s);
    let f = write_sound(&d);
    judge(s, &f)?;
    let mut back = data_of(s);
    back.data = vec![];
    back.wave_form = WaveForm::default();
    read_sound(&f, &mut back).map_err(err("read_sound"))?;
    if back != d {
        return Err(format!("read back as {:?} {}, stored {:?} {}", back.wave_form, hex(&back.data), d.wave_form, hex(&d.data)));
    }
    Ok(hash_of(&f))
}

/// Through a table, its extraction and assembly.
fn table(spec: &Spec, ver: u32, ss: &[&Snd]) -> Result<u64, String> {
    let mut t = Table::new(spec, ver);
    for (i, s) in ss.iter().enumerate() {
        let mut s = (*s).clone();
        if ss.len() > 1 {
            s.name = format!("{i:05}").into_bytes();
        }
        t.sounds.push(s.enc(ver));
    }
    let e = t.streams();
    let v = load(&build(&e))?;
    let fs = extract(&v, Pmf::Obj, false)?;
    let mut fl: Vec<(String, Vec<u8>)> = files(&fs).into_iter().filter(|(k, _)| k.contains("/sounds/")).collect();
    fl.sort();
    if fl.len() != ss.len() {
        return Err(format!("{} files for {} sounds", fl.len(), ss.len()));
    }
    for (s, (k, f)) in ss.iter().zip(&fl) {
        judge(s, f).map_err(|m| format!("{k}: {m}"))?;
        // players go by the extension
        if s.is_wave() && !k.to_lowercase().ends_with(".wav") {
            return Err(format!("a wave is extracted as {k}"));
        }
    }
    let got = dump(&save(&assemble(&fs)?)?)?;
    match diff_streams(&e, &got) {
        None => Ok(hash_of(&fl)),
        Some(d) => Err(d),
    }
}

fn contents() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for n in (0usize..40).chain([43, 44, 45, 46, 127, 128, 255, 256, 257, 65534, 65535, 65536, 65537, 65571, 70000, 131072, 1 << 20, (1 << 20) + 1]) {
        v.push((format!("len={n}"), (0..n).map(|i| (i * 7 + i / 256) as u8).collect()));
    }
    let whole = {
        let mut s = Snd::new("s", "s.wav", b"inner samples");
        s.wave.rate = 8000;
        write_sound(&data_of(&s))
    };
    for (l, b) in [
        ("riff", whole.clone()),
        ("riff-odd", whole[..whole.len() - 1].to_vec()),
        ("data", b"data".to_vec()),
        ("data-chunk", b"data\x04\0\0\0abcd".to_vec()),
        ("fmt-chunk", b"fmt \x10\0\0\0abcdefghijklmnop".to_vec()),
        ("list", b"LIST\x04\0\0\0INFO".to_vec()),
        ("junk", b"JUNK\xff\xff\xff\xff".to_vec()),
        ("ogg", b"OggS0123456789".to_vec()),
        ("id3", b"ID3\x03\0\0\0".to_vec()),
        ("zeros", vec![0; 64]),
        ("ones", vec![0xff; 64]),
        ("chars", b"abcdefgh".to_vec()),
    ] {
        v.push((l.to_string(), b));
    }
    v
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let th = ctx.thorough();
    // products of header fields x lengths
    let tags: &[u16] = &[1, 0, 2, 3, 6, 7, 17, 80, 85, 0xfffe, 0xffff];
    let chans: &[u16] = if th { &[0, 1, 2, 3, 6, 8, 255, 256, 65535] } else { &[0, 1, 2, 6, 65535] };
    let bitss: &[u16] = if th { &[0, 1, 4, 8, 12, 16, 20, 24, 32, 64, 65535] } else { &[0, 4, 8, 16, 24, 65535] };
    let rates: &[u32] = if th { &[0, 1, 8000, 11025, 22050, 44100, 48000, 96000, 0x8000_0000, u32::MAX] } else { &[0, 11025, 44100, u32::MAX] };
    let aligns: &[Option<u16>] = &[None, Some(0), Some(1), Some(65535)];
    let bpss: &[Option<u32>] = &[None, Some(0), Some(7), Some(u32::MAX)];
    let cbs: &[u16] = if th { &[0, 1, 2, 22, 255, 256, 65535] } else { &[0, 2, 22, 65535] };
    let lens: &[usize] = if th { &[0, 1, 2, 3, 22, 50, 65535] } else { &[0, 1, 2, 22] };
    let mut combos = vec![];
    for t in tags {
        for c in chans {
            for b in bitss {
                for r in rates {
                    combos.push((*t, *c, *b, *r));
                }
            }
        }
    }
    combos.par_iter().for_each(|(t, c, b, r)| {
        if ctx.too_many() {
            return;
        }
        let label = format!("direct/{t}/{c}/{b}/{r}");
        if !ctx.replaying() || ctx.wants(&label) {
            let mut hs = vec![];
            for al in aligns {
                for bp in bpss {
                    for cb in cbs {
                        for n in lens {
                            let mut s = Snd::new("s", "s.wav", &[]);
                            s.data = (0..*n).map(|i| i as u8 ^ 0x55).collect();
                            let align = al.unwrap_or(c.wrapping_mul(b / 8));
                            s.wave = Wave { tag: *t, channels: *c, rate: *r, bps: bp.unwrap_or(r.wrapping_mul(align as u32)), align, bits: *b, cb: *cb };
                            match guard(|| direct(&s)) {
                                Ok(h) => hs.push(h),
                                Err(m) => {
                                    ctx.violation(&label, &format!("{:?}, {n} bytes: {m}", s.wave), serde_json::json!({}));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            ctx.bulk(hs.len() as u64, hs.into_iter());
        }
    });
    // every value of every 16-bit field; the 32-bit ones bit by bit
    for tag in [1u16, 3] {
        for field in 0..5usize {
            (0..256u32).into_par_iter().for_each(|hi| {
                ctx.case(&format!("field/{tag}/{field}/{hi}"), || {
                    let mut h = 0u64;
                    for lo in 0..256u32 {
                        let x = (hi << 8 | lo) as u16;
                        let mut s = Snd::new("s", "s.wav", b"12345");
                        s.wave.tag = tag;
                        match field {
                            0 => s.wave.tag = x,
                            1 => s.wave.channels = x,
                            2 => s.wave.align = x,
                            3 => s.wave.bits = x,
                            _ => s.wave.cb = x,
                        }
                        h = hash_of(&(h, direct(&s).map_err(|m| format!("value {x}: {m}"))?));
                    }
                    Ok(h)
                });
            });
        }
    }
    // through tables: versions x paths x contents x settings
    let paths: Vec<&str> = vec![
        "s.wav", "", "x", "x.WAV", "x.WaV", "x.ogg", "x.OGG", "x.mp3", "x.flac", "x.wav.ogg", "x.ogg.wav", ".wav", "* Backglass Output *", "a.b/c", "x.", "x.w", "dir.wav/y", "C:\\s.t\\x", "x.wavx", "x.wa", "a/b.o/g\\g", "C:\\a b\\x.wav", "x.wav ", "x.wav.", "x..", "..", "x.aiff", "x.xwav", "wav", "x.mid",
    ];
    let versions: &[u32] = if th { &[100, 1000, 1030, 1031, 1032, 1040, 1060, 1072, 1080, 1081] } else { &[1030, 1031, 1080] };
    let cont = contents();
    let mut cs: Vec<(String, u32, Snd)> = vec![];
    for v in versions {
        for p in &paths {
            for (l, d) in &cont {
                if d.len() > 70000 && !(*p == "s.wav" || *p == "x.ogg") || !th && d.len() > 260 && p.len() > 5 {
                    continue;
                }
                for tag in [1u16, 3] {
                    let mut s = Snd::new("sound", p, d);
                    s.wave.tag = tag;
                    if tag == 1 || s.is_wave() {
                        cs.push((format!("table/{v}/{p:?}/{l}/{tag}"), *v, s));
                    }
                }
            }
            for out in [0u8, 1] {
                for vol in [0u32, 1, 50, 100, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
                    for bal in [0u32, 1, 0xffff_ff9c, u32::MAX] {
                        for fade in [0u32, 1, 0xffff_ff9c, u32::MAX] {
                            let mut s = Snd::new("sound", p, b"samples");
                            (s.out, s.volume, s.balance, s.fade) = (out, vol, bal, fade);
                            s.internal = if vol == 1 { b"Internal".to_vec() } else { vec![] };
                            if *v < 1031 {
                                // not stored by these versions
                                if (vol, bal, fade) != (0, 0, 0) {
                                    continue;
                                }
                            }
                            cs.push((format!("set/{v}/{p:?}/{out}/{vol}/{bal}/{fade}"), *v, s));
                        }
                    }
                }
            }
        }
    }
    cs.par_iter().for_each(|(l, v, s)| {
        if !ctx.too_many() {
            ctx.case(l, || table(&spec, *v, &[s]));
        }
    });
    // several sounds in one table
    let kinds: Vec<Snd> = [("s.wav", 1u16, 3usize), ("s.wav", 3, 4), ("s.ogg", 1, 5), ("s", 2, 0), ("s.mp3", 1, 0), ("s.WAV", 1, 65536)]
        .iter()
        .map(|(p, tag, n)| {
            let mut s = Snd::new("s", p, &[]);
            s.wave.tag = *tag;
            s.wave.cb = if *tag == 1 { 0 } else { 5 };
            s.data = (0..*n).map(|i| i as u8).collect();
            s.out = (*n % 2) as u8;
            s
        })
        .collect();
    let n = kinds.len();
    (0..n * n * n).into_par_iter().for_each(|k| {
        ctx.case(&format!("several/{k}"), || {
            let l = [&kinds[k % n], &kinds[k / n % n], &kinds[k / n / n]];
            for v in [1030, 1080] {
                table(&spec, v, &l)?;
            }
            table(&spec, 1072, &l)
        });
    });
    ctx.rule("products of the wave header fields x extension size x data length through write_sound/read_sound; every value of every 16-bit header field; versions x 30 path shapes x 70 contents (all lengths to 40, around 2^8, 2^16, 2^20, contents that look like RIFF chunks) x output settings through table, extraction and assembly; triples of sounds. The file of a wave is parsed by an independent strict RIFF reader: sizes consistent, format as stored, data chunk exactly the samples; other sounds: the stored bytes; all streams restored");
    ctx.assume("the pad byte behind a data chunk of odd length is optional, as players treat it; a path without extension means a wave");
}
