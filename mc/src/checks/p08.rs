//! Compressed bitmap data round-trips exactly.
use crate::fw::*;
use crate::lzw::*;
use rayon::prelude::*;
use vpin::vpx::lzw::{from_lzw_blocks, to_lzw_blocks};

fn own(d: &[u8]) -> Result<u64, String> {
    let c = to_lzw_blocks(d);
    let x = decode(&c)?;
    if x.data != d {
        return Err(format!("the compressed form encodes other bytes: {}", diff_bytes(d, &x.data)));
    }
    if !x.ends_with_end {
        return Err("no end code".into());
    }
    if !x.starts_with_clear {
        return Err("no clear code at the start".into());
    }
    if x.trailing > 0 {
        return Err(format!("{} bytes after the end code", x.trailing));
    }
    let n = x.blocks.len();
    if x.blocks.iter().any(|b| *b == 0) || x.blocks[..n - 1].windows(2).any(|w| w[0] != w[1]) {
        return Err(format!("bad framing: {:?}", x.blocks));
    }
    let back = from_lzw_blocks(&c);
    if back != d {
        return Err(format!("decompressing gives other bytes: {}", diff_bytes(d, &back)));
    }
    Ok(hash_of(&c))
}

fn foreign(d: &[u8], st: Style) -> Result<u64, String> {
    let c = encode(d, st);
    let x = decode(&c).expect("own stream");
    assert_eq!(x.data, d);
    let back = from_lzw_blocks(&c);
    if back != d {
        return Err(format!("decompressing a foreign stream ({st:?}): {}", diff_bytes(d, &back)));
    }
    Ok(hash_of(&c))
}

pub fn pattern(k: usize, n: usize) -> Vec<u8> {
    let mut s: u32 = 0x1234_5678 ^ (k as u32).wrapping_mul(0x9e37_79b9);
    (0..n)
        .map(|i| match k {
            0 => 0u8,
            1 => (i % 2) as u8 * 255,
            2 => i as u8,
            3 => (i / 3) as u8,
            4 => if i % 4 == 3 { 255 } else { (i * 7 % 5) as u8 },
            _ => {
                s ^= s << 13;
                s ^= s >> 17;
                s ^= s << 5;
                if k == 5 { (s >> 8) as u8 } else { ((s >> 8) & ((1 << (k - 5)) - 1)) as u8 }
            }
        })
        .collect()
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.rule("all byte strings up to length 2 (every byte value) and all strings over small alphabets up to a depth; every length 0..N of ten run/cycle/noise patterns crossing all code-width changes, table-full and clear points; each compressed by the library and decoded by an independent decoder and by the library; the same data compressed by independent encoders of other styles (match length, clear placement, full-table behaviour, every block size, terminator) and decompressed by the library");
    let set = |name: &str, all: Vec<Vec<u8>>| {
        all.par_chunks(512).for_each(|ch| {
            if ctx.too_many() {
                return;
            }
            let mut hs = vec![];
            for d in ch {
                let label = format!("{name}/{}", hex(d));
                if !ctx.wants(&label) {
                    continue;
                }
                match guard(|| own(d)) {
                    Ok(h) => hs.push(h),
                    Err(_) => {
                        ctx.case(&label, || own(d));
                    }
                }
            }
            ctx.bulk(hs.len() as u64, hs);
        });
    };
    let mut short = vec![vec![]];
    for a in 0..=255u8 {
        short.push(vec![a]);
        for b in 0..=255u8 {
            short.push(vec![a, b]);
        }
    }
    set("short", short);
    let words = |alpha: &[u8], depth: usize| {
        let mut all: Vec<Vec<u8>> = vec![];
        let mut lvl: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..depth {
            let mut n = Vec::with_capacity(lvl.len() * alpha.len());
            for w in &lvl {
                for c in alpha {
                    let mut x = w.clone();
                    x.push(*c);
                    n.push(x);
                }
            }
            all.extend(n.iter().cloned());
            lvl = n;
        }
        all
    };
    set("bin", words(&[0, 255], if th { 18 } else { 14 }));
    set("tern", words(&[0, 1, 128], if th { 11 } else { 9 }));
    set("quad", words(&[7, 8, 254, 255], if th { 9 } else { 7 }));
    let maxn = if th { 20000 } else { 9000 };
    let kinds = 10usize;
    ctx.note("pattern_lengths", (maxn + 1) as u64);
    (0..kinds).into_par_iter().for_each(|k| {
        let full = pattern(k, maxn);
        (0..=maxn).into_par_iter().for_each(|n| {
            if ctx.too_many() || (!th && n > 6000 && n % 7 != 0) {
                return;
            }
            let label = format!("pattern{k}/{n}");
            ctx.case(&label, || own(&full[..n]));
        });
    });
    // large inputs
    for k in 0..kinds {
        for n in [65536usize, 262144 + 3, if th { 3_000_000 } else { 600_000 }] {
            ctx.case(&format!("large{k}/{n}"), || own(&pattern(k, n)));
        }
    }
    // foreign encoders
    let mut styles = vec![];
    for max_match in [usize::MAX, 1, 2, 3, 17] {
        for clear_every in [0usize, 1, 2, 3, 100, 254, 255, 256, 257, 3837, 3838] {
            for keep_full in [false, true] {
                styles.push(Style { max_match, clear_every, keep_full, block: 254, terminator: clear_every % 2 == 0 });
            }
        }
    }
    for block in 1..=255 {
        for terminator in [false, true] {
            styles.push(Style { max_match: usize::MAX, clear_every: 0, keep_full: false, block, terminator });
        }
    }
    ctx.note("foreign_styles", styles.len() as u64);
    let mut datas: Vec<(String, Vec<u8>)> = vec![("empty".into(), vec![])];
    for k in 0..kinds {
        for n in [1usize, 2, 3, 253, 254, 255, 256, 257, 500, 511, 512, 1023, 1024, 3836, 3837, 3838, 3839, 3840, 4096, 9001] {
            datas.push((format!("{k}/{n}"), pattern(k, n)));
        }
        if th {
            for n in (0..12000).step_by(61) {
                datas.push((format!("{k}/{n}"), pattern(k, n)));
            }
        }
    }
    styles.par_iter().for_each(|st| {
        for (l, d) in &datas {
            if ctx.too_many() {
                return;
            }
            ctx.case(&format!("foreign/{st:?}/{l}"), || foreign(d, *st));
        }
    });
    let bw = words(&[0, 9], if th { 13 } else { 10 });
    for max_match in [usize::MAX, 1, 2] {
        for clear_every in [0usize, 1, 3] {
            let st = Style { max_match, clear_every, keep_full: false, block: 254, terminator: false };
            bw.par_iter().for_each(|d| {
                let label = format!("foreignbin/{max_match}/{clear_every}/{}", hex(d));
                ctx.case(&label, || foreign(d, st));
            });
        }
    }
}
