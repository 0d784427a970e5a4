//! Verification detects tampering with every protected part and ignores the rest.
//!
//! A tamper is a function of the stream set of a valid file. The file format decides which parts the
//! integrity hash covers: the oracle is the independent hash in `cont::mac`. A tampered file must be
//! rejected exactly when the protected content differs.
use super::common::*;
use super::p01::full_table;
use super::p10::oracle;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use std::io::{Cursor, Write};
use std::path::PathBuf;
use vpin::vpx::{self, VerifyResult};

fn scratch_file(ctx: &Ctx, label: &str) -> PathBuf {
    ctx.scratch.join(format!("v{:016x}.vpx", hash_of(&(label, std::thread::current().id()))))
}

/// true: accepted
fn verify_bytes(ctx: &Ctx, label: &str, bytes: &[u8]) -> Result<bool, String> {
    let p = scratch_file(ctx, label);
    std::fs::write(&p, bytes).unwrap();
    let r = guard(|| Ok(vpx::verify(&p))).map_err(|e| format!("panic: {e}"));
    let after = std::fs::read(&p);
    let _ = std::fs::remove_file(&p);
    if after.map_err(|e| e.to_string())? != bytes {
        return Err("verification modified the file".into());
    }
    match r? {
        VerifyResult::Ok(q) if q == p => Ok(true),
        VerifyResult::Failed(q, _) if q == p => Ok(false),
        o => Err(format!("verification reports another file: {o:?}")),
    }
}

/// The protected content decides; malformed content must never be accepted.
fn judge(ctx: &Ctx, label: &str, s: &Streams) -> Result<u64, String> {
    let well_formed = s
        .iter()
        .filter(|(k, _)| k.starts_with("/GameStg/GameData") || k.starts_with("/GameStg/Coll") || k.starts_with("/GameStg/Custom"))
        .all(|(_, d)| complete(d));
    let want = well_formed && s.get("/GameStg/MAC").is_some_and(|m| m[..] == mac(s)[..]);
    let got = match verify_bytes(ctx, label, &build(s)) {
        Ok(g) => g,
        // a malformed file: not accepted is all that is required
        Err(e) if !well_formed && e.starts_with("panic") => false,
        Err(e) => return Err(e),
    };
    if got != want {
        return Err(if got { "the change is not detected".into() } else { "an untouched table is rejected".to_string() });
    }
    Ok(got as u64)
}

fn complete(d: &[u8]) -> bool {
    let mut p = 0;
    for (t, x) in split_records(d).unwrap_or_default() {
        if !t.is_ascii() || t.chars().any(|c| c < ' ') {
            return false;
        }
        // the script's own length is outside its record
        if t == "CODE" && d[p..p + 4] != [4, 0, 0, 0] {
            return false;
        }
        if t == "CUST" && (x.len() < 4 || x.len() - 4 != u32::from_le_bytes(x[..4].try_into().unwrap()) as usize) {
            return false;
        }
        p += 8 + x.len() + if t == "CODE" { 4 } else { 0 };
    }
    guard(|| Ok(split_records(d).is_some_and(|r| r.last().is_some_and(|(t, _)| t == "ENDB") && encoded_len(&r) == d.len()))).unwrap_or(false)
}
fn encoded_len(r: &[(String, Vec<u8>)]) -> usize {
    r.iter().map(|(t, d)| 8 + d.len() + if t == "CODE" { 4 } else { 0 }).sum()
}

pub const PROTECTED_INFO: [&str; 10] = ["TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb", "TableDescription", "TableRules", "Screenshot"];

fn protected(k: &str) -> bool {
    k == "/GameStg/Version" || k == "/GameStg/GameData" || k == "/GameStg/CustomInfoTags" || k.starts_with("/GameStg/Collection") || PROTECTED_INFO.iter().any(|n| k == format!("/TableInfo/{n}")) || k.starts_with("/TableInfo/Tag") || k == "/GameStg/MAC"
}

/// records of a stream as byte ranges
fn ranges(d: &[u8]) -> Vec<(String, std::ops::Range<usize>)> {
    let mut out = vec![];
    let mut p = 0;
    for (t, x) in split_records(d).unwrap() {
        let n = 8 + x.len() + if t == "CODE" { 4 } else { 0 };
        out.push((t, p..p + n));
        p += n;
    }
    out
}

/// A change of one stream: the part between a common prefix and suffix replaced, or the stream removed.
struct Edit {
    key: String,
    put: Option<(usize, usize, Vec<u8>)>,
}
fn edit(s: &Streams, k: &str, d: Option<Vec<u8>>) -> Edit {
    let old: &[u8] = s.get(k).map(|x| &x[..]).unwrap_or(&[]);
    Edit {
        key: k.to_string(),
        put: d.map(|d| {
            let pre = old.iter().zip(&d).take_while(|(a, b)| a == b).count();
            let max = old.len().min(d.len()) - pre;
            let post = old.iter().rev().zip(d.iter().rev()).take(max).take_while(|(a, b)| a == b).count();
            (pre, post, d[pre..d.len() - post].to_vec())
        }),
    }
}
impl Edit {
    fn apply(&self, s: &mut Streams) {
        match &self.put {
            None => {
                s.remove(&self.key);
            }
            Some((pre, post, mid)) => {
                let old = s.entry(self.key.clone()).or_default();
                *old = [&old[..*pre], mid, &old[old.len() - post..]].concat();
            }
        }
    }
}

fn explore(ctx: &Ctx, name: &str, t: &Table, th: bool, light: bool) {
    let s = t.streams();
    let mut tampers: Vec<(String, Vec<Edit>)> = vec![("none".into(), vec![])];
    let mut put = |l: String, k: &str, d: Option<Vec<u8>>| {
        tampers.push((l, vec![edit(&s, k, d)]));
    };
    for (k, d) in &s {
        let prot = protected(k);
        put(format!("{k}/removed"), k, None);
        put(format!("{k}/emptied"), k, Some(vec![]));
        put(format!("{k}/appended"), k, Some([&d[..], &[0]].concat()));
        if !d.is_empty() {
            put(format!("{k}/cut"), k, Some(d[..d.len() - 1].to_vec()));
        }
        // single byte changes
        let skip = k.contains("GameData") && !name.starts_with("full") && !name.starts_with("light") && name != "bare";
        let biff = prot && !skip && split_records(d).is_some_and(|_| k.contains("GameData") || k.contains("Collection") || k.contains("CustomInfo"));
        let masks: &[u8] = if th { &[1, 2, 4, 8, 16, 32, 64, 128] } else { &[1] };
        for i in 0..d.len() {
            if (!prot || light) && !(i < 2 || i + 2 >= d.len() || i == d.len() / 2) && !(th && !light) {
                continue;
            }
            if light && (biff || skip) {
                continue;
            }
            // long payloads: the neighbourhood of every container boundary is enough in the middle
            if d.len() > 3000 && !th && prot && !(i < 70 || i + 70 > d.len() || (i + 2) % 64 < 4) {
                continue;
            }
            for m in if prot { masks } else { &[1u8][..] } {
                let mut e = d.clone();
                e[i] ^= m;
                put(format!("{k}/byte{i}^{m}"), k, Some(e));
            }
        }
        if biff {
            let r = ranges(d);
            for (i, (tag, x)) in r.iter().enumerate() {
                let rest = |mid: &[u8]| [&d[..x.start], mid, &d[x.end..]].concat();
                put(format!("{k}/drop{i}:{tag}"), k, Some(rest(&[])));
                put(format!("{k}/dup{i}:{tag}"), k, Some(rest(&[&d[x.clone()], &d[x.clone()]].concat())));
                put(format!("{k}/new-after{i}:{tag}"), k, Some(rest(&[&d[x.clone()], &rec("ZZZZ", &[1, 2])[..]].concat())));
                // the payload's first, last and middle byte
                if light {
                    for o in [8, 12, (8 + x.len()) / 2, x.len() - 1] {
                        if o < x.len() {
                            let mut e = d[x.clone()].to_vec();
                            e[o] ^= 0x10;
                            put(format!("{k}/record{i}:{tag}@{o}"), k, Some(rest(&e)));
                        }
                    }
                }
                // the payload one byte longer, the length adjusted
                if tag != "CODE" && tag != "ENDB" {
                    let mut e = d[x.clone()].to_vec();
                    e.push(0);
                    let n = (e.len() - 4) as u32;
                    e[..4].copy_from_slice(&n.to_le_bytes());
                    put(format!("{k}/grown{i}:{tag}"), k, Some(rest(&e)));
                    if x.len() > 8 {
                        let mut e = d[x.start..x.end - 1].to_vec();
                        let n = (e.len() - 4) as u32;
                        e[..4].copy_from_slice(&n.to_le_bytes());
                        put(format!("{k}/shrunk{i}:{tag}"), k, Some(rest(&e)));
                    }
                } else if tag == "CODE" {
                    for (l, f) in [("longer", 1i64), ("shorter", -1)] {
                        let mut e = d[x.clone()].to_vec();
                        if f > 0 {
                            e.push(b' ');
                        } else if e.len() > 12 {
                            e.pop();
                        } else {
                            continue;
                        }
                        let n = (e.len() - 12) as u32;
                        e[8..12].copy_from_slice(&n.to_le_bytes());
                        put(format!("{k}/script-{l}"), k, Some(rest(&e)));
                    }
                }
                for (j, (tag2, y)) in r.iter().enumerate().skip(i + 1) {
                    if tag == "ENDB" || tag2 == "ENDB" || (j > i + 1 && (light || !th)) {
                        continue;
                    }
                    let e = [&d[..x.start], &d[y.clone()], &d[x.end..y.start], &d[x.clone()], &d[y.end..]].concat();
                    put(format!("{k}/swap{i}:{tag},{j}:{tag2}"), k, Some(e));
                }
            }
        }
    }
    // contents of two streams exchanged
    let keys: Vec<&String> = s.keys().filter(|k| k.contains("/TableInfo/") || k.contains("/Collection")).collect();
    for (i, a) in keys.iter().enumerate() {
        for b in &keys[i + 1..] {
            if a.contains("/Collection") != b.contains("/Collection") || (keys.len() > 60 && !th && i > 2) {
                continue;
            }
            tampers.push((format!("exchange:{a},{b}"), vec![edit(&s, a, Some(s[*b].clone())), edit(&s, b, Some(s[*a].clone()))]));
        }
    }
    // additions
    let n = t.collections.len();
    for (k, d) in [
        (format!("/GameStg/Collection{n}"), collection_stream("new", &["a"], [false; 3])),
        (format!("/GameStg/Collection{}", n + 1), collection_stream("not reached", &[], [false; 3])),
        ("/GameStg/GameItem9000".into(), vec![1, 2, 3]),
        ("/GameStg/Foreign".into(), vec![1]),
        ("/TableInfo/NotListed".into(), utf16("x")),
        ("/TableInfo/Tag9000".into(), utf16("x")),
        ("/Foreign".into(), vec![5; 5000]),
    ] {
        tampers.push((format!("added:{k}"), vec![edit(&s, &k, Some(d))]));
    }
    for i in 0..n {
        // removed with the later ones moved up
        let mut u = t.clone();
        u.collections.remove(i);
        let mut x = u.streams();
        x.insert("/GameStg/GameData".into(), s["/GameStg/GameData"].clone());
        x.insert("/GameStg/MAC".into(), s["/GameStg/MAC"].clone());
        let all: Vec<Edit> = s.keys().chain(x.keys()).map(|k| edit(&s, k, x.get(k).cloned())).collect();
        tampers.push((format!("collection-removed:{i}"), all));
    }
    ctx.add(&format!("tampers_{name}"), tampers.len() as u64);
    if std::env::var("MC_TIME").is_ok() {
        let a = std::time::Instant::now();
        let b = build(&s);
        let c = std::time::Instant::now();
        let _ = verify_bytes(ctx, "time", &b);
        let d = std::time::Instant::now();
        let _ = mac(&s);
        eprintln!("{name}: {} tampers, {} streams, {} bytes, build {:?} verify {:?} mac {:?}", tampers.len(), s.len(), b.len(), c - a, d - c, d.elapsed());
    }
    tampers.par_iter().for_each(|(l, x)| {
        if ctx.too_many() {
            return;
        }
        let label = format!("tamper/{name}/{}", l.replace(' ', "_"));
        ctx.case(&label, || {
            let mut y = s.clone();
            for e in x {
                e.apply(&mut y);
            }
            judge(ctx, &label, &y)
        });
    });
}

/// The same streams in another arrangement of the file.
fn layouts(ctx: &Ctx, name: &str, t: &Table) {
    let s = t.streams();
    let mut orders: Vec<(String, Vec<&String>)> = vec![];
    let fwd: Vec<&String> = s.keys().collect();
    orders.push(("sorted".into(), fwd.clone()));
    orders.push(("reversed".into(), fwd.iter().rev().copied().collect()));
    for k in [3usize, 7] {
        let mut o = vec![];
        for i in 0..k {
            o.extend(fwd.iter().skip(i).step_by(k).copied());
        }
        orders.push((format!("stride{k}"), o));
    }
    for (ol, o) in &orders {
        for v in [cfb::Version::V3, cfb::Version::V4] {
            for extra in 0..4 {
                for tampered in [false, true] {
                    let label = format!("layout/{name}/{ol}/{v:?}/{extra}/{}", if tampered { "tampered" } else { "intact" });
                    ctx.case(&label, || {
                        let mut c = cfb::CompoundFile::create_with_version(v, Cursor::new(Vec::new())).unwrap();
                        if extra & 1 == 1 {
                            let mut x = c.create_new_stream("/before").unwrap();
                            x.write_all(&vec![9; 9000]).unwrap();
                            drop(x);
                            let mut x = c.create_new_stream("/small before").unwrap();
                            x.write_all(&[9; 90]).unwrap();
                        }
                        c.create_storage("/GameStg").unwrap();
                        c.create_storage("/TableInfo").unwrap();
                        for p in o {
                            let mut st = c.create_new_stream(p).unwrap();
                            // written in pieces
                            for piece in s[*p].chunks(if extra & 2 == 2 { 10 } else { 1 << 20 }) {
                                st.write_all(piece).unwrap();
                            }
                        }
                        if extra & 1 == 1 {
                            c.remove_stream("/before").unwrap();
                            c.remove_stream("/small before").unwrap();
                        }
                        if extra == 3 {
                            c.set_state_bits("/GameStg/GameData", 3).unwrap();
                            c.set_storage_clsid("/GameStg", uuid::Uuid::from_u128(5)).unwrap();
                            c.touch("/GameStg").unwrap();
                        }
                        if tampered {
                            let mut st = c.open_stream("/GameStg/GameData").unwrap();
                            use std::io::Seek;
                            st.seek(std::io::SeekFrom::Start(8)).unwrap();
                            st.write_all(&[0xEE]).unwrap();
                        }
                        c.flush().unwrap();
                        let got = verify_bytes(ctx, &label, &c.into_inner().into_inner())?;
                        if got == tampered {
                            return Err(format!("accepted: {got}"));
                        }
                        Ok(got as u64)
                    });
                }
            }
        }
    }
}

/// Histories of tampering, restoring and library operations on one file.
fn histories(ctx: &Ctx, t: &Table, depth: usize) {
    let s0 = t.streams();
    // (label, stream, flip offset from the end)
    let letters: Vec<(&str, &str, usize)> = vec![
        ("name", "/TableInfo/TableName", 1),
        ("tag", "/TableInfo/Tag1", 1),
        ("header", "/GameStg/GameData", s0["/GameStg/GameData"].len() - 8),
        ("collection", "/GameStg/Collection1", 9),
        ("mac", "/GameStg/MAC", 1),
        ("image", "/GameStg/Image0", 12),
        ("date", "/TableInfo/TableSaveDate", 1),
        ("item", "/GameStg/GameItem3", 20),
    ];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for q in seqs.iter().filter(|q| q.len() + 1 > 0) {
            for i in 0..letters.len() + 2 {
                let mut q = q.clone();
                q.push(i);
                next.push(q);
            }
        }
        seqs = next;
    }
    ctx.add_states(0, 0);
    seqs.par_iter().for_each(|q| {
        if ctx.too_many() {
            return;
        }
        let name: Vec<String> = q.iter().map(|i| letters.get(*i).map(|l| l.0.to_string()).unwrap_or_else(|| ["compact", "reopen-rw"][*i - letters.len()].to_string())).collect();
        let label = format!("history/{}", name.join(","));
        ctx.case(&label, || {
            let p = scratch_file(ctx, &label);
            std::fs::write(&p, build(&s0)).unwrap();
            let mut s = s0.clone();
            let mut out = 0u64;
            for i in q {
                if let Some((_, k, off)) = letters.get(*i) {
                    let d = s.get_mut(*k).unwrap();
                    let n = d.len() - off;
                    d[n] ^= 1;
                    let mut c = cfb::open_rw(&p).unwrap();
                    c.create_stream(k).unwrap().write_all(d).unwrap();
                    c.flush().unwrap();
                } else if *i == letters.len() {
                    vpx::compact(&p).map_err(err("compact"))?;
                } else {
                    drop(vpx::open_rw(&p).map_err(err("open_rw"))?);
                }
                let want = s["/GameStg/MAC"][..] == mac(&s)[..];
                let got = matches!(vpx::verify(&p), VerifyResult::Ok(_));
                if got != want {
                    return Err(format!("accepted {got}, expected {want}"));
                }
                out = out * 2 + got as u64;
            }
            let _ = std::fs::remove_file(&p);
            ctx.add_states(q.len() as u64, q.len() as u64);
            Ok(out)
        });
        let _ = std::fs::remove_file(scratch_file(ctx, &label));
    });
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.rule("every protected stream of tables with every component: removed, emptied, extended, cut, every byte changed, every record dropped, repeated, inserted, grown, shrunk, exchanged with its neighbour; contents of any two streams exchanged; collections added and removed; the same for unprotected streams (must stay accepted); other arrangements of the same file; histories of tampering and restoring. A file is accepted exactly when the independent hash of its protected content is the stored one");
    ctx.assume("the format's hash is over the concatenation of the protected contents: a change that moves bytes between neighbouring parts without changing the concatenation is not a detectable change");
    ctx.assume("malformed records (lengths that leave the stream) only have to be not accepted");
    oracle(ctx);
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::All, thorough: th };
    let versions: &[u32] = if th { &VERSIONS } else { &[1072, 1081] };
    for v in versions {
        let mut t = full_table(&spec, &g, *v);
        t.set("CODE", [rec("CODE", &[])[..4].to_vec(), b"CODE".to_vec(), lstr(b"Option Explicit\r\nDim x\r\n' CODE ENDB \x04\x00\x00\x00NAME")].concat());
        explore(ctx, &format!("full{v}"), &t, th, false);
        layouts(ctx, &format!("full{v}"), &t);
    }
    for v in VERSIONS.into_iter().filter(|v| th || [900, 1040, 1080].contains(v)) {
        explore(ctx, &format!("light{v}"), &full_table(&spec, &g, v), th, true);
    }
    // no custom tags stream, no collections, nothing
    let mut t = Table::new(&spec, 1080);
    t.custom_tags = None;
    explore(ctx, "bare", &t, th, false);
    layouts(ctx, "bare", &t);
    // sizes of the protected texts around the container's boundaries
    for n in [1usize, 63, 64, 65, 511, 512, 4094, 4095, 4096, 4097, 8192, 66_000] {
        let mut t = Table::new(&spec, 1072);
        for name in PROTECTED_INFO {
            if n > 60_000 && name != "Screenshot" {
                continue;
            }
            t.info.push((name.into(), (0..n).map(|i| (i * 7 % 251) as u8).collect()));
        }
        t.custom_tags = Some(vec!["Tag1".into()]);
        t.info.push(("Tag1".into(), vec![3; n]));
        t.collections.push(collection_stream(&"n".repeat(n.min(300)), &vec!["item"; (n / 16).min(12)], [true; 3]));
        explore(ctx, &format!("size{n}"), &t, false, true);
    }
    // tampering deep inside large parts, and with any of many parts
    let large = super::large::some(th, &super::large::HASHED, if th { 1 } else { 2 });
    on_threads(&large, |l| {
        if ctx.too_many() {
            return;
        }
        let s = l.table(&spec).streams();
        let mut tampers: Vec<(String, String, Option<Vec<u8>>)> = vec![("none".into(), "/GameStg/MAC".into(), s.get("/GameStg/MAC").cloned())];
        // the streams that hold the part: the largest ones, or those there are many of
        let mut keys: Vec<&String> = s.keys().filter(|k| protected(k)).collect();
        keys.sort_by_key(|k| std::cmp::Reverse(s[*k].len()));
        let many = keys.len() > 40;
        if many {
            keys.sort_by_key(|k| k.trim_start_matches(|c: char| !c.is_ascii_digit()).parse::<u64>().unwrap_or(0));
            let n = keys.len();
            let pick: Vec<usize> = (0..n).filter(|i| n - i <= 4 || (i + 1).is_power_of_two() || i.is_power_of_two() || [10, 11, 100, 101, 500, 1000].contains(i)).collect();
            keys = pick.into_iter().map(|i| keys[i]).collect();
        } else {
            keys.truncate(1);
        }
        for k in keys {
            let d = &s[k];
            tampers.push((format!("{k}/removed"), k.clone(), None));
            let mut at: Vec<usize> = vec![0, d.len() / 2, d.len().saturating_sub(9), d.len().saturating_sub(1)];
            if !many {
                for b in 12..25 {
                    at.extend([(1usize << b) - 1, 1 << b]);
                }
                at.extend([1_000_000, 10_000_000, d.len().saturating_sub(100), d.len() / 3]);
            }
            at.retain(|a| *a < d.len());
            at.sort();
            at.dedup();
            // in the quick tier the positions of a multi-megabyte part are the largest ones
            if !th && d.len() > 300_000 {
                at.drain(1..at.len().saturating_sub(7).max(1));
            }
            for a in at {
                let mut x = d.clone();
                x[a] ^= 1;
                tampers.push((format!("{k}/byte{a}"), k.clone(), Some(x)));
            }
        }
        ctx.add("tampers_large", tampers.len() as u64);
        for (n, k, d) in tampers {
            let label = format!("tamper/{}/{n}", l.label);
            ctx.case(&label, || {
                let mut y = s.clone();
                edit(&s, &k, d.clone()).apply(&mut y);
                judge(ctx, &label, &y)
            });
        }
    });
    // many collections and custom tags
    for n in [3usize, 11, 101] {
        let mut t = Table::new(&spec, 1072);
        for i in 0..n {
            t.collections.push(collection_stream(&format!("c{i}"), &["a", "b"][..i % 3 % 2 + 1], [i % 2 == 0, false, true]));
        }
        let tags: Vec<String> = (0..n).map(|i| format!("Tag{i}")).collect();
        for x in &tags {
            t.info.push((x.clone(), utf16(&format!("value {x}"))));
        }
        t.custom_tags = Some(tags);
        explore(ctx, &format!("many{n}"), &t, false, true);
    }
    histories(ctx, &full_table(&spec, &g, 1072), if th { 5 } else { 3 });
    // not a table at all
    for (l, b) in [("empty", vec![]), ("text", b"not a table".to_vec()), ("zeros", vec![0; 5000])] {
        let label = format!("file/{l}");
        ctx.case(&label, || if verify_bytes(ctx, &label, &b)? { Err("accepted".into()) } else { Ok(0) });
    }
    ctx.case("file/missing", || match vpx::verify(&ctx.scratch.join("missing.vpx")) {
        VerifyResult::Failed(..) => Ok(0),
        o => Err(format!("{o:?}")),
    });
}
