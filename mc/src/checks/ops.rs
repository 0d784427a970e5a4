//! Histories of library operations on a real table file, compared step by step with an abstract
//! model (the expected streams).
use super::common::*;
use super::exp::*;
use super::p03::png;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use std::collections::BTreeSet;
use std::fs::File;
use std::path::{Path, PathBuf};
use vpin::vpx::{self, VpxFile};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Lock,
    Unlock,
    SaveName(usize),
    SaveCode(usize),
    Webp,
    // the rest works on the path; an open handle is closed first
    Reopen,
    Import(usize),
    /// extract to the sidecar, then import it again
    ExtractImport,
    /// extraction must not overwrite an existing script
    ExtractKeep,
    Compact,
    Rewrite,
    Reassemble,
    AddImage(usize),
    AddItem(usize),
    SetScript(usize),
    AddCollection,
    SetInfo(usize),
    Create,
}
impl Op {
    fn on_handle(self) -> bool {
        matches!(self, Op::Lock | Op::Unlock | Op::SaveName(_) | Op::SaveCode(_) | Op::Webp)
    }
}

/// What a check looks at; for the rest the model follows the file.
#[derive(Clone, Copy, Default)]
pub struct Look {
    pub content: bool,
    pub mac: bool,
    pub lock: bool,
    pub script: bool,
}

pub fn script(k: usize) -> String {
    match k {
        0 => "' a\r\n".into(),
        1 => String::new(),
        2 => "\u{feff}' caf\u{e9} \u{4e2d}\u{1f600}\r\n".repeat(400),
        3 => "Sub Table1_Init\nEnd Sub\n\t\x7f\x01tail".into(),
        k => "x".repeat(k),
    }
}
pub fn new_name(k: usize) -> &'static str {
    ["Renamed", "a much longer table name \u{e9}\u{4e2d} for the header"][k]
}

/// Records of the header, in order.
pub fn header_of(s: &Streams) -> Vec<(String, Vec<u8>)> {
    split_records(&s["/GameStg/GameData"]).expect("header records")
}
pub fn put_header(s: &mut Streams, h: &[(String, Vec<u8>)]) {
    let mut d = vec![];
    for (t, v) in h {
        if t == "CODE" {
            d.extend(rec_len("CODE", &lstr(v), 4));
        } else {
            d.extend(rec(t, v));
        }
    }
    s.insert("/GameStg/GameData".into(), d);
}
pub fn header_get(s: &Streams, tag: &str) -> Option<Vec<u8>> {
    header_of(s).into_iter().find(|(t, _)| t == tag).map(|x| x.1)
}
/// Replaces a header record, or inserts it where the format's order has it.
pub fn header_set(spec: &Spec, s: &mut Streams, tag: &str, v: &[u8]) {
    let mut h = header_of(s);
    if let Some(e) = h.iter_mut().find(|(t, _)| t == tag) {
        e.1 = v.to_vec();
    } else {
        let order: Vec<&str> = spec.get("GameData").fields.iter().map(|f| f.tag.as_str()).collect();
        let at = order.iter().position(|t| *t == tag).expect("known header record");
        let later: BTreeSet<&str> = order[at + 1..].iter().copied().filter(|t| !order[..at].contains(t)).collect();
        let p = h.iter().position(|(t, _)| t == "ENDB" || later.contains(t.as_str())).unwrap();
        h.insert(p, (tag.to_string(), v.to_vec()));
    }
    put_header(s, &h);
}
pub fn refresh(s: &mut Streams) {
    let m = mac(s);
    s.insert("/GameStg/MAC".into(), m.to_vec());
}
pub fn lock_counter(s: &Streams) -> u32 {
    header_get(s, "TLCK").map(|v| u32::from_le_bytes(v[..4].try_into().unwrap())).unwrap_or(0)
}

/// Table with the parts from which additions are taken.
pub struct Donor {
    pub spec: Spec,
    pub bytes: Vec<u8>,
    pub images: Vec<Vec<u8>>,
    pub items: Vec<Vec<u8>>,
    pub minimal: Streams,
}
impl Donor {
    pub fn new(scratch: &Path) -> Donor {
        let spec = Spec::load();
        let (bytes, images, items);
        {
            let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
            let mut t = Table::new(&spec, 1081);
            images = vec![
                Img::jpeg("Fresh", "c:\\fresh.png", &png(5, 3)).enc(),
                // differs from an image of the start table only in case
                Img::jpeg("PHOTO", "c:\\new photo.jpg", &[9; 300]).enc(),
                Img::jpeg("ph\u{6f}to2", "c:\\x.webp", &[3; 4500]).enc(),
            ];
            t.images = images.clone();
            let by = |n: &str| {
                let l = spec.get(n);
                let b = g.base_vals(l);
                g.item_bytes(l, &b.iter().collect::<Vec<_>>())
            };
            items = vec![by("Bumper"), by("Wall")];
            t.items = items.clone();
            bytes = t.bytes();
        }
        let p = scratch.join("donor-minimal.vpx");
        vpx::new_minimal_vpx(&p).unwrap();
        let minimal = dump(&std::fs::read(&p).unwrap()).unwrap();
        Donor { spec, bytes, images, items, minimal }
    }
}

/// Start tables of the histories.
pub fn starts(donor: &Donor, th: bool) -> Vec<(String, Vec<u8>)> {
    let spec = &donor.spec;
    let g = Gen { spec, floats: Floats::Finite, thorough: false };
    let mut o = vec![("minimal".to_string(), build(&donor.minimal))];
    let mut t = Table::new(spec, 1072);
    t.images.push(Img::jpeg("photo", "c:\\photo.png", &png(4, 3)).enc());
    t.images.push(Img::bmp("bitmap", "c:\\bitmap.bmp", 5, 4, super::p03::bits(5, 4, 255)).enc());
    t.images.push(Img::jpeg("Photo", "c:\\photo.jpg", &[1; 200]).enc());
    t.sounds.push(Snd::new("s", "s.wav", &[1; 600]).enc(1072));
    t.items = donor.items.clone();
    t.fonts.push(font_stream(b"arial", b"C:\\f.ttf", &[7; 5000]));
    t.collections.push(collection_stream("c", &["a", "b"], [true, false, true]));
    t.collections.push(collection_stream("d", &[], [false, false, false]));
    t.custom_tags = Some(vec!["tag one".into(), "absent".into(), "T\u{e9}g".into()]);
    for (k, v) in [("TableName", "nom \u{e9}\u{4e2d}"), ("AuthorName", "me"), ("TableSaveRev", "12"), ("TableRules", "rules"), ("tag one", "value"), ("T\u{e9}g", "v\u{e9}"), ("unlisted", "u")] {
        t.info.push((k.into(), utf16(v)));
    }
    t.info.push(("Screenshot".into(), vec![0x89; 4200]));
    o.push(("mixed-1072".into(), t.bytes()));
    let mut u = t;
    u.version = 1060;
    u.gamedata = header_base(&g, 1060);
    u.set("TLCK", vec![]);
    u.sounds = vec![Snd::new("s", "s.wav", &[1; 600]).enc(1060)];
    u.custom_tags = None;
    o.push(("no lock, no tags".into(), u.bytes()));
    u.version = 1081;
    u.gamedata = header_base(&g, 1081);
    u.set("TLCK", rec("TLCK", &u32::MAX.to_le_bytes()));
    u.sounds = vec![];
    u.custom_tags = Some(vec![]);
    o.push(("lock counter at its end".into(), u.bytes()));
    if th {
        o.push(("full-1081".into(), super::p03::full_exp_table(spec, &g, 1081).bytes()));
    }
    o
}

pub struct World<'a> {
    pub donor: &'a Donor,
    pub dir: PathBuf,
    pub path: PathBuf,
    pub model: Streams,
    pub handle: Option<VpxFile<File>>,
    pub look: Look,
    pub last_script: Option<Vec<u8>>,
}

fn e<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

impl<'a> World<'a> {
    pub fn new(donor: &'a Donor, dir: PathBuf, bytes: &[u8], look: Look) -> World<'a> {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join("t.vpx");
        std::fs::write(&path, bytes).unwrap();
        World { donor, dir, path, model: dump(bytes).unwrap(), handle: None, look, last_script: None }
    }
    fn handle(&mut self) -> Result<&mut VpxFile<File>, String> {
        if self.handle.is_none() {
            self.handle = Some(vpx::open_rw(&self.path).map_err(e("open_rw"))?);
        }
        Ok(self.handle.as_mut().unwrap())
    }
    fn set_code(&mut self, s: &str) {
        let spec = &self.donor.spec;
        header_set(spec, &mut self.model, "CODE", s.as_bytes());
    }
    pub fn raw(&self) -> Vec<u8> {
        std::fs::read(&self.path).unwrap_or_default()
    }

    /// Performs one operation and compares the file with the model.
    pub fn step(&mut self, op: Op) -> Result<u64, String> {
        let spec = &self.donor.spec;
        let before = self.raw();
        let old = self.model.clone();
        if !op.on_handle() {
            self.handle = None;
        }
        let mut untouched = false;
        let mut images_free = false;
        let mut ret = 0u64;
        match op {
            Op::Lock | Op::Unlock => {
                let want = op == Op::Lock;
                let n = lock_counter(&self.model);
                let is = n & 1 == 1;
                let h = self.handle()?;
                let was = h.is_locked().map_err(e("is_locked"))?;
                let r = if want { h.lock() } else { h.unlock() }.map_err(e("lock/unlock"))?;
                let now = h.is_locked().map_err(e("is_locked"))?;
                if self.look.lock {
                    if was != is {
                        return Err(format!("reported locked={was} before the call, counter {n}"));
                    }
                    if r != (want != is) {
                        return Err(format!("{op:?} of a table with locked={is} reported change={r}"));
                    }
                    if now != want {
                        return Err(format!("reported locked={now} after {op:?}"));
                    }
                }
                if want != is {
                    header_set(spec, &mut self.model, "TLCK", &n.wrapping_add(1).to_le_bytes());
                    refresh(&mut self.model);
                } else {
                    untouched = true;
                }
                ret = r as u64;
            }
            Op::SaveName(k) => {
                let h = self.handle()?;
                let mut g = h.read_gamedata().map_err(e("read_gamedata"))?;
                g.name = new_name(k).to_string();
                h.write_gamedata(&g).map_err(e("write_gamedata"))?;
                header_set(spec, &mut self.model, "NAME", &wstr(new_name(k)));
                refresh(&mut self.model);
            }
            Op::SaveCode(k) => {
                let h = self.handle()?;
                let mut g = h.read_gamedata().map_err(e("read_gamedata"))?;
                g.set_code(script(k));
                h.write_gamedata(&g).map_err(e("write_gamedata"))?;
                self.set_code(&script(k));
                refresh(&mut self.model);
            }
            Op::Webp => {
                self.handle()?.images_to_webp().map_err(e("images_to_webp"))?;
                images_free = true;
            }
            Op::Reopen => {
                untouched = true;
                let mut h = vpx::open(&self.path).map_err(e("open"))?;
                let l = h.is_locked().map_err(e("is_locked"))?;
                if self.look.lock && l != (lock_counter(&self.model) & 1 == 1) {
                    return Err(format!("a new handle reports locked={l}, the counter is {}", lock_counter(&self.model)));
                }
            }
            Op::Import(k) => {
                let p = self.dir.join(format!("import {k}.vbs"));
                std::fs::write(&p, script(k)).unwrap();
                let r = vpx::importvbs(&self.path, Some(p.clone())).map_err(e("importvbs"))?;
                if r != p {
                    return Err(format!("importvbs returned {}", r.display()));
                }
                self.set_code(&script(k));
                refresh(&mut self.model);
                std::fs::remove_file(&p).unwrap();
            }
            Op::ExtractImport => {
                let side = self.path.with_extension("vbs");
                let r = vpx::extractvbs(&self.path, None, true).map_err(e("extractvbs"))?;
                match r {
                    vpx::ExtractResult::Extracted(p) if p == side => {}
                    r => return Err(format!("extractvbs returned {r:?}")),
                }
                let got = std::fs::read(&side).map_err(e("sidecar"))?;
                let want = header_get(&self.model, "CODE").unwrap();
                let want = String::from_utf8(want.clone()).unwrap_or_else(|_| latin1(&want));
                if self.look.script && got != want.as_bytes() {
                    return Err(format!("extracted script: {}", diff_bytes(want.as_bytes(), &got)));
                }
                if self.raw() != before {
                    return Err("extracting the script changed the table file".into());
                }
                vpx::importvbs(&self.path, None).map_err(e("importvbs"))?;
                self.set_code(&String::from_utf8(got).map_err(|x| x.to_string())?);
                refresh(&mut self.model);
            }
            Op::ExtractKeep => {
                untouched = true;
                let p = self.dir.join("keep.vbs");
                std::fs::write(&p, b"mine").unwrap();
                match vpx::extractvbs(&self.path, Some(p.clone()), false).map_err(e("extractvbs"))? {
                    vpx::ExtractResult::Existed(q) if q == p => {}
                    r => return Err(format!("extractvbs without overwriting returned {r:?}")),
                }
                if std::fs::read(&p).unwrap() != b"mine" {
                    return Err("an existing script was overwritten without being asked".into());
                }
                std::fs::remove_file(&p).unwrap();
            }
            Op::Compact => vpx::compact(&self.path).map_err(e("compact"))?,
            Op::Rewrite => {
                let v = vpx::read(&self.path).map_err(e("read"))?;
                vpx::write(&self.path, &v).map_err(e("write"))?;
                self.model.entry("/GameStg/CustomInfoTags".into()).or_insert_with(endb);
                refresh(&mut self.model);
            }
            Op::Reassemble => {
                let v = vpx::read(&self.path).map_err(e("read"))?;
                let fs = extract(&v, FORMATS[0], false)?;
                let v = assemble(&fs)?;
                vpx::write(&self.path, &v).map_err(e("write"))?;
                self.model.entry("/GameStg/CustomInfoTags".into()).or_insert_with(endb);
                let code = header_get(&self.model, "CODE").unwrap();
                let _ = code;
                refresh(&mut self.model);
            }
            Op::AddImage(k) => {
                let mut v = vpx::read(&self.path).map_err(e("read"))?;
                let img = load(&self.donor.bytes)?.images.remove(k);
                let name = img.name.clone();
                let r = v.add_or_replace_image(img);
                vpx::write(&self.path, &v).map_err(e("write"))?;
                self.model.entry("/GameStg/CustomInfoTags".into()).or_insert_with(endb);
                let n = u32::from_le_bytes(header_get(&self.model, "SIMG").unwrap()[..4].try_into().unwrap());
                let stored = |i: u32| {
                    let d = &self.model[&format!("/GameStg/Image{i}")];
                    latin1(&split_records(d).map(|r| r[0].1[4..].to_vec()).unwrap_or_else(|| d[12..12 + u32::from_le_bytes(d[8..12].try_into().unwrap()) as usize].to_vec()))
                };
                let hit = (0..n).find(|i| stored(*i).eq_ignore_ascii_case(&name));
                match (hit, r) {
                    (Some(i), vpx::AddImageResult::Replaced(o)) => {
                        if self.look.content && o.name != stored(i) {
                            return Err(format!("replaced image reported as {}", o.name));
                        }
                        self.model.insert(format!("/GameStg/Image{i}"), self.donor.images[k].clone());
                        ret = 1;
                    }
                    (None, vpx::AddImageResult::Added) => {
                        self.model.insert(format!("/GameStg/Image{n}"), self.donor.images[k].clone());
                        header_set(spec, &mut self.model, "SIMG", &(n + 1).to_le_bytes());
                    }
                    (h, vpx::AddImageResult::Added) if self.look.content => return Err(format!("image {name} was added although image {h:?} has that name")),
                    (h, _) if self.look.content => return Err(format!("an image was replaced by {name}, expected {h:?}")),
                    _ => {}
                }
                refresh(&mut self.model);
            }
            Op::AddItem(k) => {
                let mut v = vpx::read(&self.path).map_err(e("read"))?;
                let it = load(&self.donor.bytes)?.gameitems.remove(k);
                v.add_game_item(it);
                vpx::write(&self.path, &v).map_err(e("write"))?;
                self.model.entry("/GameStg/CustomInfoTags".into()).or_insert_with(endb);
                let n = u32::from_le_bytes(header_get(&self.model, "SEDT").unwrap()[..4].try_into().unwrap());
                self.model.insert(format!("/GameStg/GameItem{n}"), self.donor.items[k].clone());
                header_set(spec, &mut self.model, "SEDT", &(n + 1).to_le_bytes());
                refresh(&mut self.model);
            }
            Op::SetScript(k) => {
                let mut v = vpx::read(&self.path).map_err(e("read"))?;
                v.set_script(script(k));
                vpx::write(&self.path, &v).map_err(e("write"))?;
                self.model.entry("/GameStg/CustomInfoTags".into()).or_insert_with(endb);
                self.set_code(&script(k));
                refresh(&mut self.model);
            }
            Op::AddCollection => {
                let mut v = vpx::read(&self.path).map_err(e("read"))?;
                v.collections.push(vpx::collection::Collection { name: "added".into(), items: vec!["x".into()], fire_events: true, stop_single_events: false, group_elements: true });
                v.gamedata.collections_size += 1;
                vpx::write(&self.path, &v).map_err(e("write"))?;
                self.model.entry("/GameStg/CustomInfoTags".into()).or_insert_with(endb);
                let n = u32::from_le_bytes(header_get(&self.model, "SCOL").unwrap()[..4].try_into().unwrap());
                self.model.insert(format!("/GameStg/Collection{n}"), collection_stream("added", &["x"], [true, false, true]));
                header_set(spec, &mut self.model, "SCOL", &(n + 1).to_le_bytes());
                refresh(&mut self.model);
            }
            Op::SetInfo(k) => {
                let mut v = vpx::read(&self.path).map_err(e("read"))?;
                let (name, blurb, tag) = [("one", None, None), ("two \u{e9}", Some("blurb"), Some("tag one"))][k];
                v.info.table_name = Some(name.into());
                v.info.table_blurb = blurb.map(|s: &str| s.to_string());
                if let Some(t) = tag {
                    v.info.properties.insert(t.into(), "changed".into());
                }
                vpx::write(&self.path, &v).map_err(e("write"))?;
                self.model.entry("/GameStg/CustomInfoTags".into()).or_insert_with(endb);
                self.model.insert("/TableInfo/TableName".into(), utf16(name));
                match blurb {
                    Some(b) => self.model.insert("/TableInfo/TableBlurb".into(), utf16(b)),
                    None => self.model.remove("/TableInfo/TableBlurb"),
                };
                if let Some(t) = tag {
                    self.model.insert(format!("/TableInfo/{t}"), utf16("changed"));
                }
                refresh(&mut self.model);
            }
            Op::Create => {
                vpx::new_minimal_vpx(&self.path).map_err(e("new_minimal_vpx"))?;
                self.model = self.donor.minimal.clone();
            }
        }
        // the file against the model
        let after = self.raw();
        let got = dump(&after).map_err(e("the file cannot be read"))?;
        if self.look.mac {
            let want = mac(&got);
            if got.get("/GameStg/MAC").map(|m| m.as_slice()) != Some(&want[..]) {
                return Err(format!("stored hash {:?}, the contents require {}", got.get("/GameStg/MAC").map(|m| hex(m)), hex(&want)));
            }
            match vpx::verify(&self.path) {
                vpx::VerifyResult::Ok(p) if p == self.path => {}
                r => return Err(format!("verification: {r:?}")),
            }
        }
        if untouched && (self.look.content || self.look.lock || self.look.script) && after != before {
            return Err(format!("the call must not touch the file: {}", diff_bytes(&before, &after)));
        }
        if self.look.script {
            let (a, b) = (header_get(&self.model, "CODE"), header_get(&got, "CODE"));
            if a != b {
                return Err(format!("stored script: {}", diff_bytes(&a.unwrap_or_default(), &b.unwrap_or_default())));
            }
        }
        let strict = self.look.content
            || self.look.lock && matches!(op, Op::Lock | Op::Unlock)
            || self.look.script && matches!(op, Op::Import(_) | Op::ExtractImport | Op::ExtractKeep | Op::SetScript(_) | Op::SaveCode(_));
        if strict {
            let norm_both = op == Op::Reassemble;
            let (a, b) = if norm_both { (norm(&self.model)?, norm(&got)?) } else { (self.model.clone(), got.clone()) };
            let free: Vec<String> = if images_free { old.keys().filter(|k| k.starts_with("/GameStg/Image")).cloned().collect() } else { vec![] };
            let mut ign: Vec<&str> = free.iter().map(|s| s.as_str()).collect();
            if norm_both {
                // a script that is not UTF-8 is stored as it was; nothing to ignore
            }
            if !self.look.mac && !self.look.content && matches!(op, Op::SetScript(_) | Op::SaveCode(_)) {
                ign.push("/GameStg/MAC");
            }
            if let Some(d) = diff_streams_except(&a, &b, &ign) {
                return Err(d);
            }
            for k in &free {
                if !got.contains_key(k) {
                    return Err(format!("{k} is gone"));
                }
            }
        }
        self.model = got;
        Ok(hash_of(&(ret, &self.model)))
    }
}

impl Drop for World<'_> {
    fn drop(&mut self) {
        self.handle = None;
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub struct Explore<'a> {
    pub ctx: &'a Ctx,
    pub donor: &'a Donor,
    pub alphabet: Vec<Op>,
    pub depth: usize,
    pub look: Look,
    /// keep one handle open over consecutive operations on a handle
    pub keep: bool,
}

impl Explore<'_> {
    fn run_seq(&self, label: &str, start: &[u8], seq: &[Op]) -> Result<u64, String> {
        let dir = self.ctx.scratch.join(format!("o{:x}", hash_of(label)));
        let mut w = World::new(self.donor, dir, start, self.look);
        let mut h = 0;
        for (i, op) in seq.iter().enumerate() {
            if !self.keep {
                w.handle = None;
            }
            h = guard(|| w.step(*op)).map_err(|e| format!("step {i} {op:?}: {e}"))?;
        }
        Ok(h)
    }
    /// All sequences up to the depth from every start table.
    pub fn run(&self, starts: &[(String, Vec<u8>)]) {
        let n = self.alphabet.len();
        let mut jobs: Vec<(usize, Vec<Op>)> = vec![];
        for (si, _) in starts.iter().enumerate() {
            if self.keep {
                // complete sequences of operations on one handle; every prefix is checked on the way
                let mut idx = vec![0usize; self.depth];
                loop {
                    jobs.push((si, idx.iter().map(|i| self.alphabet[*i]).collect()));
                    let mut k = self.depth;
                    loop {
                        if k == 0 {
                            break;
                        }
                        k -= 1;
                        idx[k] += 1;
                        if idx[k] < n {
                            break;
                        }
                        idx[k] = 0;
                        if k == 0 {
                            k = usize::MAX;
                            break;
                        }
                    }
                    if k == usize::MAX {
                        break;
                    }
                }
            } else {
                for a in &self.alphabet {
                    for b in &self.alphabet {
                        jobs.push((si, vec![*a, *b]));
                    }
                }
            }
        }
        on_threads(&jobs, |(si, seq)| {
            if self.ctx.too_many() {
                return;
            }
            let (name, start) = &starts[*si];
            let tag = if self.keep { "keep" } else { "reopen" };
            let label = format!("{tag}/{name}/{seq:?}").replace(' ', "");
            if self.keep {
                self.ctx.case(&label, || self.run_seq(&label, start, seq));
                self.ctx.add_states(seq.len() as u64, seq.len() as u64);
                return;
            }
            // the tree below a prefix, by snapshots of the file
            if self.ctx.replaying() {
                let mut stack = vec![seq.clone()];
                while let Some(s) = stack.pop() {
                    let l = format!("{tag}/{name}/{s:?}").replace(' ', "");
                    self.ctx.case(&l, || self.run_seq(&l, start, &s));
                    if s.len() < self.depth {
                        for o in &self.alphabet {
                            let mut t = s.clone();
                            t.push(*o);
                            stack.push(t);
                        }
                    }
                }
                return;
            }
            let dir = self.ctx.scratch.join(format!("t{:x}", hash_of(&label)));
            let mut w = World::new(self.donor, dir, start, self.look);
            let mut outs = vec![];
            let mut count = 0u64;
            let mut path = vec![];
            for op in seq {
                path.push(*op);
                w.handle = None;
                match guard(|| w.step(*op)) {
                    Ok(h) => outs.push(h),
                    Err(_) => {
                        // reported (and repeated) with its own label
                        let l = format!("{tag}/{name}/{path:?}").replace(' ', "");
                        self.ctx.case(&l, || self.run_seq(&l, start, &path));
                        return;
                    }
                }
                count += 1;
            }
            self.tree(&mut w, &mut path, name, start, &mut outs, &mut count);
            drop(w);
            self.ctx.bulk(count, outs);
            self.ctx.add_states(count, count);
        });
    }
    fn tree(&self, w: &mut World, path: &mut Vec<Op>, name: &str, start: &[u8], outs: &mut Vec<u64>, count: &mut u64) {
        if path.len() >= self.depth || self.ctx.too_many() {
            return;
        }
        let snap = w.raw();
        let model = w.model.clone();
        let side = w.path.with_extension("vbs");
        let script = std::fs::read(&side).ok();
        for op in &self.alphabet {
            std::fs::write(&w.path, &snap).unwrap();
            match &script {
                Some(s) => std::fs::write(&side, s).unwrap(),
                None => {
                    let _ = std::fs::remove_file(&side);
                }
            }
            w.model = model.clone();
            w.handle = None;
            path.push(*op);
            match guard(|| w.step(*op)) {
                Ok(h) => {
                    outs.push(h);
                    *count += 1;
                    self.tree(w, path, name, start, outs, count);
                }
                Err(_) => {
                    let l = format!("reopen/{name}/{path:?}").replace(' ', "");
                    let p = path.clone();
                    if !self.ctx.case(&l, || self.run_seq(&l, start, &p)) {
                        path.pop();
                        continue;
                    }
                }
            }
            path.pop();
        }
    }
}

/// The operations, one after the other, on tables with a large part or many parts.
pub fn on_large(ctx: &Ctx, donor: &Donor, look: Look, tables: &[super::large::Large], ops: &[Op]) {
    on_threads(tables, |l| {
        if ctx.too_many() {
            return;
        }
        ctx.case(&l.label, || {
            let mut w = World::new(donor, ctx.scratch.join(l.label.replace('/', "-")), &l.table(&donor.spec).bytes(), look);
            let mut h = 0;
            for op in ops {
                h = w.step(*op).map_err(|e| format!("{op:?}: {e}"))?;
            }
            Ok(h)
        });
    });
}
