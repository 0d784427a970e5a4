//! Independent construction, dumping and integrity hashing of table container files.
use crate::spec::*;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Write};

pub type Streams = BTreeMap<String, Vec<u8>>;

/// MD2 (RFC 1319), written from the RFC.
pub fn md2(data: &[u8]) -> [u8; 16] {
    // pi-derived substitution table, generated (not copied) from the digits algorithm is long;
    // the table of RFC 1319:
    const S: [u8; 256] = [
        41, 46, 67, 201, 162, 216, 124, 1, 61, 54, 84, 161, 236, 240, 6, 19, 98, 167, 5, 243, 192,
        199, 115, 140, 152, 147, 43, 217, 188, 76, 130, 202, 30, 155, 87, 60, 253, 212, 224, 22,
        103, 66, 111, 24, 138, 23, 229, 18, 190, 78, 196, 214, 218, 158, 222, 73, 160, 251, 245,
        142, 187, 47, 238, 122, 169, 104, 121, 145, 21, 178, 7, 63, 148, 194, 16, 137, 11, 34, 95,
        33, 128, 127, 93, 154, 90, 144, 50, 39, 53, 62, 204, 231, 191, 247, 151, 3, 255, 25, 48,
        179, 72, 165, 181, 209, 215, 94, 146, 42, 172, 86, 170, 198, 79, 184, 56, 210, 150, 164,
        125, 182, 118, 252, 107, 226, 156, 116, 4, 241, 69, 157, 112, 89, 100, 113, 135, 32, 134,
        91, 207, 101, 230, 45, 168, 2, 27, 96, 37, 173, 174, 176, 185, 246, 28, 70, 97, 105, 52,
        64, 126, 15, 85, 71, 163, 35, 221, 81, 175, 58, 195, 92, 249, 206, 186, 197, 234, 38, 44, 83,
        13, 110, 133, 40, 132, 9, 211, 223, 205, 244, 65, 129, 77, 82, 106, 220, 55, 200, 108, 193,
        171, 250, 36, 225, 123, 8, 12, 189, 177, 74, 120, 136, 149, 139, 227, 99, 232, 109, 233,
        203, 213, 254, 59, 0, 29, 57, 242, 239, 183, 14, 102, 88, 208, 228, 166, 119, 114, 248,
        235, 117, 75, 10, 49, 68, 80, 180, 143, 237, 31, 26, 219, 153, 141, 51, 159, 17, 131, 20,
    ];
    let pad = 16 - data.len() % 16;
    let mut m = data.to_vec();
    m.extend(std::iter::repeat_n(pad as u8, pad));
    let mut c = [0u8; 16];
    let mut l = 0u8;
    for blk in m.chunks(16) {
        for j in 0..16 {
            c[j] ^= S[(blk[j] ^ l) as usize];
            l = c[j];
        }
    }
    m.extend_from_slice(&c);
    let mut x = [0u8; 48];
    for blk in m.chunks(16) {
        for j in 0..16 {
            x[16 + j] = blk[j];
            x[32 + j] = x[16 + j] ^ x[j];
        }
        let mut t = 0u8;
        for j in 0..18u8 {
            for b in x.iter_mut() {
                *b ^= S[t as usize];
                t = *b;
            }
            t = t.wrapping_add(j);
        }
    }
    x[..16].try_into().unwrap()
}

/// Splits a record stream into (tag, data) pairs. CODE-like records (length 4, data follows as a
/// length-prefixed block) are handled for the script record only.
pub fn split_records(d: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    let mut out = vec![];
    let mut p = 0;
    while p < d.len() {
        if p + 8 > d.len() {
            return None;
        }
        let len = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        let tag: String = d[p + 4..p + 8]
            .iter()
            .take_while(|c| **c != 0)
            .map(|c| *c as char)
            .collect();
        if len < 4 {
            return None;
        }
        let mut end = p + 4 + len;
        let mut start = p + 8;
        if tag == "CODE" {
            if p + 12 > d.len() {
                return None;
            }
            let n = u32::from_le_bytes(d[p + 8..p + 12].try_into().unwrap()) as usize;
            start = p + 12;
            end = p + 12 + n;
        }
        if end > d.len() {
            return None;
        }
        let e = tag == "ENDB";
        out.push((tag, d[start..end].to_vec()));
        p = end;
        if e {
            break;
        }
    }
    Some(out)
}

/// The integrity hash the file format requires for these streams (independent implementation).
pub fn mac(s: &Streams) -> [u8; 16] {
    let mut h: Vec<u8> = b"Visual Pinball".to_vec();
    let raw = |h: &mut Vec<u8>, p: &str| {
        if let Some(d) = get_ci(s, p) {
            h.extend_from_slice(d);
        }
    };
    raw(&mut h, "/GameStg/Version");
    for n in [
        "TableName",
        "AuthorName",
        "TableVersion",
        "ReleaseDate",
        "AuthorEmail",
        "AuthorWebSite",
        "TableBlurb",
        "TableDescription",
        "TableRules",
        "Screenshot",
    ] {
        raw(&mut h, &format!("/TableInfo/{n}"));
    }
    let biff = |h: &mut Vec<u8>, d: &[u8]| {
        for (tag, data) in split_records(d).expect("well-formed records") {
            let mut t = [0u8; 4];
            for (x, c) in t.iter_mut().zip(tag.chars()) {
                *x = c as u8;
            }
            h.extend_from_slice(&t);
            h.extend_from_slice(&data);
        }
    };
    if let Some(d) = s.get("/GameStg/CustomInfoTags") {
        biff(&mut h, d);
        for (tag, data) in split_records(d).unwrap() {
            if tag == "CUST" {
                let name = latin1(&data[4..]);
                raw(&mut h, &format!("/TableInfo/{name}"));
            }
        }
    }
    if let Some(d) = s.get("/GameStg/GameData") {
        biff(&mut h, d);
    }
    let mut i = 0;
    while let Some(d) = s.get(&format!("/GameStg/Collection{i}")) {
        biff(&mut h, d);
        i += 1;
    }
    md2(&h)
}

/// Stream names in the container are matched without regard to case.
pub fn get_ci<'a>(s: &'a Streams, p: &str) -> Option<&'a Vec<u8>> {
    s.get(p).or_else(|| {
        let u = p.to_uppercase();
        s.iter().find(|(k, _)| k.to_uppercase() == u).map(|(_, v)| v)
    })
}

pub fn build(streams: &Streams) -> Vec<u8> {
    let mut c = cfb::CompoundFile::create(Cursor::new(Vec::new())).unwrap();
    c.create_storage("/GameStg").unwrap();
    c.create_storage("/TableInfo").unwrap();
    for (p, d) in streams {
        let mut st = c.create_new_stream(p).unwrap_or_else(|e| panic!("{p}: {e}"));
        st.write_all(d).unwrap();
    }
    c.flush().unwrap();
    c.into_inner().into_inner()
}

pub fn dump(bytes: &[u8]) -> Result<Streams, String> {
    let mut c = cfb::CompoundFile::open_strict(Cursor::new(bytes)).map_err(|e| format!("container: {e}"))?;
    let paths: Vec<_> = c
        .walk()
        .filter(|e| e.is_stream())
        .map(|e| e.path().to_path_buf())
        .collect();
    let mut m = Streams::new();
    for p in paths {
        let mut d = vec![];
        c.open_stream(&p)
            .and_then(|mut s| s.read_to_end(&mut d))
            .map_err(|e| format!("{}: {e}", p.display()))?;
        m.insert(p.to_string_lossy().into_owned(), d);
    }
    Ok(m)
}

/// A table described by its parts; `streams()` gives the expected stream set.
#[derive(Clone, Default)]
pub struct Table {
    pub version: u32,
    /// header records without the four counts and terminator handled by `streams`
    pub gamedata: Vec<(String, Vec<u8>)>,
    pub items: Vec<Vec<u8>>,
    pub images: Vec<Vec<u8>>,
    pub sounds: Vec<Vec<u8>>,
    pub fonts: Vec<Vec<u8>>,
    pub collections: Vec<Vec<u8>>,
    pub custom_tags: Option<Vec<String>>,
    /// TableInfo stream name -> raw content
    pub info: Vec<(String, Vec<u8>)>,
}

impl Table {
    pub fn new(spec: &Spec, version: u32) -> Table {
        let g = Gen {
            spec,
            floats: Floats::Finite,
            thorough: false,
        };
        Table {
            version,
            gamedata: header_base(&g, version),
            custom_tags: Some(vec![]),
            ..Default::default()
        }
    }
    pub fn set(&mut self, tag: &str, enc: Vec<u8>) {
        let e = self
            .gamedata
            .iter_mut()
            .find(|(t, _)| t == tag)
            .unwrap_or_else(|| panic!("no header record {tag}"));
        e.1 = enc;
    }
    pub fn header(&self) -> Vec<u8> {
        let mut d = vec![];
        for (t, e) in &self.gamedata {
            let n = match t.as_str() {
                "SEDT" => Some(self.items.len()),
                "SSND" => Some(self.sounds.len()),
                "SIMG" => Some(self.images.len()),
                "SFNT" => Some(self.fonts.len()),
                "SCOL" => Some(self.collections.len()),
                _ => None,
            };
            match n {
                Some(n) => d.extend(rec(t, &(n as u32).to_le_bytes())),
                None => d.extend(e),
            }
        }
        d.extend(endb());
        d
    }
    pub fn streams(&self) -> Streams {
        let mut s = Streams::new();
        s.insert("/GameStg/Version".into(), self.version.to_le_bytes().to_vec());
        s.insert("/GameStg/GameData".into(), self.header());
        for (k, v) in [
            ("GameItem", &self.items),
            ("Image", &self.images),
            ("Sound", &self.sounds),
            ("Font", &self.fonts),
            ("Collection", &self.collections),
        ] {
            for (i, d) in v.iter().enumerate() {
                s.insert(format!("/GameStg/{k}{i}"), d.clone());
            }
        }
        if let Some(t) = &self.custom_tags {
            let mut d = vec![];
            for x in t {
                d.extend(rec("CUST", &lstr(&x.chars().map(|c| c as u8).collect::<Vec<_>>())));
            }
            d.extend(endb());
            s.insert("/GameStg/CustomInfoTags".into(), d);
        }
        for (k, v) in &self.info {
            s.insert(format!("/TableInfo/{k}"), v.clone());
        }
        let m = mac(&s);
        s.insert("/GameStg/MAC".into(), m.to_vec());
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        build(&self.streams())
    }
}

/// Base header: every record present with a distinct value; legal combination for the version.
pub fn header_base(g: &Gen, version: u32) -> Vec<(String, Vec<u8>)> {
    let l = g.spec.get("GameData");
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    let mut seen_efss = false;
    for (i, f) in l.fields.iter().enumerate() {
        let mut e = g.base(f, i).enc;
        let mut name = f.tag.clone();
        match f.tag.as_str() {
            "EFSS" => {
                // two possible positions; the newer one is used from 1080 on
                let here = if seen_efss { version < 1080 } else { version >= 1080 };
                name = if seen_efss { "EFSS@old".into() } else { "EFSS@new".into() };
                seen_efss = true;
                e = if here { rec("EFSS", &1u32.to_le_bytes()) } else { vec![] };
            }
            "CLMO" => e = vec![],
            "MASI" => e = rec("MASI", &0u32.to_le_bytes()),
            _ => {}
        }
        out.push((name, e));
    }
    out
}
