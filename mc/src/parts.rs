//! Encoders for the stream kinds that are not plain record lists.
use crate::spec::*;

#[derive(Clone, Debug)]
pub struct Jpg {
    pub name: Vec<u8>,
    pub inme: Option<Vec<u8>>,
    pub path: Vec<u8>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Img {
    pub name: Vec<u8>,
    pub inme: Option<Vec<u8>>,
    pub path: Vec<u8>,
    pub w: u32,
    pub h: u32,
    pub link: Option<u32>,
    pub bits: Option<Vec<u8>>,
    pub jpeg: Option<Jpg>,
    pub altv: u32,
    pub md5: Option<[u8; 16]>,
    pub opaq: Option<bool>,
    pub sign: Option<bool>,
}

impl Img {
    pub fn jpeg(name: &str, path: &str, data: &[u8]) -> Img {
        Img {
            name: name.as_bytes().to_vec(),
            inme: None,
            path: path.as_bytes().to_vec(),
            w: 3,
            h: 2,
            link: None,
            bits: None,
            jpeg: Some(Jpg {
                name: name.as_bytes().to_vec(),
                inme: None,
                path: path.as_bytes().to_vec(),
                data: data.to_vec(),
            }),
            altv: 1f32.to_bits(),
            md5: None,
            opaq: None,
            sign: None,
        }
    }
    pub fn bmp(name: &str, path: &str, w: u32, h: u32, bits: Vec<u8>) -> Img {
        Img {
            bits: Some(bits),
            jpeg: None,
            w,
            h,
            ..Img::jpeg(name, path, &[])
        }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut d = vec![];
        d.extend(rec("NAME", &lstr(&self.name)));
        if let Some(i) = &self.inme {
            d.extend(rec("INME", &lstr(i)));
        }
        d.extend(rec("PATH", &lstr(&self.path)));
        d.extend(rec("WDTH", &self.w.to_le_bytes()));
        d.extend(rec("HGHT", &self.h.to_le_bytes()));
        if let Some(l) = self.link {
            d.extend(rec("LINK", &l.to_le_bytes()));
        }
        if let Some(b) = &self.bits {
            d.extend(rec_len("BITS", b, 4));
        }
        if let Some(j) = &self.jpeg {
            let mut n = rec("NAME", &lstr(&j.name));
            if let Some(i) = &j.inme {
                n.extend(rec("INME", &lstr(i)));
            }
            n.extend(rec("PATH", &lstr(&j.path)));
            n.extend(rec("SIZE", &(j.data.len() as u32).to_le_bytes()));
            n.extend(rec("DATA", &j.data));
            n.extend(endb());
            d.extend(rec_len("JPEG", &n, 4));
        }
        d.extend(rec("ALTV", &self.altv.to_le_bytes()));
        if let Some(m) = &self.md5 {
            d.extend(rec("MD5H", m));
        }
        if let Some(b) = self.opaq {
            d.extend(rec("OPAQ", &(b as u32).to_le_bytes()));
        }
        if let Some(b) = self.sign {
            d.extend(rec("SIGN", &(b as u32).to_le_bytes()));
        }
        d.extend(endb());
        d
    }
}

#[derive(Clone, Debug)]
pub struct Wave {
    pub tag: u16,
    pub channels: u16,
    pub rate: u32,
    pub bps: u32,
    pub align: u16,
    pub bits: u16,
    pub cb: u16,
}
impl Wave {
    pub fn pcm(channels: u16, rate: u32, bits: u16) -> Wave {
        let align = channels * (bits / 8);
        Wave {
            tag: 1,
            channels,
            rate,
            bps: rate * align as u32,
            align,
            bits,
            cb: 0,
        }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut d = vec![];
        d.extend(self.tag.to_le_bytes());
        d.extend(self.channels.to_le_bytes());
        d.extend(self.rate.to_le_bytes());
        d.extend(self.bps.to_le_bytes());
        d.extend(self.align.to_le_bytes());
        d.extend(self.bits.to_le_bytes());
        d.extend(self.cb.to_le_bytes());
        d
    }
}

#[derive(Clone, Debug)]
pub struct Snd {
    pub name: Vec<u8>,
    pub path: Vec<u8>,
    pub internal: Vec<u8>,
    pub wave: Wave,
    pub data: Vec<u8>,
    pub out: u8,
    pub volume: u32,
    pub balance: u32,
    pub fade: u32,
}
impl Snd {
    pub fn new(name: &str, path: &str, data: &[u8]) -> Snd {
        Snd {
            name: name.as_bytes().to_vec(),
            path: path.as_bytes().to_vec(),
            internal: b"".to_vec(),
            wave: Wave::pcm(1, 44100, 16),
            data: data.to_vec(),
            out: 0,
            volume: 11,
            balance: 22,
            fade: 33,
        }
    }
    /// The wave header is stored exactly for names of wave files (or without any extension).
    pub fn is_wave(&self) -> bool {
        // strings end at a NUL
        let p = latin1(self.path.split(|c| *c == 0).next().unwrap());
        let base = p.rsplit('/').find(|s| !s.is_empty() && *s != ".").unwrap_or("");
        match base.rfind('.') {
            None | Some(0) => true,
            _ if base == ".." => true,
            Some(i) => {
                let e = &base[i + 1..];
                e.is_empty() || e.eq_ignore_ascii_case("wav")
            }
        }
    }
    pub fn enc(&self, version: u32) -> Vec<u8> {
        let mut d = lstr(&self.name);
        d.extend(lstr(&self.path));
        if self.internal.is_empty() {
            d.extend(1u32.to_le_bytes());
            d.push(0);
        } else {
            d.extend(lstr(&self.internal));
        }
        if self.is_wave() {
            d.extend(self.wave.enc());
        }
        d.extend(lstr(&self.data));
        d.push(self.out);
        if version >= 1031 {
            for x in [self.volume, self.balance, self.fade, self.volume] {
                d.extend(x.to_le_bytes());
            }
        }
        d
    }
}

pub fn font_stream(name: &[u8], path: &[u8], data: &[u8]) -> Vec<u8> {
    let mut d = rec("NAME", &lstr(name));
    d.extend(rec("PATH", &lstr(path)));
    d.extend(rec("SIZE", &(data.len() as u32).to_le_bytes()));
    d.extend(rec("DATA", data));
    d.extend(endb());
    d
}

pub fn collection_stream(name: &str, items: &[&str], flags: [bool; 3]) -> Vec<u8> {
    let mut d = rec("NAME", &wstr(name));
    for i in items {
        d.extend(rec("ITEM", &wstr(i)));
    }
    for (t, f) in ["EVNT", "SSNG", "GREL"].iter().zip(flags) {
        d.extend(rec(t, &(f as u32).to_le_bytes()));
    }
    d.extend(endb());
    d
}

pub const INFO_NAMES: [&str; 12] = [
    "TableName",
    "AuthorName",
    "Screenshot",
    "TableBlurb",
    "TableRules",
    "AuthorEmail",
    "ReleaseDate",
    "TableSaveRev",
    "TableVersion",
    "AuthorWebSite",
    "TableSaveDate",
    "TableDescription",
];
