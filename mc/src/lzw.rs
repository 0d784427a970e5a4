//! Independent implementation of the compressed-bitmap format: variable width (9..12 bit) LZW codes,
//! least significant bit first, clear = 256, end = 257, cut into length-prefixed blocks.

const CLEAR: usize = 256;
const END: usize = 257;

/// The decoder's table, used both for decoding and to know the width an encoder must write with.
pub struct Machine {
    table: Vec<(usize, u8)>, // (prefix, last) for codes >= 258
    prev: Option<usize>,
    pub width: u32,
}

impl Machine {
    pub fn new() -> Machine {
        Machine { table: vec![], prev: None, width: 9 }
    }
    fn reset(&mut self) {
        self.table.clear();
        self.prev = None;
        self.width = 9;
    }
    pub fn next(&self) -> usize {
        258 + self.table.len()
    }
    pub fn full(&self) -> bool {
        self.next() >= 4096
    }
    pub fn string(&self, mut code: usize) -> Vec<u8> {
        let mut s = vec![];
        while code >= 258 {
            let (p, c) = self.table[code - 258];
            s.push(c);
            code = p;
        }
        s.push(code as u8);
        s.reverse();
        s
    }
    /// Consumes a data code, returns the bytes it stands for.
    pub fn step(&mut self, code: usize) -> Option<Vec<u8>> {
        if code == CLEAR {
            self.reset();
            return Some(vec![]);
        }
        let out;
        match self.prev {
            None => {
                if code >= 256 {
                    return None;
                }
                out = vec![code as u8];
            }
            Some(p) => {
                let first;
                if code < self.next() && code != END {
                    out = self.string(code);
                    first = out[0];
                } else if code == self.next() && !self.full() {
                    let mut s = self.string(p);
                    first = s[0];
                    s.push(first);
                    out = s;
                } else {
                    return None;
                }
                if !self.full() {
                    self.table.push((p, first));
                    if self.next() == 1 << self.width && self.width < 12 {
                        self.width += 1;
                    }
                }
            }
        }
        self.prev = Some(code);
        Some(out)
    }
}

#[derive(Debug)]
pub struct Decoded {
    pub data: Vec<u8>,
    pub blocks: Vec<usize>,
    pub codes: usize,
    pub starts_with_clear: bool,
    pub ends_with_end: bool,
    /// payload bytes after the byte holding the end code
    pub trailing: usize,
}

pub fn decode(b: &[u8]) -> Result<Decoded, String> {
    let mut pay = vec![];
    let mut blocks = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = b[i] as usize;
        if i + 1 + n > b.len() {
            return Err(format!("block at {i} claims {n} bytes, {} left", b.len() - i - 1));
        }
        pay.extend_from_slice(&b[i + 1..i + 1 + n]);
        blocks.push(n);
        i += 1 + n;
    }
    let mut m = Machine::new();
    let mut d = Decoded { data: vec![], blocks, codes: 0, starts_with_clear: false, ends_with_end: false, trailing: 0 };
    let mut bit = 0usize;
    while bit + m.width as usize <= pay.len() * 8 {
        let mut c = 0usize;
        for k in 0..m.width as usize {
            c |= ((pay[(bit + k) / 8] >> ((bit + k) % 8) & 1) as usize) << k;
        }
        bit += m.width as usize;
        if d.codes == 0 {
            d.starts_with_clear = c == CLEAR;
        }
        d.codes += 1;
        if c == END {
            d.ends_with_end = true;
            break;
        }
        let s = m.step(c).ok_or_else(|| format!("invalid code {c} at bit {bit} (next {})", m.next()))?;
        d.data.extend(s);
    }
    d.trailing = pay.len() - bit.div_ceil(8);
    Ok(d)
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// longest table match used (1 = literals only)
    pub max_match: usize,
    /// emit a clear code after this many data codes (0 = only when the table is full)
    pub clear_every: usize,
    /// keep using a full table instead of clearing it
    pub keep_full: bool,
    pub block: usize,
    pub terminator: bool,
}

pub fn encode(data: &[u8], st: Style) -> Vec<u8> {
    use std::collections::HashMap;
    let mut m = Machine::new();
    let mut bits: Vec<u8> = vec![];
    let mut nb = 0usize;
    let put = |bits: &mut Vec<u8>, nb: &mut usize, c: usize, w: u32| {
        for k in 0..w as usize {
            if *nb % 8 == 0 {
                bits.push(0);
            }
            *bits.last_mut().unwrap() |= ((c >> k & 1) as u8) << (*nb % 8);
            *nb += 1;
        }
    };
    put(&mut bits, &mut nb, CLEAR, 9);
    // (prefix code, byte) -> code, exactly the entries the decoder has
    let mut dict: HashMap<(usize, u8), usize> = HashMap::new();
    let mut i = 0;
    let mut since = 0;
    while i < data.len() {
        let mut code = data[i] as usize;
        let mut len = 1;
        // an encoder may use the entry the decoder is about to create (prev + first byte)
        let pending = match m.prev {
            Some(p) if !m.full() => Some((p, m.next())),
            _ => None,
        };
        while i + len < data.len() && len < st.max_match {
            let k = (code, data[i + len]);
            if let Some(c) = dict.get(&k) {
                code = *c;
                len += 1;
            } else if let Some((p, n)) = pending
                && code == p
                && data[i + len] == data[i]
            {
                code = n;
                len += 1;
                break;
            } else {
                break;
            }
        }
        put(&mut bits, &mut nb, code, m.width);
        let before = m.next();
        let prev = m.prev;
        let s = m.step(code).expect("encoder follows the decoder");
        assert_eq!(s, data[i..i + len]);
        if m.next() > before {
            dict.insert((prev.unwrap(), s[0]), before);
        }
        i += len;
        since += 1;
        if (st.clear_every > 0 && since == st.clear_every) || (m.full() && !st.keep_full) {
            put(&mut bits, &mut nb, CLEAR, m.width);
            m.step(CLEAR);
            dict.clear();
            since = 0;
        }
    }
    put(&mut bits, &mut nb, END, m.width);
    let mut out = vec![];
    for ch in bits.chunks(st.block) {
        out.push(ch.len() as u8);
        out.extend_from_slice(ch);
    }
    if st.terminator {
        out.push(0);
    }
    out
}
