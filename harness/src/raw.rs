//! Independent raw key-value model of the PSBT container (BIP-174), sharing no code with the crate.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct KV {
    /// keytype byte(s) followed by keydata
    pub k: Vec<u8>,
    pub v: Vec<u8>,
}

impl KV {
    pub fn new(ty: u8, keydata: impl Into<Vec<u8>>, v: impl Into<Vec<u8>>) -> KV {
        let mut k = vec![ty];
        k.extend(keydata.into());
        KV { k, v: v.into() }
    }
    pub fn ty(&self) -> u8 { self.k[0] }
    pub fn keydata(&self) -> &[u8] { &self.k[1..] }
    pub fn hex(&self) -> String { format!("{}={}", hex(&self.k), hex(&self.v)) }
}

pub type Map = Vec<KV>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Raw {
    /// maps[0] is the global map.
    pub maps: Vec<Map>,
    pub trailing: Vec<u8>,
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn compact(n: u64) -> Vec<u8> {
    if n < 0xfd {
        vec![n as u8]
    } else if n <= 0xffff {
        let mut v = vec![0xfd];
        v.extend((n as u16).to_le_bytes());
        v
    } else if n <= 0xffff_ffff {
        let mut v = vec![0xfe];
        v.extend((n as u32).to_le_bytes());
        v
    } else {
        let mut v = vec![0xff];
        v.extend(n.to_le_bytes());
        v
    }
}

/// Reads a canonical compact size; returns (value, bytes used).
pub fn read_compact(b: &[u8]) -> Option<(u64, usize)> {
    let f = *b.first()?;
    Some(match f {
        0xfd => {
            let v = u16::from_le_bytes(b.get(1..3)?.try_into().ok()?) as u64;
            if v < 0xfd {
                return None;
            }
            (v, 3)
        }
        0xfe => {
            let v = u32::from_le_bytes(b.get(1..5)?.try_into().ok()?) as u64;
            if v <= 0xffff {
                return None;
            }
            (v, 5)
        }
        0xff => {
            let v = u64::from_le_bytes(b.get(1..9)?.try_into().ok()?);
            if v <= 0xffff_ffff {
                return None;
            }
            (v, 9)
        }
        x => (x as u64, 1),
    })
}

pub const MAGIC: &[u8] = b"psbt\xff";

pub fn enc_map(m: &Map) -> Vec<u8> {
    let mut o = vec![];
    for kv in m {
        o.extend(compact(kv.k.len() as u64));
        o.extend(&kv.k);
        o.extend(compact(kv.v.len() as u64));
        o.extend(&kv.v);
    }
    o.push(0);
    o
}

impl Raw {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = MAGIC.to_vec();
        for m in &self.maps {
            o.extend(enc_map(m));
        }
        o.extend(&self.trailing);
        o
    }

    /// Splits a PSBT into maps until the end of the data. `None` if it is not well formed.
    pub fn dec(b: &[u8]) -> Option<Raw> {
        if !b.starts_with(MAGIC) {
            return None;
        }
        let mut p = MAGIC.len();
        let mut maps = vec![];
        while p < b.len() {
            let mut m = vec![];
            loop {
                let (n, u) = read_compact(b.get(p..)?)?;
                p += u;
                if n == 0 {
                    break;
                }
                let n = usize::try_from(n).ok()?;
                let k = b.get(p..p.checked_add(n)?)?.to_vec();
                p += n;
                let (n, u) = read_compact(b.get(p..)?)?;
                p += u;
                let n = usize::try_from(n).ok()?;
                let v = b.get(p..p.checked_add(n)?)?.to_vec();
                p += n;
                m.push(KV { k, v });
            }
            maps.push(m);
        }
        Some(Raw { maps, trailing: vec![] })
    }

    /// Maps sorted by key, for comparing as sets.
    pub fn sorted(&self) -> Vec<Map> {
        self.maps
            .iter()
            .map(|m| {
                let mut m = m.clone();
                m.sort();
                m
            })
            .collect()
    }

    pub fn describe(&self) -> String {
        self.maps
            .iter()
            .enumerate()
            .map(|(i, m)| {
                format!("map{}:{{{}}}", i, m.iter().map(|k| k.hex()).collect::<Vec<_>>().join(","))
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
}

pub fn diff_maps(a: &[Map], b: &[Map]) -> String {
    if a.len() != b.len() {
        return format!("{} maps vs {} maps", a.len(), b.len());
    }
    let mut s = String::new();
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        for kv in x {
            if !y.contains(kv) {
                s += &format!("map{} only left: {}; ", i, kv.hex());
            }
        }
        for kv in y {
            if !x.contains(kv) {
                s += &format!("map{} only right: {}; ", i, kv.hex());
            }
        }
        if x.len() != y.len() {
            s += &format!("map{}: {} pairs vs {} pairs; ", i, x.len(), y.len());
        }
    }
    s
}
