//! KV-level and byte-level mutation of raw PSBTs.
use bitcoin::hashes::Hash;

use crate::gen;
use crate::raw::{compact, Map, Raw, KV};
use crate::rng::Rng;
use crate::spec::Ver;

/// A well-formed pair of a random type for the given map kind (0 global, 1 input, 2 output).
pub fn some_pair(r: &mut Rng, ver: Ver, kind: usize) -> KV {
    // Take it from a random API-level map of that kind, through the independent pair table.
    for _ in 0..20 {
        let m: Map = match (ver, kind) {
            (Ver::V2, 0) => crate::pairs::v2_global(&gen::v2_global(r, 5, 1, 1)),
            (Ver::V2, 1) => crate::pairs::v2_input(&gen::v2_input(r, 5)),
            (Ver::V2, _) => crate::pairs::v2_output(&gen::v2_output(r, 5)),
            (Ver::V0, k) => {
                let p = gen::v0_psbt(r);
                let raw = crate::pairs::v0(&p);
                let idx = match k {
                    0 => 0,
                    1 => 1,
                    _ => 1 + p.inputs.len(),
                };
                raw.maps.get(idx).cloned().unwrap_or_default()
            }
        };
        if !m.is_empty() {
            return r.pick(&m).clone();
        }
    }
    KV::new(0x55, [], [])
}

pub fn kind_of(raw: &Raw, ver: Ver, idx: usize) -> usize {
    if idx == 0 {
        return 0;
    }
    let ni = match ver {
        Ver::V2 => raw.maps[0]
            .iter()
            .find(|k| k.ty() == 4)
            .and_then(|k| crate::raw::read_compact(&k.v))
            .map(|x| x.0)
            .unwrap_or(0) as usize,
        Ver::V0 => raw.maps[0]
            .iter()
            .find(|k| k.ty() == 0)
            .and_then(|k| k.v.get(4..).and_then(crate::raw::read_compact))
            .map(|x| x.0)
            .unwrap_or(0) as usize,
    };
    if idx <= ni {
        1
    } else {
        2
    }
}

/// One random KV-level mutation; returns its name.
pub fn mutate(r: &mut Rng, raw: &mut Raw, ver: Ver) -> &'static str {
    let mi = if r.chance(1, 3) { 0 } else { r.below(raw.maps.len()) };
    let kind = kind_of(raw, ver, mi);
    let n = raw.maps[mi].len();
    let pi = if n > 0 { r.below(n) } else { 0 };
    match r.below(22) {
        0 if n > 0 => {
            let kv = raw.maps[mi][pi].clone();
            let at = r.below(n + 1);
            raw.maps[mi].insert(at, kv);
            "duplicate-pair"
        }
        1 if n > 0 => {
            // Same key, another value: take the value of a fresh pair of the same type if any.
            let k = raw.maps[mi][pi].clone();
            let mut v = k.v.clone();
            if v.is_empty() {
                v.push(r.u8())
            } else {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            let at = r.below(n + 1);
            raw.maps[mi].insert(at, KV { k: k.k, v });
            "duplicate-key-other-value"
        }
        2 | 3 if n > 0 => {
            raw.maps[mi].remove(pi);
            "remove-pair"
        }
        4 if n > 0 => {
            let l = r.range(1, 3);
            let b = r.bytes(l);
            raw.maps[mi][pi].k.extend(b);
            "extend-keydata"
        }
        5 if n > 0 => {
            let l = raw.maps[mi][pi].k.len();
            if l > 1 {
                let to = if r.bool() { 1 } else { r.range(1, l - 1) };
                raw.maps[mi][pi].k.truncate(to);
            }
            "truncate-keydata"
        }
        6 if n > 0 => {
            let l = r.range(1, 4);
            let b = if r.bool() { vec![0; l] } else { r.bytes(l) };
            raw.maps[mi][pi].v.extend(b);
            "extend-value"
        }
        7 if n > 0 => {
            let l = raw.maps[mi][pi].v.len();
            if l > 0 {
                let to = match r.below(3) {
                    0 => 0,
                    1 => l - 1,
                    _ => r.below(l),
                };
                raw.maps[mi][pi].v.truncate(to);
            }
            "truncate-value"
        }
        8 if n > 0 => {
            let l = raw.maps[mi][pi].v.len();
            if l > 0 {
                let i = r.below(l);
                raw.maps[mi][pi].v[i] ^= 1 << r.below(8);
            }
            "flip-value-bit"
        }
        9 if n > 0 => {
            let l = raw.maps[mi][pi].k.len();
            let i = r.below(l);
            raw.maps[mi][pi].k[i] ^= 1 << r.below(8);
            "flip-key-bit"
        }
        10 | 11 => {
            let kv = some_pair(r, ver, kind);
            let at = r.below(n + 1);
            raw.maps[mi].insert(at, kv);
            "insert-pair"
        }
        12 => {
            // A pair of another map kind or of the other version.
            let v2 = if r.bool() { Ver::V2 } else { Ver::V0 };
            let k2 = r.below(3);
            let kv = some_pair(r, v2, k2);
            let at = r.below(n + 1);
            raw.maps[mi].insert(at, kv);
            "insert-foreign-pair"
        }
        13 => {
            let ty = r.u8();
            let kl = if r.bool() { 0 } else { r.range(1, 40) };
            let vl = r.below(70);
            let kv = KV::new(ty, r.bytes(kl), r.bytes(vl));
            let at = r.below(n + 1);
            raw.maps[mi].insert(at, kv);
            "insert-random-pair"
        }
        14 => {
            let l = r.range(1, 5);
            raw.trailing = if r.bool() { vec![0; l] } else { r.bytes(l) };
            "trailing"
        }
        15 => {
            let at = r.range(1, raw.maps.len());
            raw.maps.insert(at, vec![]);
            "insert-empty-map"
        }
        16 if raw.maps.len() > 1 => {
            let at = r.range(1, raw.maps.len() - 1);
            raw.maps.remove(at);
            "remove-map"
        }
        17 if ver == Ver::V2 => {
            let t = if r.bool() { 4 } else { 5 };
            let other = r.bool();
            if let Some(kv) = raw.maps[0].iter_mut().find(|k| k.ty() == t) {
                let cur = kv.v.first().copied().unwrap_or(0) as u64;
                kv.v = match r.below(9) {
                    7 => compact(cur + (1 << *r.pick(&[8, 16, 32, 63]))),
                    0 => compact(cur + 1),
                    1 => compact(cur.wrapping_sub(1)),
                    2 => compact(r.u64()),
                    3 => compact(u32::MAX as u64),
                    4 => compact(1 << 20),
                    5 => vec![0xfd, cur as u8, 0],
                    6 => {
                        let mut v = compact(cur);
                        v.push(if other { 0 } else { 7 });
                        v
                    }
                    _ => vec![],
                };
            }
            "counts"
        }
        18 => {
            let ver_bytes: [u8; 4] = *r.pick(&[[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], [3, 0, 0, 0], [0, 0, 0, 2]]);
            raw.maps[0].retain(|k| k.k != [0xfb]);
            raw.maps[0].push(KV::new(0xfb, [], ver_bytes));
            "version"
        }
        19 if kind == 1 => {
            // A preimage that may not match.
            let p = gen::preimage(r);
            let h: Vec<u8> = match r.below(5) {
                0 => bitcoin::hashes::sha256::Hash::hash(&p).as_byte_array().to_vec(),
                1 => bitcoin::hashes::hash160::Hash::hash(&p).as_byte_array().to_vec(),
                2 => bitcoin::hashes::sha256d::Hash::hash(&p).as_byte_array().to_vec(),
                3 => bitcoin::hashes::ripemd160::Hash::hash(&p).as_byte_array().to_vec(),
                _ => {
                    let l = *r.pick(&[20usize, 32, 19, 33]);
                    r.bytes(l)
                }
            };
            let t = 0x0a + r.below(4) as u8;
            raw.maps[mi].push(KV::new(t, h, p));
            "preimage"
        }
        20 if kind == 1 && ver == Ver::V2 => {
            let t = 0x10 + r.below(3) as u8;
            raw.maps[mi].retain(|k| k.ty() != t);
            let v = *r.pick(&[0u32, 1, 499_999_999, 500_000_000, 500_000_001, u32::MAX]);
            raw.maps[mi].push(KV::new(t, [], v.to_le_bytes()));
            "locktime"
        }
        21 if n > 1 => {
            let j = r.below(n);
            let v = raw.maps[mi][j].v.clone();
            raw.maps[mi][pi].v = v;
            "swap-value"
        }
        _ => {
            let mut m = std::mem::take(&mut raw.maps[mi]);
            r.shuffle(&mut m);
            raw.maps[mi] = m;
            "shuffle"
        }
    }
}

pub fn shuffle_all(r: &mut Rng, raw: &mut Raw) {
    for m in raw.maps.iter_mut() {
        r.shuffle(m);
    }
}

/// Byte-level mutation.
pub fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    if b.is_empty() {
        return "empty";
    }
    match r.below(10) {
        0 | 1 => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            "bit"
        }
        2 => {
            let i = r.below(b.len());
            b[i] = *r.pick(&[0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x7f, 0x80, 32, 33, 64, 65]);
            "byte"
        }
        3 => {
            let i = r.below(b.len());
            b.truncate(i);
            "truncate"
        }
        4 => {
            let i = r.below(b.len());
            let j = (i + r.range(1, 40)).min(b.len());
            b.drain(i..j);
            "delete"
        }
        5 => {
            let i = r.below(b.len() + 1);
            let l = r.range(1, 9);
            let x = r.bytes(l);
            b.splice(i..i, x);
            "insert"
        }
        6 => {
            // A compact-size claim, possibly enormous.
            let i = r.below(b.len());
            let n = *r.pick(&[0xfdu64, 0xffff, 0x10000, 4_000_000, 4_000_001, 0x7fff_ffff, 0xffff_ffff, 1 << 40, u64::MAX >> 1, u64::MAX]);
            let x = compact(n);
            let j = (i + x.len()).min(b.len());
            b.splice(i..j, x);
            "compact-size"
        }
        7 if !other.is_empty() => {
            let i = r.below(b.len());
            let j = r.below(other.len());
            let l = r.range(1, 200);
            let e = (j + l).min(other.len());
            let x = other[j..e].to_vec();
            b.splice(i..i, x);
            "splice"
        }
        8 if !other.is_empty() => {
            let i = r.below(b.len());
            let j = r.below(other.len());
            b.truncate(i);
            b.extend(&other[j..]);
            "cross"
        }
        _ => {
            let i = r.below(b.len());
            let j = (i + r.range(1, 60)).min(b.len());
            let x = b[i..j].to_vec();
            b.splice(j..j, x);
            "repeat"
        }
    }
}
