//! C10 text formats, C11 serde, C12 sighash types, C38 preimages, C39 BIP-375 fields.

use std::str::FromStr;

use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use psbt_v2::{v0, v2, PsbtSighashType};
use serde::de::DeserializeOwned;

use crate::codec::{self, base64_enc, Parsed};
use crate::ctx::{Case, Ctx};
use crate::raw::{compact, hex, Raw, KV};
use crate::rng::{hash_bytes, hash_str, Rng};
use crate::spec::Ver;
use crate::{bin, gen, muta, pairs};

fn ver(r: &mut Rng) -> Ver { if r.bool() { Ver::V2 } else { Ver::V0 } }
fn some_psbt(r: &mut Rng, v: Ver) -> Parsed {
    match v {
        Ver::V2 => Parsed::V2(Box::new(gen::v2_psbt(r, true))),
        Ver::V0 => Parsed::V0(Box::new(gen::v0_psbt_of(r, true))),
    }
}

/// Standard base64 with padding; only the canonical encoding of some bytes is text of them.
fn base64_dec(s: &str) -> Option<Vec<u8>> {
    const T: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let body = s.trim_end_matches('=');
    let mut bits = 0u32;
    let mut n = 0;
    let mut out = vec![];
    for c in body.chars() {
        bits = bits << 6 | T.find(c)? as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
            bits &= (1 << n) - 1;
        }
    }
    (base64_enc(&out) == s).then_some(out)
}

pub fn text(ctx: &Ctx) {
    ctx.rule("PSBTs of both versions shown as base64 and hex, compared with an independent encoder and parsed back; and text made by damaging such strings, accepted if and only if an independent strict base64 decoder accepts it and the bytes parse. Raw keys and pairs are round-tripped and shown too. Distinct: by text.");
    ctx.require("shown", 2000);
    ctx.require("damaged.rejected", 1000);
    ctx.require("damaged.accepted", 100);
    ctx.require("raw.keys", 1000);
    ctx.cases("text", 20_000, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let v = ver(r);
        let p = some_psbt(r, v);
        let bytes = p.ser();
        let want = base64_enc(&bytes);
        c.distinct(hash_str(&want));
        let Some((shown, padded, hexed, back)) = c.guard("text", || match &p {
            Parsed::V2(p) => (p.to_string(), format!("{:>9}", p), p.serialize_hex(), v2::Psbt::from_str(&want).map(|p| Parsed::V2(Box::new(p))).map_err(|e| e.to_string())),
            Parsed::V0(p) => (p.to_string(), format!("{:>9}", p), p.serialize_hex(), v0::bitcoin::Psbt::from_str(&want).map(|p| Parsed::V0(Box::new(p))).map_err(|e| e.to_string())),
        }) else {
            return;
        };
        c.count("shown");
        c.check(shown == want, "text:base64", || format!("{}\n{}", shown, want));
        c.check(padded.trim() == want, "text:base64-padded", || padded.clone());
        c.check(hexed == hex(&bytes), "text:hex", || format!("{}\n{}", hexed, hex(&bytes)));
        c.check(matches!(&back, Ok(q) if q.same(&p)), "text:base64-parse", || format!("{} {:?}", want, back.as_ref().err()));
        for _ in 0..4 {
            let mut s: Vec<char> = want.chars().collect();
            for _ in 0..r.range(1, 2) {
                let at = r.below(s.len() + 1);
                match r.below(10) {
                    0 => s.insert(at, *r.pick(&[' ', '\n', '=', '-', '_', 'A', '\0', 'é', '.', '"'])),
                    1 => { s.truncate(at); }
                    2 if at < s.len() => { s.remove(at); }
                    3 if at < s.len() => s[at] = *r.pick(&['-', '_', '=', ' ', '/', '+', 'A', 'z', '9']),
                    4 => s.push(*r.pick(&['=', 'A', '\n', ' '])),
                    5 => { while s.last() == Some(&'=') { s.pop(); } }
                    6 => s.insert(0, *r.pick(&[' ', '=', 'c', '\u{feff}'])),
                    7 if !s.is_empty() => { let at = at.min(s.len() - 1); s.swap(at, 0); }
                    8 => {
                        // The last character before the padding with a bit below the last byte set.
                        if let Some(i) = s.iter().rposition(|c| *c != '=') { s[i] = (s[i] as u8).wrapping_add(1) as char; }
                    }
                    _ => {}
                }
            }
            let s: String = s.into_iter().collect();
            let bytes = base64_dec(&s);
            let want = bytes.as_ref().and_then(|b| codec::parse(v, b).ok());
            let Some(got) = c.guard_with("from_str", || s.clone(), || match v {
                Ver::V2 => v2::Psbt::from_str(&s).map(|p| Parsed::V2(Box::new(p))).ok(),
                Ver::V0 => v0::bitcoin::Psbt::from_str(&s).map(|p| Parsed::V0(Box::new(p))).ok(),
            }) else {
                return;
            };
            let same = match (&want, &got) {
                (None, None) => true,
                (Some(a), Some(b)) => a.same(b),
                _ => false,
            };
            c.count(if got.is_some() { "damaged.accepted" } else if bytes.is_some() { "damaged.base64" } else { "damaged.rejected" });
            c.check(same, if got.is_some() { "text:damaged-accepted" } else { "text:damaged-refused" }, || s.clone());
        }
    });
    ctx.cases("raw", 20_000, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let n = *r.pick(&[0usize, 1, 2, 33, 65, 252, 300, 5000]);
        let kv = KV::new(r.u8(), r.bytes(n), vec![]);
        let k = psbt_v2::raw::Key { type_value: kv.ty(), key: kv.keydata().to_vec() };
        let k0 = v0::bitcoin::raw::Key { type_value: kv.ty(), key: kv.keydata().to_vec() };
        c.count("raw.keys");
        c.distinct(hash_bytes(&kv.k));
        let Some((shown, nk)) = c.guard("raw", || (k.to_string(), k0.to_string())) else { return };
        let want = format!("type: {:#x}, key: {}", kv.ty(), hex(kv.keydata()));
        c.check(shown == want && nk == want, "raw:key-shown", || format!("{} {}", shown, nk));
        // Proprietary keys.
        let (np, nk) = (*r.pick(&[0usize, 1, 5, 252, 253, 300]), *r.pick(&[0usize, 1, 5, 252, 253, 1000, 1024]));
        let (prefix, sub, key) = (r.bytes(np), r.u8(), r.bytes(nk));
        let mut data = compact(np as u64);
        data.extend(&prefix);
        data.push(sub);
        data.extend(&key);
        let pk = psbt_v2::raw::ProprietaryKey::<u8> { prefix: prefix.clone(), subtype: sub, key: key.clone() };
        let other = if r.bool() { 0xfc } else { r.u8() };
        let pk0 = v0::bitcoin::raw::ProprietaryKey::<u8> { prefix: prefix.clone(), subtype: sub, key: key.clone() };
        let Some((k, back, wrong)) = c.guard("raw", || {
            let k = pk0.to_key();
            let back = v0::bitcoin::raw::ProprietaryKey::<u8>::try_from(k.clone());
            let wrong = v0::bitcoin::raw::ProprietaryKey::<u8>::try_from(v0::bitcoin::raw::Key { type_value: other, key: data.clone() });
            (k, back, wrong)
        }) else {
            return;
        };
        c.check(k.type_value == 0xfc && k.key == data, "raw:proprietary-key0", || format!("{:?}", k));
        c.check(back.as_ref().ok() == Some(&pk0), "raw:proprietary-parse0", || format!("{:?} {:?}", pk0, back));
        c.check(wrong.is_ok() == (other == 0xfc), "raw:proprietary-type0", || format!("{:x} {:?}", other, wrong));
        let Some((k, back, wrong)) = c.guard("raw", || {
            let k = pk.to_key();
            let back = psbt_v2::raw::ProprietaryKey::<u8>::try_from(k.clone());
            let wrong = psbt_v2::raw::ProprietaryKey::<u8>::try_from(psbt_v2::raw::Key { type_value: other, key: data.clone() });
            (k, back, wrong)
        }) else {
            return;
        };
        c.check(k.type_value == 0xfc && k.key == data, "raw:proprietary-key", || format!("{:?}", k));
        c.check(back.as_ref().ok() == Some(&pk), "raw:proprietary-parse", || format!("{:?} {:?}", pk, back));
        c.check(wrong.is_ok() == (other == 0xfc), "raw:proprietary-type", || format!("{:x} {:?}", other, wrong));
    });
}

/// The PSBT without its tap trees, which are tried alone: rust-bitcoin writes their depths with
/// another width than it reads them (a recorded finding).
trait NoTree: Sized {
    fn no_tree(&self) -> Option<Self> { None }
}
fn no_tree2(o: &v2::Output) -> v2::Output {
    let mut o = o.clone();
    o.tap_tree = None;
    o
}
fn no_tree0(o: &v0::bitcoin::Output) -> v0::bitcoin::Output {
    let mut o = o.clone();
    o.tap_tree = None;
    o
}
impl NoTree for v2::Psbt {
    fn no_tree(&self) -> Option<Self> {
        let mut p = self.clone();
        p.outputs = p.outputs.iter().map(no_tree2).collect();
        Some(p)
    }
}
impl NoTree for v0::bitcoin::Psbt {
    fn no_tree(&self) -> Option<Self> {
        let mut p = self.clone();
        p.outputs = p.outputs.iter().map(no_tree0).collect();
        Some(p)
    }
}
impl NoTree for v2::Updater {
    fn no_tree(&self) -> Option<Self> { v2::Updater::new(self.clone().psbt().no_tree()?).ok() }
}
impl NoTree for v2::Signer {
    fn no_tree(&self) -> Option<Self> { v2::Signer::new(self.clone().psbt().no_tree()?).ok() }
}
impl NoTree for v2::Output {
    fn no_tree(&self) -> Option<Self> { Some(no_tree2(self)) }
}
impl NoTree for v0::bitcoin::Output {
    fn no_tree(&self) -> Option<Self> { Some(no_tree0(self)) }
}
impl NoTree for v2::Input {}
impl NoTree for v2::Global {}
impl NoTree for v0::bitcoin::Input {}
impl NoTree for psbt_v2::raw::Key {}
impl NoTree for psbt_v2::raw::Pair {}
impl NoTree for psbt_v2::raw::ProprietaryKey {}
impl NoTree for PsbtSighashType {}
#[cfg(feature = "sp")]
impl NoTree for v2::DleqProof {}
impl NoTree for bitcoin::taproot::TapTree {}

fn all_ways<T: NoTree + serde::Serialize + DeserializeOwned + PartialEq>(c: &mut Case, what: &str, t: &T) -> Option<String> {
    let j = c.guard(what, || serde_json::to_string(t))?;
    let json = match j {
        Ok(j) => j,
        Err(e) => {
            c.fail(format!("serde:{}-to-json", what), e.to_string());
            return None;
        }
    };
    c.add("json_bytes", json.len() as u64);
    let mut ok = |c: &mut Case, way: &str, t: &T, back: Option<Result<T, String>>| match back {
        None => {}
        Some(Err(e)) => c.fail(format!("serde:{}-{}", what, way), format!("{}\n{}", e, json)),
        Some(Ok(b)) => {
            c.count(&format!("{}:{}", what, way));
            c.check(b == *t, &format!("serde:{}-{}-differs", what, way), || json.clone());
        }
    };
    let b = c.guard(what, || serde_json::from_str::<T>(&json).map_err(|e| e.to_string()));
    ok(c, "json-str", t, b);
    let b = c.guard(what, || serde_json::from_reader::<_, T>(json.as_bytes()).map_err(|e| e.to_string()));
    ok(c, "json-reader", t, b);
    let b = c.guard(what, || serde_json::to_value(t).and_then(serde_json::from_value::<T>).map_err(|e| e.to_string()));
    ok(c, "json-value", t, b);
    let n = t.no_tree();
    let t = n.as_ref().unwrap_or(t);
    let b = c.guard(what, || bin::to_vec(t).and_then(|v| bin::from_slice::<T>(&v)).map_err(|e| e.to_string()));
    ok(c, "binary", t, b);
    Some(json)
}

pub fn serde(ctx: &Ctx) {
    ctx.rule("PSBTs of both versions with random fields through JSON (from a string, a reader, a value tree, with reordered keys) and through a binary format that is not human readable; the result equals the original. Damaged JSON gives an error or a PSBT, never a panic. Distinct: by JSON text.");
    for w in ["v2", "v0"] {
        for f in ["json-str", "json-reader", "json-value", "binary"] {
            ctx.require(&format!("{}:{}", w, f), 300);
        }
    }
    ctx.require("damaged.err", 1000);
    ctx.cases("serde", 12_000, 200_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let json = if r.bool() {
            let p = gen::v2_psbt(r, false);
            c.add("preimages", p.inputs.iter().map(|i| (i.sha256_preimages.len() + i.hash160_preimages.len() + i.hash256_preimages.len() + i.ripemd160_preimages.len()) as u64).sum());
            let j = all_ways(c, "v2", &p);
            if let Some(i) = p.inputs.first() {
                all_ways(c, "v2input", i);
            }
            if let Some(i) = p.outputs.first() {
                all_ways(c, "v2output", i);
            }
            all_ways(c, "v2global", &p.global);
            if let Ok(u) = v2::Updater::new(p.clone()) {
                all_ways(c, "v2updater", &u);
            }
            if let Ok(u) = v2::Signer::new(p.clone()) {
                all_ways(c, "v2signer", &u);
            }
            j
        } else {
            let p = gen::v0_psbt(r);
            let j = all_ways(c, "v0", &p);
            if let Some(i) = p.inputs.first() {
                all_ways(c, "v0input", i);
            }
            if let Some(i) = p.outputs.first() {
                all_ways(c, "v0output", i);
            }
            j
        };
        if let Some(t) = gen::v2_output(r, 8).tap_tree {
            all_ways(c, "tap-tree", &t);
        }
        let k = psbt_v2::raw::Key { type_value: r.u8(), key: r.bytes(7) };
        all_ways(c, "key", &k);
        all_ways(c, "pair", &psbt_v2::raw::Pair { key: k, value: r.bytes(9) });
        let pk = gen::proprietary(r).0;
        all_ways(c, "proprietary", &pk);
        let st = PsbtSighashType::from_u32(gen::edge_u32(r));
        all_ways(c, "sighash", &st);
        #[cfg(feature = "sp")]
        {
            let mut b = [0u8; 64];
            b.copy_from_slice(&r.bytes(64));
            all_ways(c, "dleq", &v2::DleqProof(b));
        }
        let Some(json) = json else { return };
        c.distinct(hash_str(&json));
        // Unsupported version numbers do not get in.
        let n = gen::edge_u32(r);
        let Some(got) = c.guard("version", || serde_json::from_str::<psbt_v2::Version>(&n.to_string()).ok()) else { return };
        c.check(got.is_some() == (n == 0 || n == 2), "serde:version", || n.to_string());
        // Damage.
        for _ in 0..4 {
            let mut b = json.clone().into_bytes();
            for _ in 0..r.range(1, 3) {
                let at = r.below(b.len());
                match r.below(6) {
                    0 => b[at] = *r.pick(b"0f9a\"[]{},:-tn"),
                    1 => { b.remove(at); }
                    2 => b.insert(at, *r.pick(b"0f9a\"[]{},:-")),
                    3 => b.truncate(at.max(1)),
                    4 => {
                        // A number becomes another.
                        if let Some(i) = (at..b.len()).find(|i| b[*i].is_ascii_digit()) {
                            b.splice(i..i, r.pick(&[&b"18446744073709551615"[..], b"-1", b"4294967296", b"1e9"]).iter().copied());
                        }
                    }
                    _ => {
                        let e = (at + r.below(40)).min(b.len());
                        let s: Vec<u8> = b[at..e].to_vec();
                        b.splice(at..at, s);
                    }
                }
            }
            let s = String::from_utf8_lossy(&b).into_owned();
            let Some((x, y)) = c.guard_with("from_json", || s.clone(), || (serde_json::from_str::<v2::Psbt>(&s).is_ok(), serde_json::from_str::<v0::bitcoin::Psbt>(&s).is_ok())) else { return };
            c.count(if x || y { "damaged.ok" } else { "damaged.err" });
        }
        // Damaged binary.
        if json.len() < 20_000 {
            let p = gen::v2_psbt(r, false);
            let mut b = bin::to_vec(&p).unwrap();
            let at = r.below(b.len());
            b[at] ^= 1 << r.below(8);
            let Some(x) = c.guard_with("from_binary", || hex(&b), || bin::from_slice::<v2::Psbt>(&b).is_ok()) else { return };
            c.count(if x { "damaged_binary.ok" } else { "damaged_binary.err" });
        }
    });
}

pub fn sighash_type(ctx: &Ctx) {
    ctx.rule("Every number below 65536 plus random and edge numbers as a PSBT sighash type: conversions, text and both versions' inputs against the tables of the BIPs; all ECDSA and taproot types; random strings. Distinct: by number or text.");
    ctx.require("numbers", 65_536);
    ctx.require("strings.rejected", 500);
    ctx.require("strings.accepted", 500);
    const NAMES: [(u8, &str); 7] = [(0, "SIGHASH_DEFAULT"), (1, "SIGHASH_ALL"), (2, "SIGHASH_NONE"), (3, "SIGHASH_SINGLE"), (0x81, "SIGHASH_ALL|SIGHASH_ANYONECANPAY"), (0x82, "SIGHASH_NONE|SIGHASH_ANYONECANPAY"), (0x83, "SIGHASH_SINGLE|SIGHASH_ANYONECANPAY")];
    fn number(c: &mut Case, r: &mut Rng, n: u32) {
        c.count("numbers");
        c.distinct(n as u64);
        let name = NAMES.iter().find(|x| x.0 as u32 == n).map(|x| x.1);
        let tap = name.is_some();
        let ecdsa = tap && n != 0;
        let mut i2 = v2::Input::new(&bitcoin::OutPoint::null());
        let mut i0 = v0::bitcoin::Input::default();
        let Some((t, back, e, p, s)) = c.guard("sighash_type", || {
            let t = PsbtSighashType::from_u32(n);
            (t, t.to_u32(), t.ecdsa_hash_ty(), t.taproot_hash_ty(), t.to_string())
        }) else {
            return;
        };
        c.check(back == n, "sht:number", || format!("{:x} {:x}", n, back));
        c.check(e.as_ref().ok().map(|x| x.to_u32()) == ecdsa.then_some(n), "sht:ecdsa", || format!("{:x} {:?}", n, e));
        c.check(p.as_ref().ok().map(|x| *x as u32) == tap.then_some(n), "sht:taproot", || format!("{:x} {:?}", n, p));
        let want = name.map(|x| x.to_string()).unwrap_or(format!("{:#x}", n));
        c.check(s == want, "sht:text", || format!("{:x} {}", n, s));
        let Some(back) = c.guard("sighash_type", || PsbtSighashType::from_str(&s)) else { return };
        c.check(back.as_ref().ok() == Some(&t), "sht:text-parse", || format!("{:x} {} {:?}", n, s, back));
        let set = r.chance(7, 8);
        if set {
            i2.sighash_type = Some(t);
            i0.sighash_type = Some(t);
        }
        let Some((a, b, x, y)) = c.guard("input_sighash_type", || (i2.ecdsa_hash_ty(), i0.ecdsa_hash_ty(), i2.taproot_hash_ty(), i0.taproot_hash_ty())) else { return };
        let (we, wt) = if set { (ecdsa.then_some(n), tap.then_some(n)) } else { (Some(1), Some(0)) };
        c.check(a.as_ref().ok().map(|x| x.to_u32()) == we && b.as_ref().ok().map(|x| x.to_u32()) == we, "sht:input-ecdsa", || format!("{:x} {} {:?} {:?}", n, set, a, b));
        c.check(x.as_ref().ok().map(|x| *x as u32) == wt && y.as_ref().ok().map(|x| *x as u32) == wt, "sht:input-taproot", || format!("{:x} {} {:?} {:?}", n, set, x, y));
    }
    ctx.cases("all", 256, 256, |c| {
        let mut rng = c.rng.clone();
        for lo in 0..256u32 {
            number(c, &mut rng, (c.index as u32) << 8 | lo);
        }
    });
    ctx.cases("more", 20_000, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        for _ in 0..8 {
            let n = match r.below(4) {
                0 => gen::edge_u32(r),
                1 => r.u32(),
                2 => (*r.pick(&NAMES)).0 as u32 | 1 << r.range(8, 31),
                _ => (*r.pick(&NAMES)).0 as u32 | (r.u32() & 0xffff_ff00),
            };
            number(c, r, n);
        }
        for (n, _) in NAMES {
            if n != 0 {
                let e = EcdsaSighashType::from_standard(n as u32).unwrap();
                let Some(t) = c.guard("from", || PsbtSighashType::from(e)) else { return };
                c.check(t.to_u32() == n as u32, "sht:from-ecdsa", || format!("{} {:?}", n, t));
            }
            let e = TapSighashType::from_consensus_u8(n).unwrap();
            let Some(t) = c.guard("from", || PsbtSighashType::from(e)) else { return };
            c.check(t.to_u32() == n as u32, "sht:from-taproot", || format!("{} {:?}", n, t));
        }
        // Text: names and hexadecimal numbers up to 32 bits, nothing else.
        for _ in 0..8 {
            let n = if r.bool() { r.u32() } else { r.u8() as u32 };
            let (s, want) = match r.below(10) {
                0 => (format!("{:x}", n), Some(n)),
                1 => (format!("{:#x}", n), Some(n)),
                2 => (format!("0x{:08X}", n), Some(n)),
                3 => (format!("0x1{:08x}", n), None),
                4 => (format!("0x{:x}g", n), None),
                5 => { let x = r.pick(&NAMES); (x.1.to_string(), Some(x.0 as u32)) }
                6 => { let x = r.pick(&NAMES); (format!("{} ", x.1), None) }
                7 => (r.pick(&["", "0x", " ", "SIGHASH_", "SIGHASH_RESERVED", "-1", "SIGHASH_ALL|", "0x 1", "sighash", "ANYONECANPAY"]).to_string(), None),
                8 => { let n = r.range(1, 12); let s: String = (0..n).map(|_| *r.pick(&['g', 'z', '|', ' ', 'S'])).collect(); (s, None) }
                _ => (format!("{}|SIGHASH_NONE", r.pick(&NAMES).1), None),
            };
            let Some(got) = c.guard_with("from_str", || s.clone(), || PsbtSighashType::from_str(&s)) else { return };
            c.count(if got.is_ok() { "strings.accepted" } else { "strings.rejected" });
            c.check(got.as_ref().ok().map(|t| t.to_u32()) == want, "sht:string", || format!("{:?} {:?}", s, got));
        }
    });
}

pub fn preimages(ctx: &Ctx) {
    ctx.rule("PSBTs with preimage pairs, right or wrong by a bit, a byte, the hash function, another preimage or the length, parsed; the pairs are accepted if and only if every preimage hashes to its key and end up in the right map. Distinct: by bytes.");
    ctx.require("accepted", 500);
    for t in [10, 11, 12, 13] {
        ctx.require(&format!("wrong:{}", t), 100);
        ctx.require(&format!("right:{}", t), 100);
    }
    ctx.cases("preimage", 60_000, 1_500_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let v = ver(r);
        let mut raw = match v {
            Ver::V2 => { let mut p = gen::v2_psbt(r, false); p.inputs.iter_mut().for_each(clear2); pairs::v2(&p) }
            Ver::V0 => { let mut p = gen::v0_psbt(r); p.inputs.iter_mut().for_each(clear0); pairs::v0(&p) }
        };
        let at: Vec<usize> = (0..raw.maps.len()).filter(|i| muta::kind_of(&raw, v, *i) == 1).collect();
        if at.is_empty() {
            return;
        }
        let mut good = true;
        let mut want: Vec<Vec<(u8, Vec<u8>, Vec<u8>)>> = vec![vec![]; at.len()];
        for _ in 0..r.range(1, 6) {
            let i = r.below(at.len());
            let ty = *r.pick(&[10u8, 11, 12, 13]);
            let pre = gen::preimage(r);
            let h = |ty: u8, b: &[u8]| -> Vec<u8> {
                match ty {
                    10 => ripemd160::Hash::hash(b).to_byte_array().to_vec(),
                    11 => sha256::Hash::hash(b).to_byte_array().to_vec(),
                    12 => hash160::Hash::hash(b).to_byte_array().to_vec(),
                    _ => sha256d::Hash::hash(b).to_byte_array().to_vec(),
                }
            };
            let mut key = h(ty, &pre);
            if r.chance(1, 4) {
                match r.below(6) {
                    0 => { let n = r.below(key.len()); key[n] ^= 1 << r.below(8); }
                    1 => key = h(match ty { 10 => 12, 12 => 10, 11 => 13, _ => 11 }, &pre),
                    2 => { key.pop(); }
                    3 => key.push(r.u8()),
                    4 => { let mut p = pre.clone(); p.push(0); key = h(ty, &p); }
                    _ => key.reverse(),
                }
            }
            if want[i].iter().any(|w| w.0 == ty && w.1 == key) {
                continue;
            }
            let right = key == h(ty, &pre);
            good &= right;
            c.count(&format!("{}:{}", if right { "right" } else { "wrong" }, ty));
            raw.maps[at[i]].push(KV::new(ty, key.clone(), pre.clone()));
            want[i].push((ty, key, pre));
        }
        if r.bool() {
            muta::shuffle_all(r, &mut raw);
        }
        let bytes = raw.enc();
        c.distinct(hash_bytes(&bytes));
        let Some(got) = c.guard_with("deserialize", || hex(&bytes), || codec::parse(v, &bytes)) else { return };
        if got.is_ok() != good {
            c.fail(if good { "preimage:refused" } else { "preimage:wrong-accepted" }, format!("{:?} {}\n{}", want, hex(&bytes), got.err().unwrap_or_default()));
            return;
        }
        let Ok(p) = got else { c.count("rejected"); return };
        c.count("accepted");
        for w in want.iter_mut() {
            w.sort();
        }
        let have: Vec<Vec<(u8, Vec<u8>, Vec<u8>)>> = match &p {
            Parsed::V2(p) => p.inputs.iter().map(|i| held(&i.ripemd160_preimages, &i.sha256_preimages, &i.hash160_preimages, &i.hash256_preimages)).collect(),
            Parsed::V0(p) => p.inputs.iter().map(|i| held(&i.ripemd160_preimages, &i.sha256_preimages, &i.hash160_preimages, &i.hash256_preimages)).collect(),
        };
        c.check(have == want, "preimage:maps", || format!("{:?}\n{:?}", have, want));
    });
}

type PM<H> = std::collections::BTreeMap<H, Vec<u8>>;
fn held(a: &PM<ripemd160::Hash>, b: &PM<sha256::Hash>, c: &PM<hash160::Hash>, d: &PM<sha256d::Hash>) -> Vec<(u8, Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    v.extend(a.iter().map(|(k, p)| (10u8, k.to_byte_array().to_vec(), p.clone())));
    v.extend(b.iter().map(|(k, p)| (11u8, k.to_byte_array().to_vec(), p.clone())));
    v.extend(c.iter().map(|(k, p)| (12u8, k.to_byte_array().to_vec(), p.clone())));
    v.extend(d.iter().map(|(k, p)| (13u8, k.to_byte_array().to_vec(), p.clone())));
    v.sort();
    v
}
fn clear2(i: &mut v2::Input) {
    i.ripemd160_preimages.clear();
    i.sha256_preimages.clear();
    i.hash160_preimages.clear();
    i.hash256_preimages.clear();
}
fn clear0(i: &mut v0::bitcoin::Input) {
    i.ripemd160_preimages.clear();
    i.sha256_preimages.clear();
    i.hash160_preimages.clear();
    i.hash256_preimages.clear();
}

#[cfg(feature = "sp")]
pub fn bip375(ctx: &Ctx) {
    use bitcoin::secp256k1::PublicKey;
    ctx.rule("PSBTs whose silent payment fields (ECDH shares, DLEQ proofs, payment info, label) have key and value lengths around the right ones and points on or off the curve, parsed; accepted if and only if every field follows BIP-375, and then held and written unchanged. DleqProof conversions of all lengths. Distinct: by bytes.");
    ctx.require("accepted", 500);
    ctx.require("rejected", 500);
    for t in ["g07", "g08", "i1d", "i1e", "o09", "o0a"] {
        ctx.require(&format!("bad:{}", t), 50);
        ctx.require(&format!("good:{}", t), 50);
    }
    fn point(r: &mut Rng, good: bool) -> Vec<u8> {
        loop {
            let mut b = gen::pk(r).serialize().to_vec();
            if good {
                return b;
            }
            match r.below(5) {
                0 => b[0] = *r.pick(&[0u8, 1, 4, 5, 6, 7, 0x82]),
                1 => { b = r.bytes(33); b[0] = 2; }
                2 => b = vec![2; 33].into_iter().map(|_| 0xff).collect(),
                3 => b = [vec![2u8], vec![0u8; 32]].concat(),
                _ => b[1..].reverse(),
            }
            if PublicKey::from_slice(&b).is_err() {
                return b;
            }
        }
    }
    fn sized(r: &mut Rng, n: usize) -> Vec<u8> {
        let mut m = n;
        while m == n {
            m = match r.below(4) { 0 => 0, 1 => n - 1, 2 => n + 1, _ => r.below(130) };
        }
        r.bytes(m)
    }
    ctx.cases("fields", 80_000, 1_500_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut raw = loop {
            let mut raw = pairs::v2(&gen::v2_psbt(r, false));
            if raw.maps.len() < 2 {
                continue;
            }
            let kinds: Vec<usize> = (0..raw.maps.len()).map(|i| muta::kind_of(&raw, Ver::V2, i)).collect();
            for (m, k) in raw.maps.iter_mut().zip(&kinds) {
                let sp: &[u8] = [&[7u8, 8][..], &[0x1d, 0x1e], &[9, 0x0a]][*k];
                m.retain(|kv| !sp.contains(&kv.ty()));
            }
            break raw;
        };
        let mut good = true;
        let mut added = vec![];
        for _ in 0..r.range(1, 5) {
            let i = r.below(raw.maps.len());
            let k = muta::kind_of(&raw, Ver::V2, i);
            let ok = r.chance(4, 5);
            let (ty, key, val) = match (k, r.bool()) {
                (0 | 1, share) => {
                    let ty = match (k, share) { (0, true) => 7, (0, false) => 8, (1, true) => 0x1d, _ => 0x1e };
                    let how = r.below(if share { 4 } else { 3 });
                    let key = if ok || how >= 2 { point(r, true) } else if how == 0 { point(r, false) } else { sized(r, 33) };
                    let n = if share { 33 } else { 64 };
                    let val = match (ok || how < 2, share) {
                        (true, true) => point(r, true),
                        (true, false) => r.bytes(64),
                        (false, true) if how == 3 => point(r, false),
                        _ => sized(r, n),
                    };
                    (ty, key, val)
                }
                (_, true) => {
                    let v = match ok {
                        true => [point(r, true), point(r, true)].concat(),
                        // Whether the points have to be on the curve is left open.
                        _ => sized(r, 66),
                    };
                    (9, vec![], v)
                }
                (_, false) => {
                    let v = if ok { r.bytes(4) } else { sized(r, 4) };
                    (0x0a, vec![], v)
                }
            };
            // Key data on the output fields.
            let (ok, key) = if k == 2 && r.chance(1, 10) { (false, r.bytes(3)) } else { (ok, key) };
            if raw.maps[i].iter().any(|kv| kv.ty() == ty && (k == 2 || kv.keydata() == key)) {
                continue;
            }
            good &= ok;
            let name = format!("{}{:02x}", ["g", "i", "o"][k], ty);
            c.count(&format!("{}:{}", if ok { "good" } else { "bad" }, name));
            raw.maps[i].push(KV::new(ty, key.clone(), val.clone()));
            if k < 2 && key.len() == 33 && r.chance(7, 8) {
                // Its counterpart: a proof for a share, a share for a proof.
                let (ty, val) = match ty { 7 => (8, r.bytes(64)), 8 => (7, point(r, true)), 0x1d => (0x1e, r.bytes(64)), _ => (0x1d, point(r, true)) };
                if !raw.maps[i].iter().any(|kv| kv.ty() == ty && kv.keydata() == key) {
                    raw.maps[i].push(KV::new(ty, key.clone(), val.clone()));
                    added.push((i, ty, key.clone(), val, true));
                }
            }
            added.push((i, ty, key, val, ok));
        }
        // A label without payment info, and an output with neither script nor info, are not valid;
        // a label alone is left to the format checks (C05).
        let lone_label = (0..raw.maps.len()).any(|i| muta::kind_of(&raw, Ver::V2, i) == 2 && {
            let m = &raw.maps[i];
            m.iter().any(|kv| kv.ty() == 0x0a) && !m.iter().any(|kv| kv.ty() == 9)
        });
        if lone_label || raw.maps.iter().enumerate().any(|(i, m)| muta::kind_of(&raw, Ver::V2, i) == 2 && !m.iter().any(|kv| kv.ty() == 9 || kv.ty() == 4)) {
            good = false;
        }
        // Shares go with proofs. If both are there but for different scan keys it is left open.
        let mut open = false;
        for (i, m) in raw.maps.iter().enumerate() {
            let (a, b) = match muta::kind_of(&raw, Ver::V2, i) { 0 => (7, 8), 1 => (0x1d, 0x1e), _ => continue };
            let keys = |t: u8| -> std::collections::BTreeSet<Vec<u8>> { m.iter().filter(|kv| kv.ty() == t).map(|kv| kv.keydata().to_vec()).collect() };
            let (a, b) = (keys(a), keys(b));
            good &= a.is_empty() == b.is_empty();
            open |= a != b;
            c.count(if a == b { "paired" } else { "unpaired" });
        }
        if r.bool() {
            muta::shuffle_all(r, &mut raw);
        }
        let bytes = raw.enc();
        c.distinct(hash_bytes(&bytes));
        let Some(got) = c.guard_with("deserialize", || hex(&bytes), || v2::Psbt::deserialize(&bytes)) else { return };
        match got {
            Err(e) => {
                c.count("rejected");
                if good && !open {
                    c.fail("bip375:refused", format!("{:?}\n{:?}\n{}", e, added, hex(&bytes)));
                }
                let _ = c.guard("display", || e.to_string());
            }
            Ok(p) => {
                if !good {
                    c.fail("bip375:accepted", format!("{:?}\n{}", added, hex(&bytes)));
                    return;
                }
                c.count("accepted");
                // Held.
                let mut have: Vec<(usize, u8, Vec<u8>, Vec<u8>)> = vec![];
                have.extend(p.global.sp_ecdh_shares.iter().map(|(k, v)| (0, 7, k.to_bytes().to_vec(), v.to_bytes().to_vec())));
                have.extend(p.global.sp_dleq_proofs.iter().map(|(k, v)| (0, 8, k.to_bytes().to_vec(), v.as_bytes().to_vec())));
                for (i, x) in p.inputs.iter().enumerate() {
                    have.extend(x.sp_ecdh_shares.iter().map(|(k, v)| (1 + i, 0x1d, k.to_bytes().to_vec(), v.to_bytes().to_vec())));
                    have.extend(x.sp_dleq_proofs.iter().map(|(k, v)| (1 + i, 0x1e, k.to_bytes().to_vec(), v.as_bytes().to_vec())));
                }
                for (i, x) in p.outputs.iter().enumerate() {
                    have.extend(x.sp_v0_info.iter().map(|v| (1 + p.inputs.len() + i, 9, vec![], v.to_vec())));
                    have.extend(x.sp_v0_label.iter().map(|v| (1 + p.inputs.len() + i, 0x0a, vec![], v.to_le_bytes().to_vec())));
                }
                let mut want: Vec<_> = added.iter().map(|(i, t, k, v, _)| (*i, *t, k.clone(), v.clone())).collect();
                have.sort();
                want.sort();
                c.check(have == want, "bip375:held", || format!("{:?}\n{:?}", have, want));
                let Some(out) = c.guard("serialize", || p.serialize()) else { return };
                c.check(Raw::dec(&out).map(|o| o.sorted()) == Some(raw.sorted()), "bip375:written", || format!("{}\n{}", hex(&bytes), hex(&out)));
            }
        }
    });
    ctx.cases("proof", 260, 4000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let n = if c.index < 130 { c.index as usize } else { *r.pick(&[0usize, 63, 64, 64, 65, 128]) };
        let b = r.bytes(n);
        c.distinct(hash_bytes(&b));
        let Some((x, y)) = c.guard("dleq", || (v2::DleqProof::try_from(&b[..]), v2::DleqProof::try_from(b.clone()))) else { return };
        c.count(if x.is_ok() { "proof.ok" } else { "proof.err" });
        c.check(x.is_ok() == (n == 64) && y.is_ok() == (n == 64), "dleq:length", || format!("{} {:?} {:?}", n, x, y));
        if let (Ok(x), Ok(y)) = (&x, &y) {
            let a: [u8; 64] = b[..].try_into().unwrap();
            c.check(x.as_bytes()[..] == b[..] && x.as_ref() == &b[..] && x == y && v2::DleqProof::from(a) == *x, "dleq:bytes", || hex(&b));
        }
        if let Err(e) = &x {
            c.check(e.got == n && e.expected == 64, "dleq:error", || format!("{:?}", e));
        }
        // JSON text of the proof.
        let s = match r.below(4) { 0 => hex(&b), 1 => hex(&b).to_uppercase(), 2 => hex(&b) + "0", _ => hex(&b).replace('a', "g") };
        let valid = n == 64 && s.len() == 128 && !s.contains('g');
        let Some(g) = c.guard("dleq_json", || serde_json::from_str::<v2::DleqProof>(&format!("\"{}\"", s)).ok()) else { return };
        c.check(g.map(|p| p.0.to_vec()) == valid.then_some(b.clone()), "dleq:json", || s.clone());
    });
}
#[cfg(not(feature = "sp"))]
pub fn bip375(_: &Ctx) {}
