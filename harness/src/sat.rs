//! Monitors for what version 0 tells a satisfier about an input (C50) and for raw keys (C51).
use std::convert::TryFrom;

use bitcoin::consensus::encode::{Decodable, Encodable};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::{absolute, ecdsa, relative, transaction, PublicKey, Sequence};
use miniscript::{hash256, Preimage32, Satisfier};
use psbt_v2::v0::bitcoin::Psbt;
use psbt_v2::v0::miniscript::PsbtInputSatisfier;

use crate::ctx::Ctx;
use crate::gen;
use crate::raw::{compact, hex};
use crate::rng::{hash_bytes, Rng};

type P = PublicKey;

fn arr32(v: &[u8]) -> Option<Preimage32> { <[u8; 32]>::try_from(v).ok() }

/// Mostly near `v`, the fields of which are of `mask`.
fn near(r: &mut Rng, v: u32) -> u32 {
    match r.below(6) {
        0 => v,
        1 => v.wrapping_add(1),
        2 => v.wrapping_sub(1),
        3 => v ^ 1 << 22,
        4 => gen::edge_u32(r),
        _ => r.below(70_000) as u32,
    }
}

pub fn satisfier(ctx: &Ctx) {
    ctx.rule("Random version 0 PSBTs with all fields, edge lock times, sequences and versions; every lookup of the input satisfier, for each key, hash and leaf the input (and its neighbours) has, in several key types, and for strangers, against a scan of the fields. Time locks around those of the transaction against BIP-65 and BIP-112. Distinct: by serialized PSBT and input.");
    for n in ["ecdsa", "ecdsa-none", "pkh", "pkh-sig", "leaf", "leaf-none", "leaf-pkh", "preimage", "preimage-length", "after", "after-not", "older", "older-not"] {
        ctx.require(n, 500);
    }
    ctx.cases("lookup", 40_000, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut p = gen::v0_psbt(r);
        if p.inputs.is_empty() {
            return;
        }
        p.unsigned_tx.version = transaction::Version(r.below(4) as i32);
        p.unsigned_tx.lock_time = gen::lock_time(r);
        let k = r.below(p.inputs.len());
        let seq = match r.below(4) {
            0 => Sequence(gen::edge_u32(r)),
            1 => Sequence(r.below(65536) as u32 | if r.bool() { 1 << 22 } else { 0 }),
            _ => gen::sequence(r),
        };
        p.unsigned_tx.input[k].sequence = seq;
        if r.bool() {
            // Both forms of a key.
            let mut pk = gen::pubkey(r);
            for _ in 0..2 {
                pk.compressed = !pk.compressed;
                p.inputs[k].partial_sigs.insert(pk, gen::ecdsa_sig(r));
            }
        }
        if r.bool() {
            // One key for two leaves.
            let x = gen::xonly(r);
            for _ in 0..2 {
                p.inputs[k].tap_script_sigs.insert((x, gen::leaf_hash(r)), gen::tap_sig(r));
            }
        }
        if r.bool() {
            let d = r.arr::<32>();
            let i = &mut p.inputs[k];
            // The same preimage for one hash but not for the others, or with another length.
            let d = if r.bool() { d.to_vec() } else { d[..r.range(20, 31)].to_vec() };
            match r.below(4) {
                0 => drop(i.sha256_preimages.insert(sha256::Hash::hash(&d), d)),
                1 => drop(i.hash256_preimages.insert(sha256d::Hash::hash(&d), d)),
                2 => drop(i.ripemd160_preimages.insert(ripemd160::Hash::hash(&d), d)),
                _ => drop(i.hash160_preimages.insert(hash160::Hash::hash(&d), d)),
            }
        }
        c.distinct(hash_bytes(&p.serialize()) ^ k as u64);
        let stranger = (gen::pubkey(r), gen::xonly(r), gen::leaf_hash(r), r.arr::<32>(), r.arr::<20>());
        let locks: Vec<u32> = (0..4).map(|_| near(r, p.unsigned_tx.lock_time.to_consensus_u32())).collect();
        let olds: Vec<u32> = (0..4).map(|_| near(r, seq.0)).collect();
        let Some((ok, bad)) = c.guard("lookup", || lookups(&p, k, stranger, &locks, &olds)) else { return };
        for n in ok {
            c.count(n);
        }
        for b in bad {
            c.fail(format!("sat:{}", b.0), format!("input {}: {}\n{:?}", k, b.1, p));
        }
    });
}

type Stranger = (PublicKey, XOnlyPublicKey, bitcoin::TapLeafHash, [u8; 32], [u8; 20]);

fn lookups(p: &Psbt, k: usize, st: Stranger, locks: &[u32], olds: &[u32]) -> (Vec<&'static str>, Vec<(&'static str, String)>) {
    let s = PsbtInputSatisfier::new(p, k);
    let s = &s;
    let i = &p.inputs[k];
    let tx = &p.unsigned_tx;
    let mut ok = vec![];
    let mut bad: Vec<(&'static str, String)> = vec![];
    macro_rules! check {
        ($name:literal, $got:expr, $want:expr, $of:expr) => {{
            let (g, w) = ($got, $want);
            if g == w {
                ok.push($name);
            } else {
                bad.push(($name, format!("{:?}: {:?} expected {:?}", $of, g, w)));
            }
        }};
    }
    if s.index != k || !std::ptr::eq(s.psbt, p) {
        bad.push(("new", format!("{}", s.index)));
    }
    // ECDSA signatures, by key and by hash.
    let sig = |pk: &P| i.partial_sigs.iter().find(|(q, _)| q.to_bytes() == pk.to_bytes()).map(|(_, s)| *s);
    let pks: Vec<P> = p.inputs.iter().flat_map(|i| i.partial_sigs.keys().copied().chain(i.bip32_derivation.keys().map(|k| P::new(*k)))).chain([st.0]).collect();
    for pk in &pks {
        for pk in [*pk, P { compressed: !pk.compressed, inner: pk.inner }] {
            let w: Option<ecdsa::Signature> = sig(&pk);
            if w.is_some() {
                check!("ecdsa", Satisfier::<P>::lookup_ecdsa_sig(s, &pk), w, pk);
            } else {
                check!("ecdsa-none", Satisfier::<P>::lookup_ecdsa_sig(s, &pk), w, pk);
            }
            let h = hash160::Hash::hash(&pk.to_bytes());
            check!("pkh-sig", Satisfier::<P>::lookup_raw_pkh_ecdsa_sig(s, &h), w.map(|w| (pk, w)), pk);
            let known = i.bip32_derivation.keys().any(|q| *q == pk.inner);
            if pk.compressed || !known {
                check!("pkh", Satisfier::<P>::lookup_raw_pkh_pk(s, &h), known.then_some(pk), pk);
            }
        }
    }
    // Taproot.
    check!("tap-key", Satisfier::<P>::lookup_tap_key_spend_sig(s), i.tap_key_sig, "key path");
    check!("scripts", Satisfier::<P>::lookup_tap_control_block_map(s), Some(&i.tap_scripts), "scripts");
    let mut xs: Vec<(XOnlyPublicKey, bitcoin::TapLeafHash)> = p.inputs.iter().flat_map(|i| i.tap_script_sigs.keys().copied()).collect();
    if let Some((x, l)) = xs.first().copied() {
        xs.push((x, st.2));
        xs.push((st.1, l));
        xs.push((xs[xs.len() - 1].0, xs[0].1));
    }
    for (x, l) in &xs {
        let w = i.tap_script_sigs.iter().find(|((y, m), _)| y.serialize() == x.serialize() && l == m).map(|(_, s)| *s);
        let name = Satisfier::<XOnlyPublicKey>::lookup_tap_leaf_script_sig(s, x, l);
        if w.is_some() {
            check!("leaf", name, w, (x, l));
        } else {
            check!("leaf-none", name, w, (x, l));
        }
        let even = P::new(x.public_key(bitcoin::secp256k1::Parity::Even));
        let odd = P::new(x.public_key(bitcoin::secp256k1::Parity::Odd));
        check!("leaf-full-key", Satisfier::<P>::lookup_tap_leaf_script_sig(s, &even, l), w, (x, l));
        check!("leaf-full-key", Satisfier::<P>::lookup_tap_leaf_script_sig(s, &odd, l), w, (x, l));
        let h = hash160::Hash::hash(&x.serialize());
        check!("leaf-pkh", Satisfier::<P>::lookup_raw_pkh_tap_leaf_script_sig(s, &(h, *l)), w.map(|w| (*x, w)), (x, l));
    }
    // Preimages. Each hash is asked for as each kind.
    let mut hs32: Vec<[u8; 32]> = p.inputs.iter().flat_map(|i| i.sha256_preimages.keys().map(|h| h.to_byte_array()).chain(i.hash256_preimages.keys().map(|h| h.to_byte_array()))).collect();
    hs32.push(st.3);
    let mut hs20: Vec<[u8; 20]> = p.inputs.iter().flat_map(|i| i.ripemd160_preimages.keys().map(|h| h.to_byte_array()).chain(i.hash160_preimages.keys().map(|h| h.to_byte_array()))).collect();
    hs20.push(st.4);
    macro_rules! pre {
        ($map:ident, $f:ident, $h:expr, $arg:expr) => {{
            let e = i.$map.iter().find(|(g, _)| g.to_byte_array() == $h).map(|(_, v)| v);
            let w = e.and_then(|v| arr32(v));
            let got = Satisfier::<P>::$f(s, &$arg);
            match (e, w) {
                (Some(_), None) => check!("preimage-length", got, w, (stringify!($map), hex(&$h))),
                (Some(_), Some(_)) => check!("preimage", got, w, (stringify!($map), hex(&$h))),
                _ => check!("preimage-none", got, w, (stringify!($map), hex(&$h))),
            }
        }};
    }
    for h in hs32 {
        pre!(sha256_preimages, lookup_sha256, h, sha256::Hash::from_byte_array(h));
        pre!(hash256_preimages, lookup_hash256, h, hash256::Hash::from_byte_array(h));
    }
    for h in hs20 {
        pre!(ripemd160_preimages, lookup_ripemd160, h, ripemd160::Hash::from_byte_array(h));
        pre!(hash160_preimages, lookup_hash160, h, hash160::Hash::from_byte_array(h));
    }
    // Time locks.
    let seq = tx.input[k].sequence.0;
    let lt = tx.lock_time.to_consensus_u32();
    for n in locks {
        // BIP-65.
        let w = seq != u32::MAX && (*n < 500_000_000) == (lt < 500_000_000) && *n <= lt;
        let got = Satisfier::<P>::check_after(s, absolute::LockTime::from_consensus(*n));
        if w {
            check!("after", got, w, (n, lt, seq));
        } else {
            check!("after-not", got, w, (n, lt, seq));
        }
    }
    for n in olds {
        let v = *n as u16;
        let time = n & 1 << 22 != 0;
        let l = if time { relative::LockTime::from_512_second_intervals(v) } else { relative::LockTime::from_height(v) };
        // BIP-68 and BIP-112.
        let w = tx.version.0 >= 2 && seq & 1 << 31 == 0 && (seq & 1 << 22 != 0) == time && v <= seq as u16;
        let got = Satisfier::<P>::check_older(s, l);
        if w {
            check!("older", got, w, (l, tx.version, seq));
        } else {
            check!("older-not", got, w, (l, tx.version, seq));
        }
    }
    (ok, bad)
}

/// A subtype that is not its own number.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Odd(u8);
impl From<u8> for Odd {
    fn from(n: u8) -> Self { Odd(n ^ 0xa5) }
}
impl From<Odd> for u8 {
    fn from(o: Odd) -> u8 { o.0 ^ 0xa5 }
}

macro_rules! raw_version {
    ($f:ident, $m:path) => {
        fn $f(c: &mut crate::ctx::Case, r: &mut Rng) {
            use $m as m;
            let n = gen::edge_len(r).min(1024);
            let n = if r.chance(1, 8) { 1024 } else { n };
            let l = gen::edge_len(r);
            let prefix = r.bytes(l);
            let key = r.bytes(n);
            let subtype = r.below(256) as u8;
            let mut data = compact(prefix.len() as u64);
            data.extend(&prefix);
            data.push(subtype);
            data.extend(&key);
            c.distinct(hash_bytes(&data));
            let what = || format!("{} prefix {} subtype {} key {}", stringify!($f), hex(&prefix), subtype, hex(&key));
            let p = m::ProprietaryKey { prefix: prefix.clone(), subtype, key: key.clone() };
            let q = m::ProprietaryKey { prefix: prefix.clone(), subtype: Odd::from(subtype), key: key.clone() };
            let Some((a, b, v, len)) = c.guard("to_key", || {
                let mut v = vec![];
                let len = p.consensus_encode(&mut v).unwrap();
                (p.to_key(), q.to_key(), v, len)
            }) else {
                return;
            };
            c.count("to_key");
            c.check(a.type_value == 0xfc && a.key == data, "raw:to-key", || format!("{} gives {:?}", what(), a));
            c.check(a == b, "raw:subtype", || format!("{} gives {:?}", what(), b));
            c.check(v == data && len == v.len(), "raw:encode", || format!("{} gives {} of {}", what(), hex(&v), len));
            let Some((x, y, z)) = c.guard("try_from", || {
                (
                    m::ProprietaryKey::<u8>::try_from(a.clone()),
                    m::ProprietaryKey::<Odd>::try_from(a.clone()),
                    m::ProprietaryKey::<u8>::consensus_decode(&mut &data[..]),
                )
            }) else {
                return;
            };
            c.check(x.as_ref().ok() == Some(&p), "raw:from-key", || format!("{} comes back as {:?}", what(), x));
            c.check(y.as_ref().ok() == Some(&q), "raw:from-key-subtype", || format!("{} comes back as {:?}", what(), y));
            c.check(z.as_ref().ok() == Some(&p), "raw:decode", || format!("{} comes back as {:?}", what(), z));
            // Another key type, or data that ends early, is no proprietary key.
            let t = match r.below(3) {
                0 => 0xfb,
                1 => 0xfd,
                _ => r.below(256) as u8,
            };
            if t != 0xfc {
                let k = m::Key { type_value: t, key: data.clone() };
                let Some(e) = c.guard("try_from", || m::ProprietaryKey::<u8>::try_from(k).is_err()) else { return };
                c.count("other-type");
                c.check(e, "raw:type", || format!("{} accepted as type {:#x}", what(), t));
            }
            let cut = r.below(data.len() - key.len());
            let k = m::Key { type_value: 0xfc, key: data[..cut].to_vec() };
            let Some(e) = c.guard("try_from", || m::ProprietaryKey::<u8>::try_from(k).is_err()) else { return };
            c.count("truncated");
            c.check(e, "raw:truncated", || format!("{} accepted cut to {}", what(), cut));
            // The text of a key has it all.
            let text = a.to_string();
            c.check(text.contains(&hex(&a.key)) && text.contains("0xfc"), "raw:text", || format!("{} shown as {}", what(), text));
            let mut o = a.clone();
            match r.below(3) {
                0 => o.type_value ^= 1 << r.below(8),
                1 => o.key.push(0),
                _ => {
                    let n = r.below(o.key.len());
                    o.key[n] ^= 1 << r.below(8);
                }
            }
            c.check(o.to_string() != text, "raw:text-same", || format!("{:?} and {:?} are {}", a, o, text));
        }
    };
}
raw_version!(raw_v2, psbt_v2::raw);
raw_version!(raw_v0, psbt_v2::v0::bitcoin::raw);

pub fn raw_keys(ctx: &Ctx) {
    ctx.rule("Random proprietary keys of both versions (prefixes and data of edge lengths, all subtypes, a subtype that is not its own number) to raw keys and consensus bytes and back, other key types, and data cut before its end; texts of keys that differ in one bit. Oracle: the layout of BIP-174 assembled by hand. Distinct: by key data and version.");
    for n in ["to_key", "other-type", "truncated"] {
        ctx.require(n, 1000);
    }
    ctx.cases("raw", 40_000, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        if c.index % 2 == 0 {
            raw_v2(c, r)
        } else {
            raw_v0(c, r)
        }
    });
}
