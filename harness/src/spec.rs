//! What BIP-174/370/371/375 say about a raw PSBT: must be accepted, must be rejected, or not
//! specified (either is fine).

use bitcoin::bip32::Xpub;
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::taproot::{ControlBlock, LeafVersion, TapTree, TaprootBuilder};
use bitcoin::{secp256k1, ScriptBuf, Transaction};

use crate::raw::{read_compact, Map, Raw};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ver {
    V0,
    V2,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Spec {
    Accept,
    /// Signature-friendly reason.
    Reject(&'static str),
    Unspecified(&'static str),
}
use Spec::*;

pub const SP: bool = cfg!(feature = "sp");

/// Folds per-field outcomes: a definite defect dominates.
struct Acc {
    rej: Option<&'static str>,
    uns: Option<&'static str>,
}
impl Acc {
    fn add(&mut self, s: Spec) {
        match s {
            Accept => {}
            Reject(r) => {
                if self.rej.is_none() {
                    self.rej = Some(r)
                }
            }
            Unspecified(u) => {
                if self.uns.is_none() {
                    self.uns = Some(u)
                }
            }
        }
    }
}

fn unkeyed(kd: &[u8], s: Spec) -> Spec {
    if !kd.is_empty() {
        Reject("keydata-on-unkeyed-field")
    } else {
        s
    }
}
fn len(v: &[u8], n: usize) -> Spec {
    if v.len() == n {
        Accept
    } else {
        Reject("value-length")
    }
}
fn key_source(v: &[u8]) -> Spec {
    if v.len() < 4 || v.len() % 4 != 0 {
        Reject("key-source-length")
    } else {
        Accept
    }
}
fn both(a: Spec, b: Spec) -> Spec {
    match (a, b) {
        (Reject(r), _) | (_, Reject(r)) => Reject(r),
        (Unspecified(u), _) | (_, Unspecified(u)) => Unspecified(u),
        _ => Accept,
    }
}
fn point33(k: &[u8]) -> Spec {
    if k.len() != 33 {
        return Reject("compressed-key-length");
    }
    if secp256k1::PublicKey::from_slice(k).is_ok() {
        Accept
    } else {
        Reject("invalid-point")
    }
}
fn pubkey(k: &[u8]) -> Spec {
    match k.len() {
        33 => point33(k),
        65 => match secp256k1::PublicKey::from_slice(k) {
            Ok(_) if k[0] == 4 => Accept,
            Ok(_) => Unspecified("hybrid-key"),
            Err(_) => Reject("invalid-point"),
        },
        _ => Reject("key-length"),
    }
}
fn bip32_pubkey(k: &[u8]) -> Spec {
    match pubkey(k) {
        Accept if k.len() == 65 => Unspecified("uncompressed-bip32-key"),
        s => s,
    }
}
fn xonly(k: &[u8]) -> Spec {
    if k.len() != 32 {
        return Reject("xonly-length");
    }
    if XOnlyPublicKey::from_slice(k).is_ok() {
        Accept
    } else {
        Reject("invalid-xonly")
    }
}
fn ecdsa_sig(v: &[u8]) -> Spec {
    if v.is_empty() {
        return Reject("empty-signature");
    }
    let (der, ty) = v.split_at(v.len() - 1);
    if ![1u8, 2, 3, 0x81, 0x82, 0x83].contains(&ty[0]) {
        return Reject("nonstandard-sighash-in-signature");
    }
    match secp256k1::ecdsa::Signature::from_der(der) {
        Ok(s) if s.serialize_der().as_ref() == der => Accept,
        Ok(_) => Unspecified("non-canonical-der"),
        Err(_) => Reject("not-der"),
    }
}
fn tap_sig(v: &[u8]) -> Spec {
    match v.len() {
        64 => Accept,
        65 if [1u8, 2, 3, 0x81, 0x82, 0x83].contains(&v[64]) => Accept,
        65 if v[64] == 0 => Unspecified("65-byte-taproot-signature-with-default-type"),
        65 => Reject("taproot-sighash-type"),
        _ => Reject("taproot-signature-length"),
    }
}
fn txout(v: &[u8]) -> Spec {
    if v.len() < 9 {
        return Reject("txout");
    }
    match read_compact(&v[8..]) {
        Some((n, u)) if n.checked_add(8 + u as u64) == Some(v.len() as u64) => Accept,
        _ => Reject("txout"),
    }
}
fn witness(v: &[u8]) -> Spec {
    let Some((n, mut p)) = read_compact(v) else { return Reject("witness") };
    if n > v.len() as u64 {
        return Reject("witness");
    }
    for _ in 0..n {
        let Some((l, u)) = read_compact(&v[p..]) else { return Reject("witness") };
        p += u;
        if l > (v.len() - p) as u64 {
            return Reject("witness");
        }
        p += l as usize;
    }
    if p == v.len() {
        Accept
    } else {
        Reject("witness-trailing")
    }
}
fn proprietary(kd: &[u8]) -> Spec {
    match read_compact(kd) {
        Some((n, u)) => {
            let end = n.saturating_add(u as u64);
            if end >= u64::MAX - 1 || end + 1 > kd.len() as u64 {
                Reject("proprietary-key")
            } else if kd.len() as u64 - end - 1 > 1024 {
                Unspecified("proprietary-key-above-1024-bytes")
            } else {
                Accept
            }
        }
        None => Reject("proprietary-key"),
    }
}
fn transaction(v: &[u8]) -> Spec {
    match bitcoin::consensus::deserialize::<Transaction>(v) {
        Ok(t) => {
            if bitcoin::consensus::serialize(&t) == v {
                Accept
            } else {
                Unspecified("non-canonical-transaction")
            }
        }
        Err(_) => Reject("transaction"),
    }
}
fn tap_origin(v: &[u8]) -> Spec {
    let Some((n, u)) = read_compact(v) else { return Reject("tap-origin") };
    let Some(end) = n.checked_mul(32).and_then(|x| x.checked_add(u as u64)) else {
        return Reject("tap-origin");
    };
    if end > v.len() as u64 {
        return Reject("tap-origin");
    }
    key_source(&v[end as usize..])
}
fn tap_leaf_script(kd: &[u8], v: &[u8]) -> Spec {
    if kd.is_empty() {
        return Reject("keydata-missing");
    }
    let cb = match ControlBlock::decode(kd) {
        Ok(cb) => cb,
        Err(_) => return Reject("control-block"),
    };
    if cb.serialize() != kd {
        return Unspecified("non-canonical-control-block");
    }
    let Some(lv) = v.last() else { return Reject("leaf-script-empty") };
    match LeafVersion::from_consensus(*lv) {
        Ok(lv) if lv == cb.leaf_version => Accept,
        Ok(_) => Unspecified("leaf-version-differs-from-control-block"),
        Err(_) => Reject("leaf-version"),
    }
}
/// The leaves of a serialized tap tree as `TaprootBuilder` (a dependency, not the code under test)
/// arranges them: siblings are unordered in a taproot tree.
fn tap_tree_parse(v: &[u8]) -> Result<TapTree, Spec> {
    let mut b = TaprootBuilder::new();
    let mut p = 0;
    while p < v.len() {
        if v.len() - p < 3 {
            return Err(Reject("tap-tree"));
        }
        let (d, lv) = (v[p], v[p + 1]);
        p += 2;
        let Some((n, u)) = read_compact(&v[p..]) else { return Err(Reject("tap-tree")) };
        p += u;
        if n > (v.len() - p) as u64 {
            return Err(Reject("tap-tree"));
        }
        let s = ScriptBuf::from(v[p..p + n as usize].to_vec());
        p += n as usize;
        let Ok(lv) = LeafVersion::from_consensus(lv) else {
            return Err(Reject("tap-tree-leaf-version"));
        };
        b = match b.add_leaf_with_ver(d, s, lv) {
            Ok(b) => b,
            Err(_) => return Err(Reject("tap-tree-not-dfs")),
        };
    }
    TapTree::try_from(b).map_err(|_| Reject("tap-tree-incomplete"))
}
fn tap_tree(v: &[u8]) -> Spec {
    match tap_tree_parse(v) {
        Ok(_) => Accept,
        Err(s) => s,
    }
}
fn preimage(ok: bool) -> Spec {
    if ok {
        Accept
    } else {
        Reject("preimage-hash")
    }
}
fn xpub(kd: &[u8], v: &[u8]) -> Spec {
    if kd.is_empty() {
        return Reject("keydata-missing");
    }
    let k = if kd.len() != 78 {
        Reject("xpub-length")
    } else {
        match Xpub::decode(kd) {
            Ok(x) if x.encode()[..] == *kd => Accept,
            Ok(_) => Unspecified("non-canonical-xpub"),
            Err(_) => Reject("xpub"),
        }
    };
    both(k, key_source(v))
}

fn keyed(kd: &[u8], k: Spec, v: Spec) -> Spec {
    if kd.is_empty() {
        return Reject("keydata-missing");
    }
    both(k, v)
}

fn dups(m: &Map, a: &mut Acc) {
    let mut s: Vec<&[u8]> = m.iter().map(|kv| &kv.k[..]).collect();
    s.sort();
    if s.windows(2).any(|w| w[0] == w[1]) {
        a.add(Reject("duplicate-key"));
    }
    // Keys that only differ in the encoding of the same public key.
}

fn sp_maps(m: &Map, e: u8, d: u8, a: &mut Acc) {
    let ek: std::collections::BTreeSet<_> =
        m.iter().filter(|k| k.ty() == e).map(|k| k.keydata().to_vec()).collect();
    let dk: std::collections::BTreeSet<_> =
        m.iter().filter(|k| k.ty() == d).map(|k| k.keydata().to_vec()).collect();
    if ek.is_empty() != dk.is_empty() {
        a.add(Reject("ecdh-dleq-mismatch"));
    } else if ek != dk {
        a.add(Unspecified("ecdh-dleq-scan-keys-differ"));
    }
}

fn input(ver: Ver, m: &Map, a: &mut Acc) {
    dups(m, a);
    for kv in m {
        let (kd, v) = (kv.keydata(), &kv.v[..]);
        let s = match (kv.ty(), ver) {
            (0x00, _) => unkeyed(kd, transaction(v)),
            (0x01, _) => unkeyed(kd, txout(v)),
            (0x02, _) => keyed(kd, pubkey(kd), ecdsa_sig(v)),
            (0x03, _) => unkeyed(kd, len(v, 4)),
            (0x04, _) | (0x05, _) | (0x07, _) => unkeyed(kd, Accept),
            (0x06, _) => keyed(kd, bip32_pubkey(kd), key_source(v)),
            (0x08, _) => unkeyed(kd, witness(v)),
            (0x0a, _) => keyed(kd, len(kd, 20), preimage(ripemd160::Hash::hash(v).as_byte_array() == kd)),
            (0x0b, _) => keyed(kd, len(kd, 32), preimage(sha256::Hash::hash(v).as_byte_array() == kd)),
            (0x0c, _) => keyed(kd, len(kd, 20), preimage(hash160::Hash::hash(v).as_byte_array() == kd)),
            (0x0d, _) => keyed(kd, len(kd, 32), preimage(sha256d::Hash::hash(v).as_byte_array() == kd)),
            (0x0e..=0x12, Ver::V0) => Reject("v2-only-field"),
            (0x0e, Ver::V2) => unkeyed(
                kd,
                both(len(v, 32), if v == [0u8; 32] { Unspecified("null-txid") } else { Accept }),
            ),
            (0x0f, Ver::V2) => unkeyed(
                kd,
                both(len(v, 4), if v == [0xff; 4] { Unspecified("null-vout") } else { Accept }),
            ),
            (0x10, Ver::V2) => unkeyed(kd, len(v, 4)),
            (0x11, Ver::V2) => unkeyed(
                kd,
                both(
                    len(v, 4),
                    if v.len() == 4 && u32::from_le_bytes(v.try_into().unwrap()) < 500_000_000 {
                        Reject("time-lock-below-threshold")
                    } else {
                        Accept
                    },
                ),
            ),
            (0x12, Ver::V2) => unkeyed(
                kd,
                both(
                    len(v, 4),
                    if v.len() == 4 {
                        match u32::from_le_bytes(v.try_into().unwrap()) {
                            0 => Unspecified("zero-height"),
                            1..=499_999_999 => Accept,
                            _ => Reject("height-lock-above-threshold"),
                        }
                    } else {
                        Accept
                    },
                ),
            ),
            (0x13, _) => unkeyed(kd, tap_sig(v)),
            (0x14, _) => keyed(
                kd,
                if kd.len() == 64 { xonly(&kd[..32]) } else { Reject("tap-script-sig-key-length") },
                tap_sig(v),
            ),
            (0x15, _) => tap_leaf_script(kd, v),
            (0x16, _) => keyed(kd, xonly(kd), tap_origin(v)),
            (0x17, _) => unkeyed(kd, xonly(v)),
            (0x18, _) => unkeyed(kd, len(v, 32)),
            (0x1d, Ver::V2) if SP => keyed(kd, point33(kd), point33(v)),
            (0x1e, Ver::V2) if SP => keyed(kd, point33(kd), len(v, 64)),
            (0xfc, _) => proprietary(kd),
            _ => Accept,
        };
        a.add(s);
    }
    if ver == Ver::V2 {
        for (t, r) in [(0x0eu8, "missing-previous-txid"), (0x0f, "missing-output-index")] {
            if !m.iter().any(|k| k.ty() == t) {
                a.add(Reject(r));
            }
        }
        if SP {
            sp_maps(m, 0x1d, 0x1e, a);
        }
    }
}

fn output(ver: Ver, m: &Map, a: &mut Acc) {
    dups(m, a);
    for kv in m {
        let (kd, v) = (kv.keydata(), &kv.v[..]);
        let s = match (kv.ty(), ver) {
            (0x00, _) | (0x01, _) => unkeyed(kd, Accept),
            (0x02, _) => keyed(kd, bip32_pubkey(kd), key_source(v)),
            (0x03 | 0x04, Ver::V0) => Reject("v2-only-field"),
            (0x03, Ver::V2) => unkeyed(
                kd,
                both(
                    len(v, 8),
                    if v.len() == 8
                        && u64::from_le_bytes(v.try_into().unwrap()) > 2_100_000_000_000_000
                    {
                        Unspecified("amount-above-max-money")
                    } else {
                        Accept
                    },
                ),
            ),
            (0x04, Ver::V2) => unkeyed(kd, Accept),
            (0x05, _) => unkeyed(kd, xonly(v)),
            (0x06, _) => unkeyed(kd, tap_tree(v)),
            (0x07, _) => keyed(kd, xonly(kd), tap_origin(v)),
            (0x09, Ver::V2) if SP => unkeyed(
                kd,
                both(
                    len(v, 66),
                    if v.len() == 66
                        && both(point33(&v[..33]), point33(&v[33..])) != Accept
                    {
                        Unspecified("sp-info-not-points")
                    } else {
                        Accept
                    },
                ),
            ),
            (0x0a, Ver::V2) if SP => unkeyed(kd, len(v, 4)),
            (0xfc, _) => proprietary(kd),
            _ => Accept,
        };
        a.add(s);
    }
    if ver == Ver::V2 {
        let has = |t: u8| m.iter().any(|k| k.ty() == t);
        if !has(0x03) {
            a.add(Reject("missing-amount"));
        }
        if !has(0x04) && !(SP && has(0x09)) {
            a.add(Reject("missing-script"));
        }
        if SP && has(0x0a) && !has(0x09) {
            a.add(Reject("label-without-info"));
        }
        if SP && has(0x09) && m.iter().any(|k| k.ty() == 0x04 && k.v.is_empty()) {
            a.add(Unspecified("empty-script-on-silent-payment-output"));
        }
    }
}

/// The v0 unsigned transaction: (inputs, outputs) if well formed and unsigned.
fn unsigned_tx(v: &[u8]) -> Result<(u64, u64), &'static str> {
    let bad = "unsigned-transaction";
    let mut p = 4;
    let (ni, u) = v.get(p..).and_then(read_compact).ok_or(bad)?;
    p += u;
    for _ in 0..ni {
        p += 36;
        let (n, u) = v.get(p..).and_then(read_compact).ok_or(bad)?;
        if n > v.len() as u64 {
            return Err(bad);
        }
        if n != 0 {
            return Err("unsigned-transaction-has-script-sig");
        }
        p += u + n as usize + 4;
        if p > v.len() {
            return Err(bad);
        }
    }
    let (no, u) = v.get(p..).and_then(read_compact).ok_or(bad)?;
    p += u;
    for _ in 0..no {
        p += 8;
        let (n, u) = v.get(p..).and_then(read_compact).ok_or(bad)?;
        if n > v.len() as u64 {
            return Err(bad);
        }
        p += u + n as usize;
        if p > v.len() {
            return Err(bad);
        }
    }
    if p + 4 != v.len() {
        return Err(bad);
    }
    Ok((ni, no))
}

fn global(ver: Ver, m: &Map, nmaps: usize, trailing: bool, a: &mut Acc) -> Option<(usize, usize)> {
    dups(m, a);
    let mut ni: Option<u64> = None;
    let mut no: Option<u64> = None;
    for kv in m {
        let (kd, v) = (kv.keydata(), &kv.v[..]);
        let s = match (kv.ty(), ver) {
            (0x00, Ver::V2) => Reject("unsigned-tx-in-v2"),
            (0x00, Ver::V0) => unkeyed(
                kd,
                match unsigned_tx(v) {
                    Ok((i, o)) => {
                        ni = Some(i);
                        no = Some(o);
                        Accept
                    }
                    Err(r) => Reject(r),
                },
            ),
            (0x01, _) => xpub(kd, v),
            (0x02..=0x06, Ver::V0) => Reject("v2-only-field"),
            (0x02, Ver::V2) => unkeyed(
                kd,
                both(
                    len(v, 4),
                    if v.len() == 4 && i32::from_le_bytes(v.try_into().unwrap()) < 2 {
                        Unspecified("tx-version-below-2")
                    } else {
                        Accept
                    },
                ),
            ),
            (0x03, Ver::V2) => unkeyed(kd, len(v, 4)),
            (0x04 | 0x05, Ver::V2) => unkeyed(
                kd,
                match read_compact(v) {
                    Some((n, u)) => {
                        if kv.ty() == 4 {
                            ni = Some(n)
                        } else {
                            no = Some(n)
                        }
                        if u == v.len() {
                            Accept
                        } else {
                            // The repository's own BIP-375 vectors write the counts as four bytes.
                            Unspecified("count-trailing-bytes")
                        }
                    }
                    None => Reject("count"),
                },
            ),
            (0x06, Ver::V2) => unkeyed(kd, len(v, 1)),
            (0x07, Ver::V2) if SP => keyed(kd, point33(kd), point33(v)),
            (0x08, Ver::V2) if SP => keyed(kd, point33(kd), len(v, 64)),
            (0xfb, Ver::V2) => {
                unkeyed(kd, both(len(v, 4), if v == [2, 0, 0, 0] { Accept } else { Reject("wrong-version") }))
            }
            (0xfb, Ver::V0) => {
                unkeyed(kd, both(len(v, 4), if v == [0, 0, 0, 0] { Accept } else { Reject("wrong-version") }))
            }
            (0xfc, _) => proprietary(kd),
            _ => Accept,
        };
        a.add(s);
    }
    match ver {
        Ver::V2 => {
            for (t, r) in [
                (0xfbu8, "missing-version"),
                (0x02, "missing-tx-version"),
                (0x04, "missing-input-count"),
                (0x05, "missing-output-count"),
            ] {
                if !m.iter().any(|k| k.ty() == t) {
                    a.add(Reject(r));
                }
            }
            if SP {
                sp_maps(m, 0x07, 0x08, a);
            }
        }
        Ver::V0 =>
            if !m.iter().any(|k| k.ty() == 0x00) {
                a.add(Reject("missing-unsigned-tx"));
            },
    }
    if let (Some(i), Some(o)) = (ni, no) {
        match i.checked_add(o) {
            Some(t) if t == (nmaps - 1) as u64 => {
                if trailing {
                    a.add(Reject("trailing-bytes"));
                }
                return Some((i as usize, o as usize));
            }
            Some(t) if t < (nmaps - 1) as u64 => a.add(Reject("trailing-maps")),
            _ => a.add(Reject("missing-maps")),
        }
    }
    None
}

pub fn spec(ver: Ver, r: &Raw) -> Spec {
    let mut a = Acc { rej: None, uns: None };
    if r.maps.is_empty() {
        return Reject("no-maps");
    }
    if r.maps.iter().flatten().any(|kv| kv.k.is_empty()) {
        return Reject("empty-key");
    }
    if r.maps.iter().flatten().any(|kv| kv.k.len() > 3_900_000 || kv.v.len() > 3_900_000) {
        return Unspecified("oversize");
    }
    let counts = global(ver, &r.maps[0], r.maps.len(), !r.trailing.is_empty(), &mut a);
    match counts {
        Some((i, o)) => {
            for m in &r.maps[1..1 + i] {
                input(ver, m, &mut a);
            }
            for m in &r.maps[1 + i..1 + i + o] {
                output(ver, m, &mut a);
            }
        }
        None => {
            if a.rej.is_none() {
                a.add(Reject("counts"));
            }
        }
    }
    match (a.rej, a.uns) {
        (Some(r), _) => Reject(r),
        (_, Some(u)) => Unspecified(u),
        _ => Accept,
    }
}

/// The spec for arbitrary bytes.
pub fn spec_bytes(ver: Ver, b: &[u8]) -> (Spec, Option<Raw>) {
    match Raw::dec(b) {
        Some(r) => {
            let s = spec(ver, &r);
            (s, Some(r))
        }
        None => (Reject("not-a-psbt-container"), None),
    }
}

/// The pairs a lossless re-serialisation must contain.
pub fn normalised(ver: Ver, r: &Raw) -> Vec<Map> {
    let mut r = r.clone();
    match ver {
        Ver::V2 =>
            if !r.maps[0].iter().any(|k| k.ty() == 0x06) {
                r.maps[0].push(crate::raw::KV::new(0x06, [], [0]));
            },
        Ver::V0 => r.maps[0].retain(|k| k.ty() != 0xfb),
    }
    for m in r.maps.iter_mut().skip(1) {
        // PSBT_OUT_TAP_TREE (in an input map 0x06 has key data).
        for k in m.iter_mut().filter(|k| k.k == [0x06]) {
            if let Ok(t) = tap_tree_parse(&k.v) {
                k.v = crate::pairs::tap_tree(&t);
            }
        }
    }
    r.sorted()
}
