//! The two versions, given the same transaction and the same data, give the same answers (C45).
use bitcoin::sighash::SighashCache;
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::{v0, v2};

use crate::ctx::{self, Ctx};
use crate::fin;
use crate::gen::{self, secp};
use crate::muta;
use crate::raw::{compact, hex, Map, Raw, KV};
use crate::rng::{hash_bytes, Rng};
use crate::robust::{self, Mode};
use crate::scen::{Kind, ECDSA_KINDS};
use crate::sign::{self, Defect, Holder};
use crate::spec::Ver;

/// What both versions can carry about an input, for comparing.
fn common(
    a: &v2::Input,
    b: &v0::bitcoin::Input,
    part: &[&str],
) -> Vec<(String, String, String)> {
    let mut v = vec![];
    macro_rules! f {
        ($name:literal, $x:ident, $y:ident) => {
            if part.is_empty() || part.contains(&$name) {
                v.push(($name.to_string(), format!("{:?}", a.$x), format!("{:?}", b.$y)));
            }
        };
    }
    f!("non_witness_utxo", non_witness_utxo, non_witness_utxo);
    f!("witness_utxo", witness_utxo, witness_utxo);
    f!("partial_sigs", partial_sigs, partial_sigs);
    f!("sighash_type", sighash_type, sighash_type);
    f!("redeem_script", redeem_script, redeem_script);
    f!("witness_script", witness_script, witness_script);
    f!("bip32", bip32_derivations, bip32_derivation);
    f!("final_script_sig", final_script_sig, final_script_sig);
    f!("final_script_witness", final_script_witness, final_script_witness);
    f!("ripemd160", ripemd160_preimages, ripemd160_preimages);
    f!("sha256", sha256_preimages, sha256_preimages);
    f!("hash160", hash160_preimages, hash160_preimages);
    f!("hash256", hash256_preimages, hash256_preimages);
    f!("tap_key_sig", tap_key_sig, tap_key_sig);
    f!("tap_script_sigs", tap_script_sigs, tap_script_sigs);
    f!("tap_scripts", tap_scripts, tap_scripts);
    f!("tap_key_origins", tap_key_origins, tap_key_origins);
    f!("tap_internal_key", tap_internal_key, tap_internal_key);
    f!("tap_merkle_root", tap_merkle_root, tap_merkle_root);
    f!("proprietary", proprietaries, proprietary);
    f!("unknown", unknowns, unknown);
    v
}

pub fn versions_agree(ctx: &Ctx) {
    ctx.rule("The same spend as a version 0 and a version 2 PSBT: signed with the same key holder, finalized, combined and extracted side by side, and every answer compared. And every operation of either version run twice over, answers compared. Distinct: by transaction and data.");
    for k in ["sighashes_equal", "signatures_equal", "sign_errors_equal", "finalized_equal", "finalize_refused_by_both", "combined_equal", "extracted_equal", "fees_equal", "codec_equal", "repeated_operations"] {
        ctx.require(k, 300);
    }
    ctx.cases("sign", 15_000, 120_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut kinds = ECDSA_KINDS.to_vec();
        if r.chance(1, 3) {
            kinds.extend([Kind::TrKey, Kind::TrScript]);
        }
        let damaged = r.bool();
        let (s, d) = sign::signing_scen(r, &kinds, damaged);
        let (mut p2, mut p0) = (s.v2(), s.v0());
        sign::damage_v2(&mut p2, &d);
        sign::damage_v0(&mut p0, &d);
        c.distinct(hash_bytes(&p2.serialize()));
        let n = s.ins.len();
        let Some(tx) = s.tx() else { return };
        c.check(tx == p0.unsigned_tx, "agree:harness", || "the scenario's own transactions differ".into());
        // Funding and fee.
        let Some(u0) = c.guard("v0 iter_funding_utxos", || p0.iter_funding_utxos().map(|u| u.ok().cloned()).collect::<Vec<_>>()) else { return };
        let Some(u2) = c.guard("v2 iter_funding_utxos", || p2.iter_funding_utxos().map(|u| u.ok().cloned()).collect::<Vec<_>>()) else { return };
        c.check(u0 == u2, "agree:funding-utxos", || format!("{:?}\n{:?}", u0, u2));
        let Some(f0) = c.guard("v0 fee", || p0.fee().ok()) else { return };
        let Some(f2) = c.guard("v2 fee", || p2.fee().ok()) else { return };
        if c.check(f0 == f2, "agree:fee", || format!("{:?}\n{:?}", f0, f2)) && f0.is_some() {
            c.count("fees_equal");
        }
        // Sighashes.
        let (mut c0, mut c2) = (SighashCache::new(&tx), SighashCache::new(&tx));
        for i in 0..=n {
            let Some(a) = c.guard("v0 sighash_ecdsa", || p0.sighash_ecdsa(i, &mut c0)) else { continue };
            let Some(b) = c.guard("v2 sighash_ecdsa", || p2.sighash_ecdsa(i, &mut c2)) else { continue };
            if c.check(a.as_ref().ok() == b.as_ref().ok(), "agree:sighash", || format!("input {}: {:?}\n{:?}", i, a, b)) && a.is_ok() {
                c.count("sighashes_equal");
            }
        }
        // Signatures.
        let h = Holder::random(r, &s);
        let b2 = p2.clone();
        let b0 = p0.clone();
        let Some(a) = c.guard("v0 sign", || sign::sign_v0(&mut p0, &h)) else { return };
        let Some(b) = c.guard("v2 sign", || sign::sign_v2(p2, &h)) else { return };
        let tap = |i: usize| s.ins[i].kind.tap();
        // Version 2 passes over what it cannot tell the type of, version 0 reports it.
        let told = |i: usize| !tap(i) && !matches!(d[i], Some(Defect::NoUtxo | Defect::BadVout | Defect::NoRedeem));
        let e0: Vec<usize> = a.as_ref().err().map(|(_, e)| e.keys().copied().filter(|i| told(*i)).collect()).unwrap_or_default();
        let e2: Vec<usize> = b.as_ref().err().map(|(_, e)| e.keys().copied().filter(|i| told(*i)).collect()).unwrap_or_default();
        if c.check(e0 == e2, "agree:sign-errors", || format!("{:?}\n{:?}", a, b)) {
            c.count("sign_errors_equal");
        }
        if let Ok((p2, keys)) = b {
            for (i, (x, y)) in p2.inputs.iter().zip(&p0.inputs).enumerate() {
                if tap(i) {
                    continue;
                }
                for (f, x, y) in common(x, y, &[]) {
                    c.check(x == y, &format!("agree:signed({})", f), || format!("input {}: {}\n{}", i, x, y));
                }
                c.add("signatures_equal", x.partial_sigs.len() as u64);
                let k0 = match &a {
                    Ok(k) | Err((k, _)) => k.get(&i).map(|k| match k {
                        v0::bitcoin::SigningKeys::Ecdsa(k) => k.clone(),
                        _ => vec![],
                    }).unwrap_or_default(),
                };
                let k2 = keys.get(&i).cloned().unwrap_or_default();
                c.check(k0 == k2, "agree:signing-keys", || format!("input {}: {:?}\n{:?}", i, k0, k2));
            }
            // Combining with what was there before changes nothing, in both.
            if let (Some(Ok(x)), Some(Ok(()))) = (
                c.guard("v2 combine", || b2.combine_with(p2.clone())),
                c.guard("v0 combine", || p0.combine(b0)),
            ) {
                for (i, (x, y)) in x.inputs.iter().zip(&p0.inputs).enumerate() {
                    if tap(i) {
                        continue;
                    }
                    for (f, x, y) in common(x, y, &[]) {
                        c.check(x == y, &format!("agree:combined({})", f), || format!("input {}: {}\n{}", i, x, y));
                    }
                    c.count("combined_equal");
                }
            }
        }
    });
    ctx.cases("finalize", 18_000, 144_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let kinds = if r.bool() { fin::ALL_KINDS.to_vec() } else { vec![*r.pick(&fin::ALL_KINDS)] };
        let junk = r.chance(1, 3);
        let rd = fin::ready(r, &kinds, junk);
        let (p2, mut p0) = (rd.v2(), rd.v0());
        c.distinct(hash_bytes(&p2.serialize()));
        let text = || format!("v2 {}\nv0 {}", hex(&rd.v2().serialize()), hex(&rd.v0().serialize()));
        let Some(f) = c.guard("Finalizer::new", || v2::Finalizer::new(p2.clone())) else { return };
        let f = match f {
            Ok(f) => f,
            Err(_) => {
                c.count("finalizer_not_made");
                return;
            }
        };
        let Some(a) = c.guard("v2 finalize", || f.finalize(secp())) else { return };
        let Some(b) = c.guard("v0 finalize", || p0.finalize_mall_mut(secp())) else { return };
        match (a, b) {
            (Ok(q2), Ok(())) => {
                for (i, (x, y)) in q2.inputs.iter().zip(&p0.inputs).enumerate() {
                    for (f, x, y) in common(x, y, &["final_script_sig", "final_script_witness", "unknown", "witness_utxo", "non_witness_utxo"]) {
                        // Version 2 writes an empty one where version 0 writes none.
                        let none = |s: &str| s == "None" || s == "Some(Script())" || s.contains("witnesses: []");
                        c.check(x == y || f.starts_with("final") && none(&x) && none(&y), &format!("agree:final({})", f), || format!("input {}: {}\n{}\n{}", i, x, y, text()));
                    }
                    c.count("finalized_equal");
                }
                let i2 = c.guard("v2 interpreter_check", || q2.interpreter_check(secp()).is_ok());
                let i0 = c.guard("v0 interpreter_check", || psbt_v2::v0::miniscript::interpreter_check(&p0, secp()).is_ok());
                c.check(i2 == i0, "agree:interpreter_check", || format!("{:?} {:?}\n{}", i2, i0, text()));
                let x2 = c.guard("Extractor", || v2::Extractor::new(q2.clone()).ok().map(|e| e.extract_tx_unchecked_fee_rate().ok())).flatten().flatten();
                let x0 = c.guard("v0 extract", || p0.extract_tx_unchecked_fee_rate());
                if let (Some(x2), Some(x0)) = (x2, x0) {
                    if c.check(x2 == x0, "agree:extracted", || format!("{:?}\n{:?}\n{}", x2, x0, text())) {
                        c.count("extracted_equal");
                    }
                }
            }
            (Err(_), Err(_)) => c.count("finalize_refused_by_both"),
            (a, b) => c.fail(
                format!("agree:finalize-one-refuses({})", if a.is_ok() { "v0" } else { "v2" }),
                format!("v2 {:?}\nv0 {:?}\n{}", a.map(|_| ()), b, text()),
            ),
        }
    });
    // A field that both versions know is read and written the same by both.
    ctx.cases("fields", 40_000, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        same_fields(c, r);
    });
    // The same again is the same again.
    ctx.cases("repeat", 7_500, 60_000, |c| {
        let seed = c.rng.u64();
        let v = c.rng.bool();
        let run = || {
            let mut r = Rng::new(seed);
            if v {
                let (p, _, log) = robust::run_v2(&mut r, Mode::Full);
                (hex(&p.serialize()), log)
            } else {
                let (p, _, log) = robust::run_v0(&mut r, Mode::Full);
                (hex(&p.serialize()), log)
            }
        };
        let (p, a) = run();
        let (q, b) = run();
        c.distinct(hash_bytes(p.as_bytes()));
        c.check(p == q && a.ops.len() == b.ops.len(), "repeat:origin", || format!("{}\n{}", p, q));
        for ((o, x), (_, y)) in a.ops.iter().zip(&b.ops) {
            c.check(x == y, &format!("repeat:{}", o), || format!("{}\n{}\n{}", x, y, p));
            c.count("repeated_operations");
        }
    });
}

/// Types that mean the same in both versions; global, input, output.
const SHARED: [&[u8]; 3] = [
    &[0x01, 0xfc],
    &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0a, 0x0b, 0x0c, 0x0d, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0xfc],
    &[0, 1, 2, 5, 6, 7, 0xfc],
];

/// A few pairs of shared types, perhaps damaged, in the same place of a minimal PSBT of each version.
fn same_fields(c: &mut ctx::Case, r: &mut Rng) {
    let kind = r.below(3);
    let mut put: Map = vec![];
    for _ in 0..r.range(1, 3) {
        let mut kv = loop {
            let ver = if r.bool() { Ver::V2 } else { Ver::V0 };
            let kv = muta::some_pair(r, ver, kind);
            if SHARED[kind].contains(&kv.ty()) {
                break kv;
            }
        };
        let at = |r: &mut Rng, v: &mut Vec<u8>| match r.below(5) {
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(v.len() + 1);
                v.truncate(i);
            }
            2 => {
                let n = r.range(1, 5);
                v.extend(r.bytes(n));
            }
            3 => {
                let n = *r.pick(&[0usize, 1, 20, 31, 32, 33, 63, 64, 65, 66]);
                *v = r.bytes(n);
            }
            _ => {
                let i = r.below(v.len() + 1);
                v.insert(i, r.below(256) as u8);
            }
        };
        match r.below(4) {
            0 => at(r, &mut kv.v),
            1 => {
                let mut d = kv.keydata().to_vec();
                at(r, &mut d);
                kv = KV::new(kv.ty(), d, kv.v.clone());
            }
            _ => {}
        }
        if r.chance(1, 10) {
            put.push(kv.clone());
        }
        put.push(kv);
    }
    let txid: [u8; 32] = r.bytes(32).try_into().unwrap();
    let spk = hex_script(r);
    let mut tx = vec![2, 0, 0, 0, 1];
    tx.extend(txid);
    tx.extend([1, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 1]);
    tx.extend(5000u64.to_le_bytes());
    tx.extend(compact(spk.len() as u64));
    tx.extend(&spk);
    tx.extend([0; 4]);
    let own0: Vec<Map> = vec![vec![KV::new(0, [], tx)], vec![], vec![]];
    let own2: Vec<Map> = vec![
        vec![KV::new(6, [], [0]), KV::new(2, [], 2u32.to_le_bytes()), KV::new(4, [], [1]), KV::new(5, [], [1]), KV::new(0xfb, [], 2u32.to_le_bytes())],
        vec![KV::new(0x0e, [], txid), KV::new(0x0f, [], 1u32.to_le_bytes())],
        vec![KV::new(3, [], 5000u64.to_le_bytes()), KV::new(4, [], spk)],
    ];
    let build = |own: &[Map]| {
        let mut m = own.to_vec();
        m[kind].extend(put.clone());
        Raw { maps: m, trailing: vec![] }.enc()
    };
    let (b0, b2) = (build(&own0), build(&own2));
    c.distinct(hash_bytes(&b2));
    let Some(a) = c.guard("v0 deserialize", || v0::bitcoin::Psbt::deserialize(&b0)) else { return };
    let Some(b) = c.guard("v2 deserialize", || v2::Psbt::deserialize(&b2)) else { return };
    let types: Vec<String> = put.iter().map(|k| format!("{:02x}", k.ty())).collect();
    let show = || format!("map {} pairs {}", kind, put.iter().map(|k| k.hex()).collect::<Vec<_>>().join(" "));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            c.count("codec_equal");
            for t in &types {
                c.count(&format!("kept:{}:{}", kind, t));
            }
            let strip = |bytes: Vec<u8>, own: &[Map]| {
                let mut m = Raw::dec(&bytes).map(|r| r.sorted()).unwrap_or_default();
                for (m, o) in m.iter_mut().zip(own) {
                    m.retain(|k| !o.iter().any(|x| x.k == k.k) && !(k.k == [0xfb] && k.v == [0; 4]));
                }
                m
            };
            let (x, y) = (strip(a.serialize(), &own0), strip(b.serialize(), &own2));
            c.check(x == y, &format!("agree:codec-kept(map {})", kind), || format!("{}\n{:?}\n{:?}", show(), x, y));
        }
        (Err(_), Err(_)) => {
            c.count("codec_both_refuse");
            for t in &types {
                c.count(&format!("refused:{}:{}", kind, t));
            }
        }
        (a, b) => c.fail(
            format!("agree:codec-accepts(map {})", kind),
            format!("{}\nv0 {:?}\nv2 {:?}", show(), a.map(|_| ()), b.map(|_| ())),
        ),
    }
}

fn hex_script(r: &mut Rng) -> Vec<u8> { gen::script(r).to_bytes() }
