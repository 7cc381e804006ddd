//! Monitors for the version 0 extras: updating from descriptors, creating from a transaction, the signer's checks and
//! the message to sign (C35, C36, C47, C48).
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use std::sync::Arc;

use bitcoin::bip32::{DerivationPath, Fingerprint, KeySource, Xpub};
use bitcoin::hashes::{hash160, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::sighash::SighashCache;
use bitcoin::taproot::{LeafVersion, TapLeafHash};
use bitcoin::{Amount, ScriptBuf, Transaction, TxOut};
use miniscript::descriptor::{ConversionError, TapTree};
use miniscript::{BareCtx, DefiniteDescriptorKey, Descriptor, Legacy, Miniscript, Segwitv0, Tap};
use psbt_v2::v0::bitcoin::{Input, Output, Psbt};
use psbt_v2::v0::miniscript::{
    OutputUpdateError, PsbtExt, PsbtInputExt, PsbtOutputExt, PsbtSighashMsg, SighashError, UtxoUpdateError,
};
use psbt_v2::v0::SignerChecksError;

use crate::ctx::{Case, Ctx};
use crate::gen::{self, secp};
use crate::rng::{hash_bytes, hash_str, Rng};
use crate::scen::{self, keys, Inp, Kind, Pol};
use crate::sighash;

type Dk = DefiniteDescriptorKey;
type Texts = BTreeMap<usize, (String, KeySource)>;

const KINDS: [Kind; 11] = [
    Kind::Pk,
    Kind::Pkh,
    Kind::PkhUncompressed,
    Kind::BareMulti,
    Kind::Sh,
    Kind::Wpkh,
    Kind::ShWpkh,
    Kind::Wsh,
    Kind::ShWsh,
    Kind::TrKey,
    Kind::TrScript,
];

fn fp_of(ser: &[u8]) -> Fingerprint { Fingerprint::try_from(&hash160::Hash::hash(ser).to_byte_array()[..4]).unwrap() }
fn path_text(p: &[bitcoin::bip32::ChildNumber]) -> String { p.iter().map(|c| format!("/{}", c)).collect() }

/// One of the ways to write a key in a descriptor, and the origin a PSBT should then state for it.
fn key_text(c: &mut Case, r: &mut Rng, k: usize, kind: Kind) -> (String, KeySource) {
    let key = &keys().keys[k];
    let (fp, path) = (key.source.0, key.source.1.clone());
    let steps: Vec<_> = path.into_iter().copied().collect();
    let single = match kind {
        Kind::PkhUncompressed => crate::raw::hex(&key.pk.serialize_uncompressed()),
        k if k.tap() && r.bool() => key.x.to_string(),
        _ => key.pk.to_string(),
    };
    // From here on the steps are not hardened.
    let free = steps.iter().rposition(|s| s.is_hardened()).map_or(0, |i| i + 1);
    let pick = if kind == Kind::PkhUncompressed { r.range(8, 9) } else { r.below(10) };
    match pick {
        8 => {
            c.count("key:origin");
            (format!("[{}{}]{}", fp, path_text(&steps), single), (fp, path))
        }
        9 => {
            c.count("key:plain");
            use bitcoin::hashes::hex::FromHex;
            let b = Vec::<u8>::from_hex(&single).unwrap();
            (single, (fp_of(&b), DerivationPath::default()))
        }
        n => {
            let j = r.range(free, steps.len());
            let head: DerivationPath = steps[..j].to_vec().into();
            let xprv = keys().masters[key.master].derive_priv(secp(), &head).unwrap();
            let xpub = Xpub::from_priv(secp(), &xprv);
            let tail = path_text(&steps[j..]);
            if n == 0 {
                c.count("key:xpub");
                (format!("{}{}", xpub, tail), (xpub.fingerprint(), steps[j..].to_vec().into()))
            } else {
                c.count("key:origin-xpub");
                (format!("[{}{}]{}{}", fp, path_text(&steps[..j]), xpub, tail), (fp, path))
            }
        }
    }
}

fn texts(c: &mut Case, r: &mut Rng, i: &Inp) -> Texts { i.key_ids().into_iter().map(|k| (k, key_text(c, r, k, i.kind))).collect() }

type DepthLeaf = (usize, Arc<Miniscript<Dk, Tap>>);

/// None if the depths make no tree (a script that occurs twice has the control block of one place only).
fn tree(leaves: &mut std::vec::IntoIter<DepthLeaf>, cur: &mut Option<DepthLeaf>, depth: usize) -> Option<TapTree<Dk>> {
    let d = cur.as_ref()?.0;
    if d < depth {
        return None;
    }
    if d == depth {
        let (_, ms) = cur.take()?;
        *cur = leaves.next();
        return Some(TapTree::Leaf(ms));
    }
    let a = tree(leaves, cur, depth + 1)?;
    let b = tree(leaves, cur, depth + 1)?;
    Some(TapTree::combine(a, b))
}

/// The descriptor of the output that `i` spends, with the keys written as given.
fn descriptor(i: &Inp, t: &Texts, sorted: bool) -> Option<Descriptor<Dk>> {
    let kf = |k: usize| t[&k].0.clone();
    let key = |k: usize| Dk::from_str(&t[&k].0).map_err(|e| e.to_string());
    let first = || {
        let mut v = vec![];
        i.pol.keys(&mut v);
        v[0]
    };
    let s = if i.tr.is_some() { String::new() } else { i.pol.ms_with(false, &kf) };
    let multi = |p: &Pol| match p {
        Pol::Multi(m, v) => {
            // Any order: the descriptor sorts.
            let mut v = v.clone();
            v.reverse();
            (*m, v.iter().map(|k| key(*k).unwrap()).collect::<Vec<_>>())
        }
        _ => unreachable!(),
    };
    let legacy = || Miniscript::<Dk, Legacy>::from_str_insane(&s);
    let wit = || Miniscript::<Dk, Segwitv0>::from_str_insane(&s);
    let d = match i.kind {
        Kind::Pk => Descriptor::new_pk(key(first()).ok()?),
        Kind::Pkh | Kind::PkhUncompressed => Descriptor::new_pkh(key(first()).ok()?).ok()?,
        Kind::BareMulti => Descriptor::new_bare(Miniscript::<Dk, BareCtx>::from_str_insane(&s).ok()?).ok()?,
        Kind::Sh if sorted => {
            let (m, v) = multi(&i.pol);
            Descriptor::new_sh_sortedmulti(m, v).ok()?
        }
        Kind::Wsh if sorted => {
            let (m, v) = multi(&i.pol);
            Descriptor::new_wsh_sortedmulti(m, v).ok()?
        }
        Kind::ShWsh if sorted => {
            let (m, v) = multi(&i.pol);
            Descriptor::new_sh_wsh_sortedmulti(m, v).ok()?
        }
        Kind::Sh => Descriptor::new_sh(legacy().ok()?).ok()?,
        Kind::Wsh => Descriptor::new_wsh(wit().ok()?).ok()?,
        Kind::ShWsh => Descriptor::new_sh_wsh(wit().ok()?).ok()?,
        Kind::Wpkh => Descriptor::new_wpkh(key(first()).ok()?).ok()?,
        Kind::ShWpkh => Descriptor::new_sh_wpkh(key(first()).ok()?).ok()?,
        Kind::TrKey | Kind::TrScript => {
            let tr = i.tr.as_ref().unwrap();
            let mut ls = vec![];
            for l in &tr.leaves {
                let ms = Miniscript::<Dk, Tap>::from_str_insane(&l.pol.ms_with(true, &kf)).ok()?;
                ls.push((l.cb.merkle_branch.len(), Arc::new(ms)));
            }
            let mut it = ls.into_iter();
            let mut cur = it.next();
            let t = if cur.is_some() { Some(tree(&mut it, &mut cur, 0)?) } else { None };
            if cur.is_some() {
                return None;
            }
            // The same script twice.
            if tr.leaves.iter().map(|l| l.hash).collect::<BTreeSet<_>>().len() != tr.leaves.len() {
                return None;
            }
            Descriptor::new_tr(key(tr.internal).ok()?, t).ok()?
        }
    };
    Some(d)
}

/// An input whose descriptor is possible, at times a sorted multisig.
fn described(c: &mut Case, r: &mut Rng) -> (Inp, Texts, Descriptor<Dk>) {
    loop {
        let kind = *r.pick(&KINDS);
        let sorted = matches!(kind, Kind::Sh | Kind::Wsh | Kind::ShWsh) && r.chance(1, 4);
        let inp = if sorted {
            let n = r.range(1, 5);
            let m = r.range(1, n);
            let mut ks: BTreeSet<usize> = BTreeSet::new();
            while ks.len() < n {
                ks.insert(r.below(32));
            }
            let mut v: Vec<usize> = ks.into_iter().collect();
            v.sort_by_key(|k| keys().keys[*k].pk.serialize());
            scen::input_of(r, kind, false, Some(&Pol::Multi(m, v)))
        } else {
            scen::input(r, kind, true)
        };
        let t = texts(c, r, &inp);
        match descriptor(&inp, &t, sorted) {
            Some(d) => {
                c.count(&format!("kind:{:?}{}", kind, if sorted { ":sorted" } else { "" }));
                let d = if r.bool() {
                    match Descriptor::<Dk>::from_str(&d.to_string()) {
                        Ok(e) => {
                            c.count("through_text");
                            e
                        }
                        // The text is checked for sanity.
                        Err(_) => d,
                    }
                } else {
                    d
                };
                return (inp, t, d);
            }
            None => c.count("not_describable"),
        }
    }
}

fn sets(m: &BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>) -> BTreeMap<XOnlyPublicKey, (BTreeSet<TapLeafHash>, KeySource)> {
    m.iter().map(|(k, (v, s))| (*k, (v.iter().copied().collect(), s.clone()))).collect()
}

/// Keys of taproot scripts: which leaves, and the origin.
fn tap_origins(i: &Inp, t: &Texts) -> BTreeMap<XOnlyPublicKey, (BTreeSet<TapLeafHash>, KeySource)> {
    let tr = i.tr.as_ref().unwrap();
    let mut m = BTreeMap::new();
    m.insert(keys().keys[tr.internal].x, (BTreeSet::new(), t[&tr.internal].1.clone()));
    for l in &tr.leaves {
        let mut v = vec![];
        l.pol.keys(&mut v);
        for k in v {
            m.entry(keys().keys[k].x).or_insert((BTreeSet::new(), t[&k].1.clone())).0.insert(l.hash);
        }
    }
    m
}

fn expect_input(b: &Input, i: &Inp, t: &Texts) -> Input {
    let mut e = b.clone();
    if let Some(tr) = &i.tr {
        e.tap_internal_key = Some(keys().keys[tr.internal].x);
        e.tap_merkle_root = tr.root;
        for l in &tr.leaves {
            e.tap_scripts.insert(l.cb.clone(), (l.script.clone(), LeafVersion::TapScript));
        }
    } else {
        for k in i.key_ids() {
            e.bip32_derivation.insert(keys().keys[k].pk, t[&k].1.clone());
        }
        if i.redeem.is_some() {
            e.redeem_script = i.redeem.clone();
        }
        if i.wscript.is_some() {
            e.witness_script = i.wscript.clone();
        }
    }
    e
}
fn merged(b: &BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>, i: &Inp, t: &Texts) -> BTreeMap<XOnlyPublicKey, (BTreeSet<TapLeafHash>, KeySource)> {
    let mut m = sets(b);
    if i.tr.is_some() {
        for (k, (l, s)) in tap_origins(i, t) {
            m.entry(k).or_insert((BTreeSet::new(), s)).0.extend(l);
        }
    }
    m
}

/// Data that has nothing to do with the descriptor.
fn garnish_maps(
    r: &mut Rng,
    i: &Inp,
    t: &Texts,
    bip32: &mut BTreeMap<bitcoin::secp256k1::PublicKey, KeySource>,
    tap: &mut BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>,
) {
    for _ in 0..r.below(3) {
        let k = gen::pk(r);
        if keys().keys.iter().all(|x| x.pk != k) {
            bip32.insert(k, gen::key_source(r));
        }
        let x = gen::xonly(r);
        if keys().keys.iter().all(|k| k.x != x) {
            let n = r.below(4);
            let v: BTreeSet<TapLeafHash> = (0..n).map(|_| gen::leaf_hash(r)).collect();
            tap.insert(x, (v.into_iter().collect(), gen::key_source(r)));
        }
    }
    if i.tr.is_some() && r.chance(1, 3) {
        // A part of what the descriptor says, known before, with leaves of another tree.
        let internal = keys().keys[i.tr.as_ref().unwrap().internal].x;
        for (k, (mut l, s)) in tap_origins(i, t) {
            if k == internal || r.bool() {
                continue;
            }
            if r.bool() {
                l.insert(gen::leaf_hash(r));
            }
            let mut v: Vec<_> = l.into_iter().collect();
            r.shuffle(&mut v);
            tap.insert(k, (v, s));
        }
    }
}

fn stale_scripts(
    r: &mut Rng,
    i: &Inp,
    redeem: &mut Option<ScriptBuf>,
    witness: &mut Option<ScriptBuf>,
    bip32: &mut BTreeMap<bitcoin::secp256k1::PublicKey, KeySource>,
) {
    if i.redeem.is_some() {
        *redeem = Some(gen::script(r));
    }
    if i.wscript.is_some() {
        *witness = Some(gen::script(r));
    }
    for k in i.key_ids() {
        if r.bool() {
            bip32.insert(keys().keys[k].pk, gen::key_source(r));
        }
    }
}

fn garnish_input(r: &mut Rng, x: &mut Input, i: &Inp, t: &Texts) {
    garnish_maps(r, i, t, &mut x.bip32_derivation, &mut x.tap_key_origins);
    if r.chance(1, 3) {
        // Something else where the descriptor's data goes.
        match &i.tr {
            Some(tr) => {
                x.tap_internal_key = Some(gen::xonly(r));
                x.tap_merkle_root = Some(bitcoin::TapNodeHash::from_byte_array(r.arr()));
                for l in &tr.leaves {
                    if r.chance(1, 4) {
                        x.tap_scripts.insert(l.cb.clone(), (gen::script(r), LeafVersion::TapScript));
                    }
                }
            }
            None => stale_scripts(r, i, &mut x.redeem_script, &mut x.witness_script, &mut x.bip32_derivation),
        }
    }
    for _ in 0..r.below(2) {
        let (k, v) = gen::v0_unknown(r);
        x.unknown.insert(k, v);
        let (k, v) = gen::v0_proprietary(r);
        x.proprietary.insert(k, v);
        let p = gen::preimage(r);
        x.hash160_preimages.insert(hash160::Hash::hash(&p), p);
        x.sighash_type = Some(gen::sighash_type(r));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    OtherDescriptor,
    Hardened,
    Txid,
    UtxosDiffer,
    NoUtxo,
    Vout,
    Index,
    LegacyWitnessOnly,
}

fn swap_key(r: &mut Rng, i: &Inp, t: &Texts, to: impl Fn(&mut Rng) -> (String, KeySource)) -> Texts {
    let mut t = t.clone();
    let ks = i.key_ids();
    // A policy may have no keys; nothing changes then.
    if !ks.is_empty() {
        let k = *r.pick(&ks);
        t.insert(k, to(r));
    }
    t
}

pub fn descriptors(ctx: &Ctx) {
    ctx.rule("Outputs of every type with random miniscript policies, taproot trees and sorted multisigs; descriptors with keys as extended keys split anywhere behind the last hardened step, with and without origin, as plain keys; inputs and outputs that hold other data already; updates repeated, unchecked, and with one thing wrong. The updated maps against the scripts, trees and origins the scenario generator knows. Distinct: by descriptor.");
    for k in ["kind:Sh:sorted", "kind:Wsh:sorted", "kind:ShWsh:sorted", "kind:TrScript", "kind:TrKey", "kind:PkhUncompressed", "key:xpub", "key:origin-xpub", "key:origin", "key:plain", "through_text"] {
        ctx.require(k, 50);
    }
    for b in ["OtherDescriptor", "Hardened", "Txid", "UtxosDiffer", "NoUtxo", "Vout", "Index", "LegacyWitnessOnly"] {
        ctx.require(&format!("bad:{}", b), 50);
    }
    ctx.cases("inputs", 40_000, 800_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let (inp, t, d) = described(c, r);
        c.distinct(hash_str(&d.to_string()));
        // Some other inputs around it.
        let n = r.range(1, 3);
        let at = r.below(n);
        let mut s = scen::Scen { version: 2, fallback: None, ins: vec![], outs: vec![gen::txout(r)] };
        for j in 0..n {
            let k = *r.pick(&KINDS);
            let x = if j == at { inp.clone() } else { scen::input(r, k, false) };
            s.ins.push(x);
        }
        let mut p = s.v0();
        {
            let (nwu, wu) = (p.inputs[at].non_witness_utxo.take(), p.inputs[at].witness_utxo.take());
            p.inputs[at] = Input { non_witness_utxo: nwu, witness_utxo: wu, ..Default::default() };
            if r.chance(1, 3) {
                p.inputs[at].witness_utxo = Some(inp.txout().clone());
                p.inputs[at].non_witness_utxo = Some(inp.prev.clone());
            }
            garnish_input(r, &mut p.inputs[at], &inp, &t);
        }
        let what = || format!("{:?} input {} of {}: {}", inp.kind, at, n, d);
        let before = p.clone();
        let unsorted = |m: &BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>| m.values().any(|(v, _)| v.iter().collect::<BTreeSet<_>>().len() != v.len());
        // Unchecked.
        let mut u = p.inputs[at].clone();
        let Some(un) = c.guard_with("input update_with_descriptor_unchecked", what, || u.update_with_descriptor_unchecked(&d)) else { return };
        match un {
            Err(e) => c.fail("desc:unchecked-refused", format!("{}: {:?}", what(), e)),
            Ok(derived) => {
                c.check(derived.script_pubkey() == inp.spk, "desc:derived-spk", || format!("{}: derived {}", what(), derived));
            }
        }
        let Some(res) = c.guard_with("update_input_with_descriptor", what, || p.update_input_with_descriptor(at, &d)) else { return };
        if !c.check(res == Ok(()), "desc:input-refused", || format!("{}: {:?}", what(), res)) {
            return;
        }
        c.count("updated_inputs");
        let origins = merged(&before.inputs[at].tap_key_origins, &inp, &t);
        c.check(sets(&p.inputs[at].tap_key_origins) == origins && !unsorted(&p.inputs[at].tap_key_origins), &format!("desc:origins({:?})", inp.kind), || {
            format!("{}\nhas {:?}\nwant {:?}", what(), p.inputs[at].tap_key_origins, origins)
        });
        let mut want = before.clone();
        want.inputs[at] = expect_input(&before.inputs[at], &inp, &t);
        want.inputs[at].tap_key_origins = p.inputs[at].tap_key_origins.clone();
        c.check(p == want, &format!("desc:input-fields({:?})", inp.kind), || format!("{}\nhas {:?}\nwant {:?}", what(), p, want));
        c.check(u == p.inputs[at], "desc:unchecked-differs", || format!("{}\nchecked {:?}\nunchecked {:?}", what(), p.inputs[at], u));
        let mut q = p.clone();
        let again = c.guard_with("update_input_with_descriptor again", what, || q.update_input_with_descriptor(at, &d));
        c.check(again == Some(Ok(())) && q == p, "desc:not-idempotent", || format!("{}: {:?}\nonce {:?}\ntwice {:?}", what(), again, p, q));

        // One thing wrong.
        let bad = *r.pick(&[Bad::OtherDescriptor, Bad::OtherDescriptor, Bad::Hardened, Bad::Txid, Bad::UtxosDiffer, Bad::NoUtxo, Bad::Vout, Bad::Index, Bad::LegacyWitnessOnly]);
        let mut p = before.clone();
        let mut d = d.clone();
        let mut idx = at;
        let x = &mut p.inputs[at];
        let want: Result<(), UtxoUpdateError> = match bad {
            Bad::OtherDescriptor => {
                d = if r.bool() {
                    let t2 = swap_key(r, &inp, &t, |r| {
                        let k = gen::pk(r);
                        (if inp.kind == Kind::PkhUncompressed { crate::raw::hex(&k.serialize_uncompressed()) } else { k.to_string() }, Default::default())
                    });
                    match descriptor(&inp, &t2, false) {
                        Some(d2) if d2.to_string() != d.to_string() => d2,
                        _ => return,
                    }
                } else {
                    described(c, r).2
                };
                let Ok(dd) = d.derived_descriptor(secp()) else { return };
                if dd.script_pubkey() == inp.spk {
                    return;
                }
                // Pre-segwit descriptors need the whole transaction.
                x.non_witness_utxo = Some(inp.prev.clone());
                Err(UtxoUpdateError::MismatchedScriptPubkey)
            }
            Bad::Hardened => {
                let x = Xpub::from_priv(secp(), &keys().masters[r.below(4)]);
                let t2 = swap_key(r, &inp, &t, |r| (format!("{}/{}/{}'", x, r.below(9), r.below(9)), Default::default()));
                let Some(d2) = descriptor(&inp, &t2, false).filter(|_| !inp.key_ids().is_empty()) else { return };
                d = d2;
                Err(UtxoUpdateError::DerivationError(ConversionError::HardenedChild))
            }
            Bad::Txid => {
                let mut t = inp.prev.clone();
                match r.below(3) {
                    0 => t.output.push(gen::txout(r)),
                    1 => t.lock_time = bitcoin::absolute::LockTime::from_consensus(t.lock_time.to_consensus_u32() ^ 1),
                    _ => t.version.0 ^= 1,
                }
                x.non_witness_utxo = Some(t);
                Err(UtxoUpdateError::UtxoCheck)
            }
            Bad::UtxosDiffer => {
                x.non_witness_utxo = Some(inp.prev.clone());
                let mut o = inp.txout().clone();
                match r.below(3) {
                    0 => o.value = Amount::from_sat(o.value.to_sat() ^ 1 << r.below(40)),
                    1 => o.script_pubkey.push_opcode(bitcoin::opcodes::all::OP_DROP),
                    _ => o = gen::txout(r),
                }
                x.witness_utxo = Some(o);
                Err(UtxoUpdateError::UtxoCheck)
            }
            Bad::NoUtxo => {
                x.non_witness_utxo = None;
                x.witness_utxo = None;
                Err(UtxoUpdateError::UtxoCheck)
            }
            Bad::Vout => {
                x.non_witness_utxo = Some(inp.prev.clone());
                if r.bool() {
                    x.witness_utxo = None;
                }
                let l = inp.prev.output.len() as u32;
                p.unsigned_tx.input[at].previous_output.vout = *r.pick(&[l, l + 1, u32::MAX, u32::MAX - 1]);
                Err(UtxoUpdateError::UtxoCheck)
            }
            Bad::Index => {
                idx = gen::beyond(r, n);
                Err(UtxoUpdateError::IndexOutOfBounds(idx, n))
            }
            Bad::LegacyWitnessOnly => {
                x.non_witness_utxo = None;
                x.witness_utxo = Some(inp.txout().clone());
                if inp.kind.segwit() {
                    Ok(())
                } else {
                    Err(UtxoUpdateError::UtxoCheck)
                }
            }
        };
        c.count(&format!("bad:{:?}", bad));
        let keep = p.clone();
        let Some(got) = c.guard_with("update_input_with_descriptor", || format!("{:?} {}", bad, d), || p.update_input_with_descriptor(idx, &d)) else { return };
        c.check(got == want, &format!("desc:input-error({:?})", bad), || format!("{:?} {:?} {}: {:?} expected {:?}", bad, inp.kind, d, got, want));
        if got.is_err() {
            c.check(p == keep, "desc:changed-on-error", || format!("{:?} {}\nbefore {:?}\nafter {:?}", bad, d, keep, p));
        }
    });
    ctx.require("updated_outputs", 1000);
    ctx.cases("outputs", 25_000, 500_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let (inp, t, d) = described(c, r);
        c.distinct(hash_str(&d.to_string()));
        let mut p = gen::v0_psbt(r);
        if p.outputs.is_empty() {
            p.outputs.push(Output::default());
            p.unsigned_tx.output.push(gen::txout(r));
        }
        let at = r.below(p.outputs.len());
        let n = p.outputs.len();
        p.unsigned_tx.output[at].script_pubkey = inp.spk.clone();
        {
            let o = &mut p.outputs[at];
            o.redeem_script = None;
            o.witness_script = None;
            o.tap_internal_key = None;
            o.tap_tree = None;
            o.bip32_derivation.clear();
            o.tap_key_origins.clear();
            garnish_maps(r, &inp, &t, &mut o.bip32_derivation, &mut o.tap_key_origins);
            if r.chance(1, 3) {
                match &inp.tr {
                    Some(tr) => {
                        o.tap_internal_key = Some(gen::xonly(r));
                        if tr.root.is_some() {
                            o.tap_tree = Some(gen::tap_tree(r));
                        }
                    }
                    None => stale_scripts(r, &inp, &mut o.redeem_script, &mut o.witness_script, &mut o.bip32_derivation),
                }
            }
        }
        let before = p.clone();
        let what = || format!("{:?} output {} of {}: {}", inp.kind, at, n, d);
        let mut u = p.outputs[at].clone();
        let Some(un) = c.guard_with("output update_with_descriptor_unchecked", what, || u.update_with_descriptor_unchecked(&d)) else { return };
        c.check(un.as_ref().map(|d| d.script_pubkey()) == Ok(inp.spk.clone()), "desc:derived-spk", || format!("{}: derived {:?}", what(), un));
        let Some(res) = c.guard_with("update_output_with_descriptor", what, || p.update_output_with_descriptor(at, &d)) else { return };
        if !c.check(res == Ok(()), "desc:output-refused", || format!("{}: {:?}", what(), res)) {
            return;
        }
        c.count("updated_outputs");
        let o = &p.outputs[at];
        let origins = merged(&before.outputs[at].tap_key_origins, &inp, &t);
        c.check(sets(&o.tap_key_origins) == origins, &format!("desc:origins({:?})", inp.kind), || {
            format!("{}\nhas {:?}\nwant {:?}", what(), o.tap_key_origins, origins)
        });
        let mut want = before.clone();
        let w = &mut want.outputs[at];
        if let Some(tr) = &inp.tr {
            w.tap_internal_key = Some(keys().keys[tr.internal].x);
            // rust-bitcoin orders siblings its own way; hashing does too.
            let mut got: Option<Vec<_>> =
                o.tap_tree.as_ref().map(|t| t.script_leaves().map(|l| (l.merkle_branch().len(), l.script().to_owned(), l.version())).collect());
            let mut exp: Option<Vec<_>> =
                tr.root.map(|_| tr.leaves.iter().map(|l| (l.cb.merkle_branch.len(), l.script.clone(), LeafVersion::TapScript)).collect());
            for x in [&mut got, &mut exp].into_iter().flatten() {
                x.sort();
            }
            // Same leaves at the same depths; same root.
            c.check(got == exp, "desc:tap-tree", || format!("{}\nhas {:?}\nwant {:?}", what(), got, exp));
            c.check(o.tap_tree.as_ref().map(|t| t.root_hash()) == tr.root, "desc:tap-root", || what());
            w.tap_tree = o.tap_tree.clone();
            w.tap_key_origins = o.tap_key_origins.clone();
            if tr.root.is_some() {
                c.count("trees");
            }
        } else {
            for k in inp.key_ids() {
                w.bip32_derivation.insert(keys().keys[k].pk, t[&k].1.clone());
            }
            w.redeem_script = inp.redeem.clone();
            w.witness_script = inp.wscript.clone();
        }
        c.check(p == want, &format!("desc:output-fields({:?})", inp.kind), || format!("{}\nhas {:?}\nwant {:?}", what(), p, want));
        c.check(u == p.outputs[at], "desc:unchecked-differs", || format!("{}\nchecked {:?}\nunchecked {:?}", what(), p.outputs[at], u));
        let mut q = p.clone();
        let again = c.guard_with("update_output_with_descriptor again", what, || q.update_output_with_descriptor(at, &d));
        c.check(again == Some(Ok(())) && q == p, "desc:not-idempotent", || format!("{}: {:?}\nonce {:?}\ntwice {:?}", what(), again, p, q));

        let mut p = before.clone();
        let idx = gen::beyond(r, n);
        let got = c.guard_with("update_output_with_descriptor", what, || p.update_output_with_descriptor(idx, &d));
        c.check(got == Some(Err(OutputUpdateError::IndexOutOfBounds(idx, n))) && p == before, "desc:output-index", || format!("{:?} for {} of {}", got, idx, n));
        let d2 = described(c, r).2;
        if d2.derived_descriptor(secp()).unwrap().script_pubkey() != inp.spk {
            c.count("other_output_descriptor");
            let got = c.guard_with("update_output_with_descriptor", what, || p.update_output_with_descriptor(at, &d2));
            c.check(got == Some(Err(OutputUpdateError::MismatchedScriptPubkey)), "desc:output-mismatch", || format!("{:?}: {} for {}", got, d2, inp.spk));
            c.check(p == before, "desc:changed-on-error", || format!("{}\nbefore {:?}\nafter {:?}", d2, before, p));
        }
    });
}

// ------------------------------------------------------------------------------------------------ C36

pub fn from_tx(ctx: &Ctx) {
    ctx.rule("Transactions with any pattern of script signatures and witnesses (none, empty, one byte, empty stack items) on their inputs; the decision, the error and the maps of the result, and what bytes it gives. Distinct: by transaction.");
    ctx.require("accepted", 1000);
    ctx.require("script_sigs", 500);
    ctx.require("witnesses", 500);
    ctx.require("both", 100);
    ctx.cases("transactions", 300_000, 6_000_000, |c| {
        use psbt_v2::v0::bitcoin::Error;
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut t = gen::unsigned_tx(r);
        for _ in 0..r.below(3) {
            t.input.push(bitcoin::TxIn { previous_output: gen::outpoint(r), sequence: gen::sequence(r), ..Default::default() });
        }
        if r.chance(1, 200) {
            // More than one byte can count.
            for _ in 0..r.range(240, 300) {
                t.input.push(bitcoin::TxIn { previous_output: gen::outpoint(r), sequence: gen::sequence(r), ..Default::default() });
            }
        }
        // Any outpoint, that of a coinbase too.
        for i in t.input.iter_mut() {
            match r.below(10) {
                0 => i.previous_output = bitcoin::OutPoint::null(),
                1 => i.previous_output.vout = gen::edge_u32(r),
                _ => {}
            }
        }
        let n = t.input.len();
        let what = *r.pick(&[0usize, 0, 1, 2, 3]);
        if n > 0 {
            for (bit, hits) in [(1usize, r.range(1, 2)), (2, r.range(1, 2))] {
                if what & bit == 0 {
                    continue;
                }
                for _ in 0..hits {
                    let i = r.below(n);
                    if bit == 1 {
                        let len = *r.pick(&[1usize, 1, 2, 75]);
                        t.input[i].script_sig = ScriptBuf::from_bytes(r.bytes(len));
                    } else {
                        t.input[i].witness = match r.below(3) {
                            // An empty item is an item.
                            0 => bitcoin::Witness::from_slice(&[Vec::<u8>::new()]),
                            1 => bitcoin::Witness::from_slice(&[vec![1u8]]),
                            _ => loop {
                                let w = gen::witness(r);
                                if !w.is_empty() {
                                    break w;
                                }
                            },
                        };
                    }
                }
            }
        }
        let sigs = t.input.iter().any(|i| !i.script_sig.is_empty());
        let wits = t.input.iter().any(|i| !i.witness.is_empty());
        c.distinct(hash_bytes(format!("{:?}", t).as_bytes()));
        c.count(match (sigs, wits) {
            (false, false) => "accepted",
            (true, false) => "script_sigs",
            (false, true) => "witnesses",
            _ => "both",
        });
        let Some(got) = c.guard_with("from_unsigned_tx", || format!("{:?}", t), || Psbt::from_unsigned_tx(t.clone())) else { return };
        match got {
            Ok(p) => {
                c.check(!sigs && !wits, "from-tx:accepted", || format!("{:?}", t));
                let want = Psbt {
                    unsigned_tx: t.clone(),
                    version: 0,
                    xpub: Default::default(),
                    proprietary: Default::default(),
                    unknown: Default::default(),
                    inputs: vec![Input::default(); t.input.len()],
                    outputs: vec![Output::default(); t.output.len()],
                };
                c.check(p == want, "from-tx:maps", || format!("{:?} expected {:?}", p, want));
                if t.input.is_empty() {
                    return;
                }
                // By BIP-174: the transaction without witness, an empty map for every input and output.
                let mut tx = t.version.0.to_le_bytes().to_vec();
                tx.extend(crate::raw::compact(n as u64));
                for i in &t.input {
                    tx.extend(i.previous_output.txid.to_byte_array());
                    tx.extend(i.previous_output.vout.to_le_bytes());
                    tx.push(0);
                    tx.extend(i.sequence.0.to_le_bytes());
                }
                tx.extend(crate::raw::compact(t.output.len() as u64));
                for o in &t.output {
                    tx.extend(o.value.to_sat().to_le_bytes());
                    tx.extend(crate::raw::compact(o.script_pubkey.len() as u64));
                    tx.extend(o.script_pubkey.as_bytes());
                }
                tx.extend(t.lock_time.to_consensus_u32().to_le_bytes());
                let mut b = b"psbt\xff\x01\x00".to_vec();
                b.extend(crate::raw::compact(tx.len() as u64));
                b.extend(tx);
                b.push(0);
                b.extend(vec![0; n + t.output.len()]);
                let s = p.serialize();
                c.check(s == b, "from-tx:bytes", || format!("{} expected {}", crate::raw::hex(&s), crate::raw::hex(&b)));
            }
            Err(Error::UnsignedTxHasScriptSigs) => {
                c.check(sigs, "from-tx:refused", || format!("script signatures: {:?}", t));
            }
            Err(Error::UnsignedTxHasScriptWitnesses) => {
                c.check(wits, "from-tx:refused", || format!("witnesses: {:?}", t));
            }
            Err(e) => c.fail("from-tx:refused", format!("{:?} {:?}", e, t)),
        }
    });
}

// ------------------------------------------------------------------------------------------------ C47

fn kind_of(e: &SignerChecksError) -> &'static str {
    use SignerChecksError::*;
    match e {
        NonWitnessSig => "NonWitnessSig",
        NonWitnessUtxoTxidMismatch => "NonWitnessUtxoTxidMismatch",
        RedeemScriptMismatch => "RedeemScriptMismatch",
        MissingTxOut => "MissingTxOut",
        WitnessScriptMismatchWsh => "WitnessScriptMismatchWsh",
        WitnessScriptMismatchShWsh => "WitnessScriptMismatchShWsh",
        _ => "other",
    }
}

/// What BIP-174 tells a signer to object to; `None` in the second place if it leaves the answer open.
fn objections(tx: &Transaction, i: usize, x: &Input) -> (BTreeSet<&'static str>, bool) {
    let mut v = BTreeSet::new();
    let mut open = false;
    let prev = tx.input[i].previous_output;
    if let Some(t) = &x.non_witness_utxo {
        if t.compute_txid() != prev.txid {
            v.insert("NonWitnessUtxoTxidMismatch");
        }
    }
    let utxo: Option<&TxOut> =
        x.witness_utxo.as_ref().or_else(|| x.non_witness_utxo.as_ref().and_then(|t| t.output.get(prev.vout as usize)));
    let program = |b: &[u8]| crate::interp::witness_program(b).map(|(v, p)| (v, p.len()));
    let p2sh = |b: &[u8]| b.len() == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87;
    if x.witness_utxo.is_some() {
        let spk = utxo.unwrap().script_pubkey.as_bytes();
        if p2sh(spk) {
            match &x.redeem_script {
                None => open = true,
                Some(s) => match program(s.as_bytes()) {
                    Some((0, 20)) | Some((0, 32)) => {}
                    // Nested versions that do not exist.
                    Some(_) => open = true,
                    None => {
                        v.insert("NonWitnessSig");
                    }
                },
            }
        } else if program(spk).is_none() {
            v.insert("NonWitnessSig");
        }
    }
    match utxo {
        None if x.redeem_script.is_some() || x.witness_script.is_some() => {
            v.insert("MissingTxOut");
        }
        None => {}
        Some(o) => {
            let spk = o.script_pubkey.as_bytes();
            if let Some(s) = &x.redeem_script {
                let mut want = vec![0xa9, 20];
                want.extend(hash160::Hash::hash(s.as_bytes()).to_byte_array());
                want.push(0x87);
                if spk != want {
                    v.insert("RedeemScriptMismatch");
                }
            }
            if let Some(s) = &x.witness_script {
                let mut want = vec![0, 32];
                want.extend(sighash::sha(s.as_bytes()));
                if program(spk) == Some((0, 32)) {
                    if spk != want {
                        v.insert("WitnessScriptMismatchWsh");
                    }
                } else if p2sh(spk) && x.redeem_script.is_some() {
                    if x.redeem_script.as_ref().unwrap().as_bytes() != want {
                        v.insert("WitnessScriptMismatchShWsh");
                    }
                } else {
                    open = true;
                }
            }
        }
    }
    (v, open)
}

pub fn signer_checks(ctx: &Ctx) {
    ctx.rule("PSBTs over all output types, with UTXOs, transactions, redeem and witness scripts kept, dropped, exchanged or changed by a byte, in any combination and on any input; the verdict against the list in BIP-174. Distinct: by PSBT.");
    ctx.require("passes", 2000);
    ctx.require("passes_with_redeem", 300);
    ctx.require("passes_with_wscript", 300);
    for k in ["NonWitnessSig", "NonWitnessUtxoTxidMismatch", "RedeemScriptMismatch", "MissingTxOut", "WitnessScriptMismatchWsh", "WitnessScriptMismatchShWsh"] {
        ctx.require(&format!("only:{}", k), 100);
    }
    ctx.cases("psbts", 80_000, 1_600_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let n = r.range(1, 4);
        let mut s = scen::Scen { version: 2, fallback: None, ins: vec![], outs: vec![gen::txout(r)] };
        for _ in 0..n {
            let k = *r.pick(&KINDS);
            s.ins.push(scen::input(r, k, false));
        }
        let mut p = s.v0();
        for _ in 0..*r.pick(&[0usize, 0, 1, 1, 1, 2, 3]) {
            let i = r.below(n);
            let other = r.below(n);
            let inp = &s.ins[i];
            let o = s.ins[other].clone();
            let x = &mut p.inputs[i];
            let flip = |r: &mut Rng, s: &mut ScriptBuf| {
                let mut b = s.to_bytes();
                if b.is_empty() {
                    b.push(0x51);
                } else {
                    let j = r.below(b.len());
                    b[j] ^= 1 << r.below(8);
                }
                *s = ScriptBuf::from_bytes(b);
            };
            match r.below(17) {
                0 => {
                    x.witness_utxo = Some(inp.txout().clone());
                    if r.bool() {
                        x.non_witness_utxo = None;
                    }
                }
                1 => x.non_witness_utxo = Some(inp.prev.clone()),
                2 => {
                    let mut t = inp.prev.clone();
                    match r.below(4) {
                        0 => t.output[inp.vout as usize].value = Amount::from_sat(7),
                        1 => t.version.0 ^= 1,
                        2 => t.lock_time = bitcoin::absolute::LockTime::from_consensus(t.lock_time.to_consensus_u32() ^ 1),
                        _ => t = o.prev.clone(),
                    }
                    x.non_witness_utxo = Some(t);
                }
                3 => {
                    x.non_witness_utxo = None;
                    x.witness_utxo = None;
                }
                4 => {
                    x.witness_utxo = None;
                    x.non_witness_utxo = Some(inp.prev.clone());
                    p.unsigned_tx.input[i].previous_output.vout = inp.prev.output.len() as u32 + r.below(2) as u32;
                }
                5 => x.redeem_script = None,
                6 => x.witness_script = None,
                7 if x.redeem_script.is_some() => flip(r, x.redeem_script.as_mut().unwrap()),
                8 if x.witness_script.is_some() => flip(r, x.witness_script.as_mut().unwrap()),
                9 => x.redeem_script = o.redeem.clone().or(Some(gen::script(r))),
                10 => x.witness_script = o.wscript.clone().or(Some(gen::script(r))),
                11 => x.redeem_script = x.witness_script.clone(),
                12 => x.witness_script = x.redeem_script.clone(),
                13 => {
                    // The script does not belong to the redeem script, which belongs to the output.
                    let w = gen::script_nonempty(r);
                    x.witness_script = Some(w);
                }
                14 if x.witness_utxo.is_some() => {
                    x.witness_utxo.as_mut().unwrap().script_pubkey = o.spk.clone();
                }
                16 => {
                    // The output of a script that hashes to nearly the same.
                    let mut u = o.txout().clone();
                    if r.bool() {
                        u = inp.txout().clone();
                    }
                    let mut b = u.script_pubkey.to_bytes();
                    if b.len() > 22 {
                        let k = r.range(2, b.len() - 2);
                        b[k] ^= 1 << r.below(8);
                    }
                    u.script_pubkey = b.into();
                    x.witness_utxo = Some(u);
                    x.non_witness_utxo = None;
                }
                15 if x.redeem_script.is_some() => {
                    // A legacy script in its place, with an output that is for it.
                    let w = gen::script_nonempty(r);
                    x.witness_utxo = Some(TxOut { value: Amount::from_sat(5), script_pubkey: w.to_p2sh() });
                    x.redeem_script = Some(w);
                    if r.bool() {
                        x.witness_script = None;
                    }
                }
                _ => {}
            }
        }
        if r.chance(1, 3) {
            let i = r.below(n);
            p.inputs[i].sighash_type = Some(gen::sighash_type(r));
        }
        c.distinct(hash_bytes(&p.serialize()));
        let mut all = BTreeSet::new();
        let mut open = false;
        for i in 0..n {
            let (v, o) = objections(&p.unsigned_tx, i, &p.inputs[i]);
            all.extend(v);
            open |= o;
        }
        let before = p.clone();
        let Some(got) = c.guard_with("signer_checks", || format!("{:?}", p), || p.signer_checks()) else { return };
        c.check(p == before, "checks:changed", || format!("{:?}\n{:?}", p, before));
        let what = || format!("{:?} expected one of {:?}: {:?}", got, all, p);
        if all.is_empty() {
            if open {
                c.count("left_open");
                return;
            }
            c.count("passes");
            if p.inputs.iter().any(|i| i.redeem_script.is_some()) {
                c.count("passes_with_redeem");
            }
            if p.inputs.iter().any(|i| i.witness_script.is_some()) {
                c.count("passes_with_wscript");
            }
            c.check(got.is_ok(), "checks:refused", what);
        } else {
            if all.len() == 1 && !open {
                c.count(&format!("only:{}", all.iter().next().unwrap()));
            }
            match &got {
                Ok(()) => c.fail(format!("checks:accepted({:?})", all), what()),
                Err(e) => {
                    c.check(open || all.contains(kind_of(e)), &format!("checks:other-error({})", kind_of(e)), what);
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------ C48

pub fn sighash_msg(ctx: &Ctx) {
    ctx.rule("sighash_msg for every input and taproot leaf of generated scenarios over all output and sighash types, in any order with a shared cache, complete or with data missing, compared with an independent implementation of the legacy, BIP-143 and BIP-341 algorithms. Distinct: by transaction, input, leaf and type.");
    for k in ["tap_key", "tap_leaf", "segwit", "legacy", "bad_type", "no_utxo", "no_redeem", "no_wscript", "index", "single_without_output"] {
        ctx.require(k, 100);
    }
    ctx.cases("messages", 60_000, 1_200_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut kinds = KINDS.to_vec();
        kinds.extend([Kind::TrKey, Kind::TrScript, Kind::TrScript]);
        let mut s = scen::scen(r, &kinds, true);
        if r.chance(1, 3) {
            s.outs.truncate(1);
        }
        let n = s.ins.len();
        for i in s.ins.iter_mut() {
            i.sighash = match r.below(4) {
                0 => None,
                1 => Some(gen::sighash_type(r).to_u32()),
                _ => Some(*r.pick(&[0u32, 1, 2, 3, 0x81, 0x82, 0x83])),
            };
        }
        let tx = s.tx().unwrap();
        let mut p = s.v0();
        // Scripts of some other output, on inputs whose output has none.
        for (x, i) in p.inputs.iter_mut().zip(&s.ins) {
            if i.redeem.is_none() && r.chance(1, 4) {
                let w = gen::script(r);
                x.redeem_script = Some(match r.below(3) {
                    0 => ScriptBuf::new_p2wpkh(&bitcoin::WPubkeyHash::hash(w.as_bytes())),
                    1 => w.to_p2wsh(),
                    _ => w.clone(),
                });
                if i.wscript.is_none() && r.bool() {
                    x.witness_script = Some(w);
                }
                c.count("stray_scripts");
            }
        }
        // None, or one thing missing.
        let mut no_utxo = false;
        let mut no_script = None;
        if r.chance(1, 4) {
            let i = r.below(n);
            let x = &mut p.inputs[i];
            match r.below(3) {
                0 => {
                    x.non_witness_utxo = None;
                    x.witness_utxo = None;
                    no_utxo = true;
                }
                1 => {
                    x.witness_utxo = None;
                    let mut t = s.ins[i].prev.clone();
                    t.output.truncate(s.ins[i].vout as usize);
                    x.non_witness_utxo = Some(t);
                    no_utxo = true;
                }
                _ => {
                    no_script = match s.ins[i].kind {
                        Kind::Sh | Kind::ShWpkh => {
                            x.redeem_script = None;
                            Some((i, SighashError::MissingRedeemScript))
                        }
                        Kind::ShWsh if r.bool() => {
                            x.redeem_script = None;
                            Some((i, SighashError::MissingRedeemScript))
                        }
                        Kind::Wsh | Kind::ShWsh => {
                            x.witness_script = None;
                            Some((i, SighashError::MissingWitnessScript))
                        }
                        _ => None,
                    }
                }
            }
        }
        let prevouts: Vec<TxOut> = s.prevouts();
        let mut jobs: Vec<(usize, Option<usize>)> = vec![];
        for (i, x) in s.ins.iter().enumerate() {
            jobs.push((i, None));
            if let Some(t) = &x.tr {
                jobs.extend((0..t.leaves.len()).map(|l| (i, Some(l))));
            }
        }
        for _ in 0..2 {
            let j = *r.pick(&jobs);
            jobs.push(j);
        }
        jobs.push((gen::beyond(r, n), None));
        r.shuffle(&mut jobs);
        let mut cache = SighashCache::new(&tx);
        let keep = p.clone();
        for (i, leaf) in jobs {
            let lh = leaf.map(|l| s.ins[i].tr.as_ref().unwrap().leaves[l].hash);
            let what = || format!("input {} of {} leaf {:?} {:?}", i, n, leaf, p);
            let Some(got) = c.guard_with("sighash_msg", what, || p.sighash_msg(i, &mut cache, lh)) else { continue };
            if i >= n {
                c.count("index");
                c.check(got == Err(SighashError::IndexOutOfBounds(i, n)), "msg:index", || format!("{:?}: {}", got, what()));
                continue;
            }
            let x = &s.ins[i];
            c.distinct(hash_bytes(&bitcoin::consensus::serialize(&tx)) ^ (i as u64) << 8 ^ x.sighash.unwrap_or(999) as u64 ^ (leaf.map_or(99, |l| l) as u64) << 20);
            if no_utxo {
                c.count("no_utxo");
                c.check(matches!(got, Err(SighashError::MissingSpendUtxos | SighashError::MissingInputUtxo)), "msg:no-utxo", || format!("{:?}: {}", got, what()));
                continue;
            }
            let ty = x.sighash.unwrap_or(if x.kind.tap() { 0 } else { 1 });
            let std = matches!(ty, 1 | 2 | 3 | 0x81 | 0x82 | 0x83) || ty == 0 && x.kind.tap();
            let missing = no_script.as_ref().filter(|m| m.0 == i);
            if !std {
                c.count("bad_type");
                let ok = match (&got, missing) {
                    (Err(SighashError::InvalidSighashType), _) => true,
                    (Err(e), Some((_, m))) => e == m,
                    _ => false,
                };
                c.check(ok, "msg:bad-type", || format!("{:?} for {:?} type {:#x}: {}", got, x.kind, ty, what()));
                continue;
            }
            if let Some((_, e)) = missing {
                c.count(if *e == SighashError::MissingRedeemScript { "no_redeem" } else { "no_wscript" });
                c.check(got.as_ref() == Err(e), "msg:missing-script", || format!("{:?} expected {:?}: {}", got, e, what()));
                continue;
            }
            let want = if x.kind.tap() {
                sighash::taproot(&tx, i, &prevouts, ty as u8, lh.map(|h| h.to_byte_array()))
            } else {
                Some(scen::ecdsa_hash(&tx, i, x, ty))
            };
            let Some(want) = want else {
                c.count("single_without_output");
                c.check(matches!(got, Err(SighashError::SighashTaproot(_))), "msg:single", || format!("{:?}: {}", got, what()));
                continue;
            };
            let (name, digest) = match &got {
                Err(e) => {
                    c.fail(format!("msg:refused({:?})", x.kind), format!("{:?} type {:#x}: {}", e, ty, what()));
                    continue;
                }
                Ok(PsbtSighashMsg::TapSighash(h)) => (if leaf.is_some() { "tap_leaf" } else { "tap_key" }, h.to_byte_array()),
                Ok(PsbtSighashMsg::SegwitV0Sighash(h)) => ("segwit", h.to_byte_array()),
                Ok(PsbtSighashMsg::LegacySighash(h)) => ("legacy", h.to_byte_array()),
            };
            let kind = match (x.kind.tap(), x.kind.segwit()) {
                (true, _) if leaf.is_some() => "tap_leaf",
                (true, _) => "tap_key",
                (_, true) => "segwit",
                _ => "legacy",
            };
            c.count(name);
            c.count(&format!("{:?}:{:#x}", x.kind, ty));
            c.check(kind == name, "msg:kind", || format!("{:?} expected {}: {}", got, kind, what()));
            c.check(digest == want, &format!("msg:wrong({:?})", x.kind), || format!("{} expected {} type {:#x}: {}", crate::raw::hex(&digest), crate::raw::hex(&want), ty, what()));
            let m = got.unwrap().to_secp_msg();
            c.check(m.as_ref()[..] == want, "msg:secp", || format!("{} expected {}", m, crate::raw::hex(&want)));
        }
        c.check(p == keep, "msg:changed", || format!("{:?}", p));
    });
}
