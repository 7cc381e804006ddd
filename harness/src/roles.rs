//! Monitors for the BIP-370 roles that build a version 2 PSBT, its lock time and its unique id, and for whole
//! multi-party histories (C13..C16, C37, C42).
use std::collections::BTreeSet;

use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::hashes::Hash;
use bitcoin::{transaction, Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness};
use psbt_v2::{v0, v2};
use v2::{Constructor, Creator, Extractor, Finalizer, InputsOnlyModifiable, Modifiable, OutputsOnlyModifiable, Signer, Updater};

use crate::ctx::{Case, Ctx};
use crate::fin::{self, Avail};
use crate::gen::{self, secp};
use crate::interp;
use crate::model;
use crate::pairs;
use crate::raw::Raw;
use crate::rng::{hash_bytes, Rng};
use crate::scen::{self, Kind, Scen};
use crate::sign::{self, Held, Holder};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn enc_tx(t: &Transaction) -> Vec<u8> {
    // Without rust-bitcoin's segwit marker for transactions without inputs.
    let mut b = t.version.0.to_le_bytes().to_vec();
    b.extend(crate::raw::compact(t.input.len() as u64));
    for i in &t.input {
        b.extend(i.previous_output.txid.to_byte_array());
        b.extend(i.previous_output.vout.to_le_bytes());
        b.extend(crate::raw::compact(i.script_sig.len() as u64));
        b.extend(i.script_sig.as_bytes());
        b.extend(i.sequence.0.to_le_bytes());
    }
    b.extend(crate::raw::compact(t.output.len() as u64));
    for o in &t.output {
        b.extend(o.value.to_sat().to_le_bytes());
        b.extend(crate::raw::compact(o.script_pubkey.len() as u64));
        b.extend(o.script_pubkey.as_bytes());
    }
    b.extend(t.lock_time.to_consensus_u32().to_le_bytes());
    b
}

/// Outputs that still wait for their silent payment script have no part in a transaction yet.
fn give_scripts(r: &mut Rng, p: &mut v2::Psbt) {
    for o in p.outputs.iter_mut() {
        if o.script_pubkey.is_empty() {
            o.script_pubkey = gen::script_nonempty(r);
        }
    }
}

// ------------------------------------------------------------------------------------------------ C13

fn edge_height(r: &mut Rng) -> u32 { *r.pick(&[0u32, 1, 2, 255, 256, 65_535, 65_536, 700_000, 499_999_998, 499_999_999]) }
fn edge_time(r: &mut Rng) -> u32 { *r.pick(&[500_000_000u32, 500_000_001, 500_000_255, 1_600_000_000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]) }

pub fn lock_time(ctx: &Ctx) {
    ctx.rule("Every pattern of required lock times (none, time, height, both) over up to 4 inputs with every kind of fallback, with edge values, then random PSBTs with up to 12 inputs; the lock time, the conflict decision of every role that makes one, the unsigned transaction of the signer and the extracted transaction against a reference written from BIP-370. Distinct: by requirements and fallback.");
    ctx.require("conflict", 1000);
    ctx.require("by_height", 1000);
    ctx.require("by_time", 500);
    ctx.require("fallback", 20);
    ctx.require("unsigned_tx", 1000);
    ctx.require("both_kinds_possible", 50);
    // 1 + 4 + 16 + 64 + 256 patterns, three kinds of fallback.
    ctx.cases("patterns", 341 * 3, 341 * 3 * 60, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let n = c.index as usize % (341 * 3);
        let (mut pat, fb) = (n / 3, n % 3);
        let mut ni = 0;
        let mut size = 1;
        while pat >= size {
            pat -= size;
            size *= 4;
            ni += 1;
        }
        for _ in 0..6 {
            let reqs: Vec<(Option<u32>, Option<u32>)> = (0..ni)
                .map(|i| {
                    let k = pat >> (2 * i) & 3;
                    let (t, h) = (edge_time(r), edge_height(r));
                    ((k & 1 != 0).then_some(t), (k & 2 != 0).then_some(h))
                })
                .collect();
            let fallback = match fb {
                0 => None,
                1 => Some(edge_height(r)),
                _ => Some(edge_time(r)),
            };
            let mut p = v2::Psbt { global: gen::v2_global(r, 1, ni, 1), inputs: vec![], outputs: vec![gen::v2_output(r, 1)] };
            p.inputs = (0..ni).map(|_| gen::v2_input(r, 1)).collect();
            lock_time_case(c, r, p, fallback, reqs);
        }
    });
    ctx.cases("random", 120_000, 3_000_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut p = gen::v2_psbt(r, false);
        let many = r.chance(1, 100);
        let n = if many { r.range(13, 300) } else { r.below(12) };
        // Often only a few of many say anything.
        let few = many && r.bool() || r.chance(1, 20);
        let some = [r.below(n.max(1)), r.below(n.max(1))];
        while p.inputs.len() < n {
            p.inputs.push(gen::v2_input(r, 1));
        }
        p.global.input_count = p.inputs.len();
        // Mostly one kind or both, so that not everything conflicts.
        let (pt, ph) = *r.pick(&[(1usize, 7usize), (7, 1), (4, 8), (8, 4), (8, 8), (3, 3), (0, 4), (4, 0), (0, 0)]);
        let reqs = (0..p.inputs.len())
            .map(|k| {
                if if few { !some.contains(&k) } else { r.chance(1, 3) } {
                    return (None, None);
                }
                let t = if r.bool() { edge_time(r) } else { 500_000_000 + r.u32() % 3_000_000_000 };
                let h = if r.bool() { edge_height(r) } else { r.u32() % 500_000_000 };
                (r.chance(pt, 8).then_some(t), r.chance(ph, 8).then_some(h))
            })
            .collect();
        let fallback = match r.below(3) {
            0 => None,
            1 => Some(edge_height(r)),
            _ => Some(edge_time(r)),
        };
        lock_time_case(c, r, p, fallback, reqs);
    });
}

fn lock_time_case(c: &mut Case, r: &mut Rng, mut p: v2::Psbt, fallback: Option<u32>, reqs: Vec<(Option<u32>, Option<u32>)>) {
    p.global.fallback_lock_time = fallback.map(LockTime::from_consensus);
    for (i, (t, h)) in p.inputs.iter_mut().zip(&reqs) {
        i.min_time = t.map(|t| Time::from_consensus(t).unwrap());
        i.min_height = h.map(|h| Height::from_consensus(h).unwrap());
    }
    give_scripts(r, &mut p);
    c.distinct(hash_bytes(format!("{:?}{:?}", fallback, reqs).as_bytes()));
    let want = model::lock_time_of(fallback, &reqs);
    let what = || format!("fallback {:?} required (time, height) {:?}: expected {:?}", fallback, reqs, want);
    let stated: Vec<_> = reqs.iter().filter(|(t, h)| t.is_some() || h.is_some()).collect();
    match want {
        Err(()) => c.count("conflict"),
        Ok(_) if stated.is_empty() => c.count("fallback"),
        Ok(n) if n < 500_000_000 => c.count("by_height"),
        Ok(_) => c.count("by_time"),
    }
    if !stated.is_empty() && stated.iter().all(|(t, h)| t.is_some() && h.is_some()) {
        c.count("both_kinds_possible");
    }
    let Some(got) = c.guard_with("determine_lock_time", what, || p.determine_lock_time()) else { return };
    if !c.check(got.as_ref().map(|l| l.to_consensus_u32()).map_err(drop) == want, "lock-time", || format!("{} got {:?}", what(), got)) {
        return;
    }
    let ok = want.is_ok();
    let q = p.clone();
    let Some(roles) = c.guard_with("roles", what, || {
        let mut m = q.clone();
        m.global.tx_modifiable_flags |= 3;
        let con = <Constructor<Modifiable>>::new(m.clone()).unwrap();
        let con2 = <Constructor<InputsOnlyModifiable>>::new(m.clone()).unwrap();
        let con3 = <Constructor<OutputsOnlyModifiable>>::new(m).unwrap();
        let mut f = q.clone();
        for i in f.inputs.iter_mut() {
            i.final_script_sig = Some(ScriptBuf::new());
            i.final_script_witness = Some(Witness::new());
            i.partial_sigs.clear();
            i.witness_utxo = Some(TxOut { value: Amount::from_sat(1), script_pubkey: ScriptBuf::new() });
        }
        [
            ("Updater::new", Updater::new(q.clone()).is_ok()),
            ("Updater::try_from", Updater::try_from(q.clone()).is_ok()),
            ("Signer::new", Signer::new(q.clone()).is_ok()),
            ("Constructor::psbt", con.psbt().is_ok()),
            ("Constructor::updater", con2.updater().is_ok()),
            ("Constructor<OutputsOnly>::updater", con3.updater().is_ok()),
            ("Finalizer::new", Finalizer::new(f.clone()).is_ok()),
            ("Extractor::new", Extractor::new(f).is_ok()),
        ]
    }) else {
        return;
    };
    for (name, got) in roles {
        c.check(got == ok, &format!("role:{}", name), || format!("{} accepted: {}", what(), got));
    }
    if !ok {
        return;
    }
    let raw = pairs::v2(&p);
    let Some((tx, ex)) = c.guard_with("unsigned_tx", what, || {
        let mut f = q.clone();
        for i in f.inputs.iter_mut() {
            i.final_script_sig = Some(ScriptBuf::new());
            i.final_script_witness = Some(Witness::new());
        }
        (Signer::new(q.clone()).unwrap().unsigned_tx(), Extractor::new(f).unwrap().extract_tx_unchecked_fee_rate())
    }) else {
        return;
    };
    c.count("unsigned_tx");
    let want_tx = model::unsigned_tx(&raw, None).unwrap();
    c.check(enc_tx(&tx) == want_tx, "unsigned-tx", || format!("{}\ngot  {}\nwant {}", what(), hex(&enc_tx(&tx)), hex(&want_tx)));
    c.check(ex.as_ref().map(enc_tx).ok() == Some(want_tx.clone()), "extracted-lock-time", || format!("{}\n{:?}\nwant {}", what(), ex, hex(&want_tx)));
    // Order of the inputs does not matter to the lock time.
    let mut s = p.clone();
    r.shuffle(&mut s.inputs);
    let Some(g) = c.guard("determine_lock_time", || s.determine_lock_time()) else { return };
    c.check(g.map(|l| l.to_consensus_u32()).ok() == want.ok(), "lock-time:order", what);
}

// ------------------------------------------------------------------------------------------------ C14

fn distinct_txid(r: &mut Rng, old: Txid) -> Txid {
    loop {
        let t = gen::txid(r);
        if t != old {
            return t;
        }
    }
}

pub fn unique_id(ctx: &Ctx) {
    ctx.rule("The unique id offered by Updater, Signer, Finalizer and Extractor against the double hash of the transaction BIP-370 names, serialized by a reference; then the PSBT is changed in a way that must keep the id (sequences, every non-transaction field, global fields, a hop through bytes) or must change it (version, lock time, outpoint, amount, script, an input or output more, fewer or moved). Distinct: by serialized PSBT.");
    ctx.require("conflict", 100);
    for k in ["kept", "changed:version", "changed:locktime", "changed:txid", "changed:vout", "changed:amount", "changed:script", "changed:inputs", "changed:outputs", "changed:input-order", "changed:output-order"] {
        ctx.require(k, 50);
    }
    ctx.cases("id", 50_000, 1_000_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let big = r.chance(1, 100);
        let mut p = gen::v2_psbt(r, big);
        if big && r.bool() {
            // More than one byte can count.
            let more = r.range(230, 300);
            for _ in 0..more {
                if r.bool() {
                    p.inputs.push(gen::v2_input(r, 0));
                } else {
                    p.outputs.push(gen::v2_output(r, 0));
                }
            }
            (p.global.input_count, p.global.output_count) = (p.inputs.len(), p.outputs.len());
        }
        give_scripts(r, &mut p);
        if r.chance(2, 3) {
            let time = r.bool();
            for i in p.inputs.iter_mut() {
                if time { i.min_height = None } else { i.min_time = None }
            }
        }
        let raw = pairs::v2(&p);
        c.distinct(hash_bytes(&raw.enc()));
        let want = model::id(&raw).map(Txid::from_byte_array).ok();
        let Some(got) = ids(c, &p) else { return };
        if want.is_none() {
            c.count("conflict");
            c.check(got.is_empty(), "id:of-conflict", || format!("{:?}", got));
            return;
        }
        c.check(got.len() == 4 && got.iter().all(|g| g.1 == want.unwrap()), "id:value", || format!("want {:?} got {:?}\n{}", want, got, hex(&raw.enc())));
        let id0 = want.unwrap();

        // Kept.
        for _ in 0..3 {
            let mut q = p.clone();
            for i in q.inputs.iter_mut() {
                let mut x = gen::v2_input(r, 4);
                x.previous_txid = i.previous_txid;
                x.spent_output_index = i.spent_output_index;
                x.min_time = i.min_time;
                x.min_height = i.min_height;
                match r.below(3) {
                    0 => *i = x,
                    1 => i.sequence = gen::opt(r, 6, gen::sequence),
                    _ => { x.sequence = i.sequence; *i = x }
                }
            }
            for o in q.outputs.iter_mut() {
                let mut x = gen::v2_output(r, 4);
                x.amount = o.amount;
                x.script_pubkey = o.script_pubkey.clone();
                if r.bool() {
                    *o = x;
                }
            }
            let g = gen::v2_global(r, 3, q.inputs.len(), q.outputs.len());
            q.global.xpubs = g.xpubs;
            q.global.tx_modifiable_flags = g.tx_modifiable_flags;
            q.global.unknowns = g.unknowns;
            q.global.proprietaries = g.proprietaries;
            if p.inputs.iter().any(|i| i.min_time.is_some() || i.min_height.is_some()) {
                q.global.fallback_lock_time = g.fallback_lock_time;
            }
            let mut q2 = q.clone();
            if r.bool() {
                let Some(x) = c.guard("hop", || v2::Psbt::deserialize(&q.serialize())) else { return };
                if let Ok(x) = x {
                    q2 = x;
                }
            }
            let Some(got) = ids(c, &q2) else { return };
            c.count("kept");
            c.check(got.len() == 4 && got.iter().all(|g| g.1 == id0), "id:not-kept", || format!("want {} got {:?}\n{}\n{}", id0, got, hex(&raw.enc()), hex(&pairs::v2(&q2).enc())));
        }
        // Through the updater's own operation.
        if !p.inputs.is_empty() {
            let (n, at) = (gen::sequence(r), r.below(p.inputs.len()));
            let Some(g) = c.guard("set_sequence", || Updater::new(p.clone()).unwrap().set_sequence(n, at).map(|u| u.id())) else { return };
            c.check(g.as_ref().ok() == Some(&id0), "id:set-sequence", || format!("{:?}", g));
        }

        // Changed.
        for _ in 0..3 {
            let mut q = p.clone();
            let (ni, no) = (q.inputs.len(), q.outputs.len());
            let kind = match r.below(10) {
                0 => {
                    q.global.tx_version = transaction::Version(q.global.tx_version.0 ^ 1 << r.below(31));
                    "version"
                }
                1 => {
                    let stated: Vec<usize> = (0..ni).filter(|i| q.inputs[*i].min_time.is_some() || q.inputs[*i].min_height.is_some()).collect();
                    if stated.is_empty() {
                        let f = q.global.fallback_lock_time.map(|l| l.to_consensus_u32()).unwrap_or(0);
                        q.global.fallback_lock_time = Some(LockTime::from_consensus(f ^ 1 << r.below(32)));
                    } else {
                        // One more than the present maximum.
                        let lt = model::lock_time(&raw).unwrap();
                        let at = *r.pick(&stated);
                        if lt < 499_999_999 {
                            q.inputs[at].min_height = Some(Height::from_consensus(lt + 1).unwrap());
                        } else if lt >= 500_000_000 && lt < u32::MAX {
                            q.inputs[at].min_time = Some(Time::from_consensus(lt + 1).unwrap());
                            q.inputs[at].min_height = None;
                        } else {
                            continue;
                        }
                        if model::lock_time(&pairs::v2(&q)) != Ok(lt + 1) {
                            continue;
                        }
                    }
                    "locktime"
                }
                2 if ni > 0 => {
                    let at = r.below(ni);
                    q.inputs[at].previous_txid = distinct_txid(r, q.inputs[at].previous_txid);
                    "txid"
                }
                3 if ni > 0 => {
                    let at = r.below(ni);
                    q.inputs[at].spent_output_index ^= 1 << r.below(32);
                    "vout"
                }
                4 if no > 0 => {
                    let at = r.below(no);
                    q.outputs[at].amount = Amount::from_sat(q.outputs[at].amount.to_sat() ^ 1 << r.below(64));
                    "amount"
                }
                5 if no > 0 => {
                    let at = r.below(no);
                    let mut b = q.outputs[at].script_pubkey.to_bytes();
                    match r.below(3) {
                        0 => b.push(r.u8()),
                        1 if b.len() > 1 => drop(b.pop()),
                        _ => { let n = r.below(b.len()); b[n] ^= 1 << r.below(8) }
                    }
                    q.outputs[at].script_pubkey = ScriptBuf::from(b);
                    "script"
                }
                6 => {
                    if ni > 0 && r.bool() {
                        let at = r.below(ni);
                        q.inputs.remove(at);
                    } else {
                        let at = r.below(ni + 1);
                        let mut x = gen::v2_input(r, 1);
                        x.min_time = None;
                        x.min_height = None;
                        q.inputs.insert(at, x);
                    }
                    q.global.input_count = q.inputs.len();
                    "inputs"
                }
                7 => {
                    if no > 0 && r.bool() {
                        let at = r.below(no);
                        q.outputs.remove(at);
                    } else {
                        let at = r.below(no + 1);
                        let mut x = gen::v2_output(r, 1);
                        x.script_pubkey = gen::script_nonempty(r);
                        q.outputs.insert(at, x);
                    }
                    q.global.output_count = q.outputs.len();
                    "outputs"
                }
                8 if ni > 1 => {
                    let (a, b) = (r.below(ni), r.below(ni));
                    if (q.inputs[a].previous_txid, q.inputs[a].spent_output_index) == (q.inputs[b].previous_txid, q.inputs[b].spent_output_index) {
                        continue;
                    }
                    q.inputs.swap(a, b);
                    "input-order"
                }
                9 if no > 1 => {
                    let (a, b) = (r.below(no), r.below(no));
                    if (q.outputs[a].amount, &q.outputs[a].script_pubkey) == (q.outputs[b].amount, &q.outputs[b].script_pubkey) {
                        continue;
                    }
                    q.outputs.swap(a, b);
                    "output-order"
                }
                _ => continue,
            };
            let qr = pairs::v2(&q);
            let Ok(w) = model::id(&qr) else { continue };
            let Some(got) = ids(c, &q) else { return };
            c.count(&format!("changed:{}", kind));
            c.check(got.len() == 4 && got.iter().all(|g| g.1 != id0), &format!("id:unchanged:{}", kind), || format!("{} got {:?}\n{}\n{}", id0, got, hex(&raw.enc()), hex(&qr.enc())));
            c.check(got.iter().all(|g| g.1.to_byte_array() == w), "id:value", || format!("{:?}", got));
        }
    });
}

/// The id as each role gives it; empty if the roles refuse the PSBT.
fn ids(c: &mut Case, p: &v2::Psbt) -> Option<Vec<(&'static str, Txid)>> {
    let mut f = p.clone();
    for i in f.inputs.iter_mut() {
        i.final_script_sig = Some(ScriptBuf::new());
        i.final_script_witness = Some(Witness::new());
    }
    let mut z = p.clone();
    for i in z.inputs.iter_mut() {
        i.partial_sigs.clear();
        if i.funding_utxo().is_err() {
            i.witness_utxo = Some(TxOut { value: Amount::from_sat(1), script_pubkey: ScriptBuf::new() });
        }
    }
    let show = pairs::v2(p).enc();
    c.guard_with("id", || hex(&show), || {
        let mut v = vec![];
        if let Ok(u) = Updater::new(p.clone()) {
            v.push(("updater", u.id()));
        }
        if let Ok(s) = Signer::new(p.clone()) {
            if let Ok(i) = s.id() {
                v.push(("signer", i));
            }
        }
        if let Ok(x) = Finalizer::new(z) {
            v.push(("finalizer", x.id()));
        }
        if let Ok(x) = Extractor::new(f) {
            v.push(("extractor", x.id()));
        }
        v
    })
}

// ------------------------------------------------------------------------------------------------ C15

enum Con {
    M(Constructor<Modifiable>),
    I(Constructor<InputsOnlyModifiable>),
    O(Constructor<OutputsOnlyModifiable>),
}
impl Con {
    fn psbt(self) -> Result<v2::Psbt, v2::DetermineLockTimeError> {
        match self { Con::M(x) => x.psbt(), Con::I(x) => x.psbt(), Con::O(x) => x.psbt() }
    }
    fn updater(self) -> Result<Updater, v2::DetermineLockTimeError> {
        match self { Con::M(x) => x.updater(), Con::I(x) => x.updater(), Con::O(x) => x.updater() }
    }
    fn no_more_inputs(self) -> Con {
        match self { Con::M(x) => Con::M(x.no_more_inputs()), Con::I(x) => Con::I(x.no_more_inputs()), Con::O(x) => Con::O(x.no_more_inputs()) }
    }
    fn no_more_outputs(self) -> Con {
        match self { Con::M(x) => Con::M(x.no_more_outputs()), Con::I(x) => Con::I(x.no_more_outputs()), Con::O(x) => Con::O(x.no_more_outputs()) }
    }
}

/// How a PSBT travels from one party to the next.
fn hop(c: &mut Case, r: &mut Rng, p: v2::Psbt) -> Option<v2::Psbt> {
    // The binary hop leaves out tap trees, which the dependency does not read back (a finding of C11).
    let how = r.below(if p.outputs.iter().any(|o| o.tap_tree.is_some()) { 4 } else { 5 });
    c.count(["hop:none", "hop:bytes", "hop:base64", "hop:json", "hop:binary"][how]);
    let q = p.clone();
    let got = c.guard("hop", || -> Result<v2::Psbt, String> {
        Ok(match how {
            0 => q,
            1 => v2::Psbt::deserialize(&q.serialize()).map_err(|e| format!("{:?}", e))?,
            2 => q.to_string().parse().map_err(|e| format!("{:?}", e))?,
            3 => serde_json::from_str(&serde_json::to_string(&q).unwrap()).map_err(|e| format!("{:?}", e))?,
            _ => crate::bin::from_slice(&crate::bin::to_vec(&q).unwrap()).map_err(|e| format!("{:?}", e))?,
        })
    })?;
    match got {
        Ok(q) => {
            c.check(q == p, "hop:changed", || hex(&pairs::v2(&p).enc()));
            Some(q)
        }
        Err(e) => {
            c.fail("hop:refused", format!("{} {}", e, hex(&pairs::v2(&p).enc())));
            None
        }
    }
}

pub fn construct(ctx: &Ctx) {
    ctx.rule("Random programs over Creator and the three Constructors (settings in any order, inputs and outputs added, declared complete, handed on through bytes, text or serde to another constructor, ended as PSBT or updater), run against a model of BIP-370; after every step that shows a PSBT it is compared with the model field by field, and every constructor is refused exactly if the flags forbid it. Distinct: by program.");
    ctx.require("ended:psbt", 500);
    ctx.require("ended:updater", 500);
    ctx.require("ended:conflict", 20);
    ctx.require("inputs", 1000);
    ctx.require("outputs", 1000);
    ctx.require("refused", 500);
    ctx.require("accepted", 500);
    ctx.require("hop:bytes", 100);
    ctx.require("hop:json", 100);
    ctx.cases("program", 400_000, 6_000_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut log = String::new();
        // The model.
        let mut flags = 0u8;
        let mut version = 2i32;
        let mut fallback = None;
        let mut ins: Vec<v2::Input> = vec![];
        let mut outs: Vec<v2::Output> = vec![];
        macro_rules! run { ($e:expr) => { match c.guard_with("construct", || log.clone(), || $e) { Some(x) => x, None => return } } }

        let mut cr = if r.bool() { Creator::new() } else { Creator::default() };
        for _ in 0..r.below(5) {
            match r.below(5) {
                0 => { let l = gen::lock_time(r); log += &format!("fallback {}; ", l); fallback = Some(l); cr = run!(cr.fallback_lock_time(l)) }
                1 => { log += "single; "; flags |= 4; cr = run!(cr.sighash_single()) }
                2 => { log += "inputs_modifiable; "; flags |= 1; cr = run!(cr.inputs_modifiable()) }
                3 => { log += "outputs_modifiable; "; flags |= 2; cr = run!(cr.outputs_modifiable()) }
                _ => { version = *r.pick(&[1, 2, 3, 0, -1, i32::MAX]); log += &format!("version {}; ", version); cr = run!(cr.transaction_version(transaction::Version(version))) }
            }
        }
        let check = |c: &mut Case, log: &str, p: &v2::Psbt, flags: u8, version: i32, fallback: Option<LockTime>, ins: &[v2::Input], outs: &[v2::Output]| {
            let g = &p.global;
            let bare = g.xpubs.is_empty() && g.unknowns.is_empty() && g.proprietaries.is_empty();
            let ok = bare && g.version == psbt_v2::V2 && g.tx_version.0 == version && g.fallback_lock_time == fallback && g.tx_modifiable_flags == flags && g.input_count == ins.len() && g.output_count == outs.len();
            c.check(ok, "construct:global", || format!("{}\nwant flags {} version {} fallback {:?} {} inputs {} outputs\n{:?}", log, flags, version, fallback, ins.len(), outs.len(), g));
            c.check(p.inputs == ins, "construct:inputs", || format!("{}\n{:?}\n{:?}", log, ins, p.inputs));
            c.check(p.outputs == outs, "construct:outputs", || format!("{}\n{:?}\n{:?}", log, outs, p.outputs));
        };
        let mut p = None;
        let mut con = None;
        match r.below(8) {
            0 => { log += "psbt; "; p = Some(run!(cr.psbt())) }
            1 | 2 => { log += "inputs_only; "; flags = flags & !2 | 1; con = Some(Con::I(run!(cr.constructor_inputs_only_modifiable()))) }
            3 | 4 => { log += "outputs_only; "; flags = flags & !1 | 2; con = Some(Con::O(run!(cr.constructor_outputs_only_modifiable()))) }
            5 => {
                // Defaults start afresh.
                flags = 0;
                version = 2;
                fallback = None;
                con = Some(match r.below(3) {
                    0 => { flags = 3; log = "M::default; ".into(); Con::M(run!(Default::default())) }
                    1 => { flags = 1; log = "I::default; ".into(); Con::I(run!(Default::default())) }
                    _ => { flags = 2; log = "O::default; ".into(); Con::O(run!(Default::default())) }
                })
            }
            _ => { log += "modifiable; "; flags |= 3; con = Some(Con::M(run!(cr.constructor_modifiable()))) }
        }
        let kind = r.below(4);
        let (mut done_in, mut done_out) = (false, false);
        for _ in 0..r.range(2, 14) {
            if let Some(x) = p.take() {
                check(c, &log, &x, flags, version, fallback, &ins, &outs);
                let Some(x) = hop(c, r, x) else { return };
                log += "hop; ";
                // All three constructors, accepted or not.
                let (a, b, d) = (x.clone(), x.clone(), x.clone());
                let m = run!(<Constructor<Modifiable>>::new(a));
                let i = run!(<Constructor<InputsOnlyModifiable>>::new(b));
                let o = run!(<Constructor<OutputsOnlyModifiable>>::new(d));
                c.count(if m.is_ok() { "accepted" } else { "refused" });
                c.check(m.is_ok() == (flags & 3 == 3), "constructor:modifiable", || format!("{} flags {}", log, flags));
                c.check(i.is_ok() == (flags & 1 == 1), "constructor:inputs-only", || format!("{} flags {}", log, flags));
                c.check(o.is_ok() == (flags & 2 == 2), "constructor:outputs-only", || format!("{} flags {}", log, flags));
                match &m {
                    Err(v2::PsbtNotModifiableError::Inputs(_)) => drop(c.check(flags & 1 == 0, "constructor:reason", || format!("{} flags {}", log, flags))),
                    Err(v2::PsbtNotModifiableError::Outputs(_)) => drop(c.check(flags & 2 == 0, "constructor:reason", || format!("{} flags {}", log, flags))),
                    _ => {}
                }
                let mut opts: Vec<Con> = vec![];
                opts.extend(m.ok().map(Con::M));
                opts.extend(i.ok().map(Con::I));
                opts.extend(o.ok().map(Con::O));
                if opts.is_empty() {
                    log += "stop";
                    break;
                }
                let n = r.below(opts.len());
                log += ["new 0; ", "new 1; ", "new 2; "][n];
                con = Some(opts.swap_remove(n));
                done_in = false;
                done_out = false;
            }
            let Some(k) = con.take() else { break };
            let step = r.below(10);
            match step {
                0..=2 if !done_in && flags & 1 == 1 => {
                    let mut i = match r.below(3) {
                        0 => v2::Input::new(&gen::outpoint(r)),
                        1 => gen::v2_input(r, 2),
                        _ => v2::InputBuilder::new(&gen::outpoint(r)).build(),
                    };
                    if r.chance(7, 8) {
                        // Seldom a conflict.
                        if kind == 0 || kind == 2 { i.min_time = None }
                        if kind == 0 || kind == 1 { i.min_height = None }
                    }
                    log += "input; ";
                    con = Some(match k {
                        Con::M(x) => { ins.push(i.clone()); c.count("inputs"); Con::M(run!(x.input(i))) }
                        Con::I(x) => { ins.push(i.clone()); c.count("inputs"); Con::I(run!(x.input(i))) }
                        k => k,
                    });
                }
                3..=5 if !done_out && flags & 2 == 2 => {
                    let o = match r.below(3) {
                        0 => v2::Output::new(TxOut { value: gen::amount(r), script_pubkey: gen::script_nonempty(r) }),
                        1 => gen::v2_output(r, 2),
                        _ => v2::OutputBuilder::new(TxOut { value: gen::amount(r), script_pubkey: gen::script_nonempty(r) }).build(),
                    };
                    log += "output; ";
                    con = Some(match k {
                        Con::M(x) => { outs.push(o.clone()); c.count("outputs"); Con::M(run!(x.output(o))) }
                        Con::O(x) => { outs.push(o.clone()); c.count("outputs"); Con::O(run!(x.output(o))) }
                        k => k,
                    });
                }
                6 if r.bool() => {
                    log += "no_more_inputs; ";
                    flags &= !1;
                    done_in = true;
                    con = Some(run!(k.no_more_inputs()));
                }
                7 if r.bool() => {
                    log += "no_more_outputs; ";
                    flags &= !2;
                    done_out = true;
                    con = Some(run!(k.no_more_outputs()));
                }
                8 | 9 => {
                    let reqs: Vec<_> = ins.iter().map(|i| (i.min_time.map(|t| t.to_consensus_u32()), i.min_height.map(|t| t.to_consensus_u32()))).collect();
                    let want = model::lock_time_of(None, &reqs).is_ok();
                    let upd = r.chance(1, 3);
                    log += if upd { "updater; " } else { "psbt; " };
                    let got = if upd { run!(k.updater().map(|u| u.psbt())) } else { run!(k.psbt()) };
                    c.check(got.is_ok() == want, "construct:conflict", || format!("{} {:?}", log, reqs));
                    let Ok(x) = got else { c.count("ended:conflict"); return };
                    if upd {
                        c.count("ended:updater");
                        flags &= !3;
                        check(c, &log, &x, flags, version, fallback, &ins, &outs);
                        let raw = pairs::v2(&x);
                        let Some(b) = c.guard("serialize", || x.serialize()) else { return };
                        c.check(Raw::dec(&b).map(|d| d.sorted()) == Some(raw.sorted()), "construct:bytes", || format!("{} {}", log, hex(&b)));
                        c.distinct(hash_bytes(log.as_bytes()) ^ hash_bytes(&b));
                        return;
                    }
                    c.count("ended:psbt");
                    p = Some(x);
                }
                _ => con = Some(k),
            }
        }
        c.distinct(hash_bytes(log.as_bytes()));
        if let Some(p) = p {
            check(c, &log, &p, flags, version, fallback, &ins, &outs);
        }
    });
}

// ------------------------------------------------------------------------------------------------ C16

pub fn update(ctx: &Ctx) {
    ctx.rule("Sequences set through the updater on generated PSBTs, in and out of bounds, against a model; inputs and outputs built through the builders with operations in any order and repeated, against the key-value pairs they have to be written as. Distinct: by PSBT and operations.");
    ctx.require("set", 1000);
    ctx.require("out_of_bounds", 500);
    ctx.require("built", 1000);
    ctx.cases("set_sequence", 100_000, 2_000_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut p = gen::v2_psbt(r, false);
        let time = r.bool();
        for i in p.inputs.iter_mut() {
            if time { i.min_height = None } else { i.min_time = None }
        }
        let n = p.inputs.len();
        let Some(u) = c.guard("Updater::new", || if r.bool() { Updater::new(p.clone()) } else { Updater::try_from(p.clone()) }) else { return };
        let Ok(mut u) = u else { c.fail("updater:refused", hex(&pairs::v2(&p).enc())); return };
        for _ in 0..r.range(1, 6) {
            let at = match r.below(8) {
                0 => n,
                1 => n + 1 + r.below(3),
                2 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 255, 256, 65536 + n]),
                _ if n > 0 => r.below(n),
                _ => 0,
            };
            let s = gen::sequence(r);
            let Some(g) = c.guard("set_sequence", || u.clone().set_sequence(s, at)) else { return };
            c.distinct(hash_bytes(format!("{} {} {}", n, at, s.0).as_bytes()));
            match g {
                Ok(x) => {
                    if !c.check(at < n, "set-sequence:out-of-bounds", || format!("{} of {}", at, n)) {
                        return;
                    }
                    c.count("set");
                    p.inputs[at].sequence = Some(s);
                    u = x;
                }
                Err(e) => {
                    c.check(at >= n, "set-sequence:refused", || format!("{} of {} {:?}", at, n, e));
                    c.check(matches!(e, v2::IndexOutOfBoundsError::Inputs { index, length } if index == at && length == n), "set-sequence:error", || format!("{} of {} {:?}", at, n, e));
                    let _ = c.guard("display", || e.to_string());
                    c.count("out_of_bounds");
                }
            }
        }
        let q = u.psbt();
        c.check(q == p, "set-sequence:psbt", || format!("{}\n{}", hex(&pairs::v2(&p).enc()), hex(&pairs::v2(&q).enc())));
    });
    ctx.cases("builder", 60_000, 1_000_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let op = gen::outpoint(r);
        let mut want = vec![crate::raw::KV::new(0x0e, vec![], op.txid.to_byte_array().to_vec()), crate::raw::KV::new(0x0f, vec![], op.vout.to_le_bytes().to_vec())];
        let mut b = v2::InputBuilder::new(&op);
        let mut put = |ty: u8, v: Vec<u8>| {
            want.retain(|kv| kv.ty() != ty);
            want.push(crate::raw::KV::new(ty, vec![], v));
        };
        let mut fund: (Option<TxOut>, Option<Transaction>) = (None, None);
        for _ in 0..r.below(6) {
            match r.below(4) {
                0 => { let t = gen::time(r); put(0x11, t.to_consensus_u32().to_le_bytes().to_vec()); b = b.minimum_required_time_based_lock_time(t) }
                1 => { let t = gen::height(r); put(0x12, t.to_consensus_u32().to_le_bytes().to_vec()); b = b.minimum_required_height_based_lock_time(t) }
                2 => { let t = gen::txout(r); put(0x01, bitcoin::consensus::serialize(&t)); fund.0 = Some(t.clone()); b = b.segwit_fund(t) }
                _ => { let t = gen::tx(r); put(0x00, bitcoin::consensus::serialize(&t)); fund.1 = Some(t.clone()); b = b.legacy_fund(t) }
            }
        }
        let Some(i) = c.guard("build", || b.build()) else { return };
        c.count("built");
        let mut got = pairs::v2_input(&i);
        got.sort();
        want.sort();
        c.distinct(hash_bytes(format!("{:?}", want).as_bytes()));
        c.check(got == want, "builder:input", || format!("{:?}\n{:?}", want, got));
        c.check(i.witness_utxo == fund.0 && i.non_witness_utxo == fund.1, "builder:funding", || format!("{:?}", i));
        let Some(n) = c.guard("Input::new", || v2::Input::new(&op)) else { return };
        let mut g = pairs::v2_input(&n);
        g.sort();
        c.check(g.iter().all(|kv| kv.ty() == 0x0e || kv.ty() == 0x0f) && g.len() == 2 && n.previous_txid == op.txid && n.spent_output_index == op.vout, "input:new", || format!("{:?}", n));
        let t = TxOut { value: gen::amount(r), script_pubkey: gen::script_nonempty(r) };
        let Some((a, b)) = c.guard("Output::new", || (v2::Output::new(t.clone()), v2::OutputBuilder::new(t.clone()).build())) else { return };
        let mut g = pairs::v2_output(&a);
        g.sort();
        let w = vec![crate::raw::KV::new(3, vec![], t.value.to_sat().to_le_bytes().to_vec()), crate::raw::KV::new(4, vec![], t.script_pubkey.to_bytes())];
        c.check(a == b && g == w, "output:new", || format!("{:?} {:?}", a, b));
    });
}

// ------------------------------------------------------------------------------------------------ C37

pub fn funding(ctx: &Ctx) {
    ctx.rule("Inputs of both versions with and without witness UTXO, previous transaction and spent index in or out of bounds; the funding UTXO through every accessor against the rule (witness UTXO, else the spent output of the previous transaction, else an error that says what is missing), and the finalized state against the presence of both final fields. Distinct: by shape.");
    for v in ["v2", "v0"] {
        for k in ["witness", "previous", "out-of-bounds", "missing"] {
            ctx.require(&format!("{}:{}", v, k), 300);
        }
    }
    ctx.require("finalized", 100);
    ctx.require("not_finalized", 100);
    ctx.cases("funding", 250_000, 4_000_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let n = r.below(6);
        let tx = {
            let mut t = gen::unsigned_tx(r);
            t.input = (0..n).map(|_| bitcoin::TxIn { previous_output: OutPoint { txid: gen::txid(r), vout: 0 }, ..Default::default() }).collect();
            t
        };
        let mut p2 = v2::Psbt { global: gen::v2_global(r, 1, n, 0), inputs: vec![], outputs: vec![] };
        let mut p0 = v0::bitcoin::Psbt::from_unsigned_tx(tx).unwrap();
        // what the accessor has to give: Ok(utxo), Err(Some((vout, len))), Err(None)
        let mut want: Vec<Result<TxOut, Option<(usize, usize)>>> = vec![];
        let mut fin = vec![];
        for i in 0..n {
            let w = gen::opt(r, 3, gen::txout);
            let mut prev = gen::opt(r, 5, gen::tx);
            if let Some(t) = &mut prev {
                for _ in 0..r.below(4) {
                    t.output.push(gen::txout(r));
                }
            }
            if let (Some(t), true) = (&mut prev, r.chance(1, 4000)) {
                // As many outputs as two bytes can count, and more.
                let more = 0xfff0 + r.below(64);
                t.output.extend((0..more).map(|k| TxOut { value: Amount::from_sat(k as u64), script_pubkey: ScriptBuf::new() }));
            }
            let len = prev.as_ref().map(|t| t.output.len()).unwrap_or(3);
            let vout = match r.below(8) { 0 => len as u32, 1 => gen::edge_u32(r), _ => r.below(len.max(1)) as u32 };
            let mut x = gen::v2_input(r, 1);
            x.spent_output_index = vout;
            x.previous_txid = prev.as_ref().map(|t| t.compute_txid()).unwrap_or(x.previous_txid);
            x.witness_utxo = w.clone();
            x.non_witness_utxo = prev.clone();
            let (a, b) = (gen::opt(r, 4, gen::script), gen::opt(r, 4, gen::witness));
            // Empty finals count as present.
            x.final_script_sig = if r.chance(1, 4) { Some(ScriptBuf::new()) } else { a };
            x.final_script_witness = if r.chance(1, 4) { Some(Witness::new()) } else { b };
            fin.push(x.final_script_sig.is_some() && x.final_script_witness.is_some());
            p2.inputs.push(x);
            p0.unsigned_tx.input[i].previous_output.vout = vout;
            p0.inputs[i].witness_utxo = w.clone();
            p0.inputs[i].non_witness_utxo = prev.clone();
            let e = match (w, prev) {
                (Some(w), _) => Ok(w),
                (None, Some(t)) => t.output.get(vout as usize).cloned().ok_or(Some((vout as usize, t.output.len()))),
                _ => Err(None),
            };
            c.distinct(hash_bytes(format!("{:?} {} {} {}", e.as_ref().map(drop), vout, len, p2.inputs[i].witness_utxo.is_some()).as_bytes()));
            want.push(e);
        }
        let show = || format!("{:?}\n{:?}", want, p2.inputs);
        let Some(all) = c.guard_with("iter_funding_utxos", show, || p2.iter_funding_utxos().map(|x| x.cloned()).collect::<Vec<_>>()) else { return };
        c.check(all.len() == n, "funding:v2-count", show);
        for (i, w) in want.iter().enumerate() {
            c.count(match w { Ok(_) if p2.inputs[i].witness_utxo.is_some() => "v2:witness", Ok(_) => "v2:previous", Err(Some(_)) => "v2:out-of-bounds", _ => "v2:missing" });
            c.count(match w { Ok(_) if p2.inputs[i].witness_utxo.is_some() => "v0:witness", Ok(_) => "v0:previous", Err(Some(_)) => "v0:out-of-bounds", _ => "v0:missing" });
            let Some(one) = c.guard_with("funding_utxo", show, || p2.inputs[i].funding_utxo().cloned()) else { return };
            for (name, g) in [("iter", &all[i]), ("one", &one)] {
                use psbt_v2::FundingUtxoError as E;
                let ok = match (g, w) {
                    (Ok(g), Ok(w)) => g == w,
                    (Err(E::OutOfBounds { vout, len }), Err(Some((v, l)))) => vout == v && len == l,
                    (Err(E::MissingUtxo), Err(None)) => true,
                    _ => false,
                };
                c.check(ok, &format!("funding:v2-{}", name), || format!("input {} got {:?}\n{}", i, g, show()));
            }
            let Some(f) = c.guard("is_finalized", || p2.inputs[i].is_finalized()) else { return };
            c.check(f == fin[i], "finalized:input", || format!("{:?}", p2.inputs[i]));
        }
        let Some(f) = c.guard("is_finalized", || p2.is_finalized()) else { return };
        let wf = fin.iter().all(|x| *x);
        c.count(if wf { "finalized" } else { "not_finalized" });
        c.check(f == wf, "finalized:psbt", || format!("{:?}", fin));
        let Some(e) = c.guard("Extractor::new", || Extractor::new({ let mut q = p2.clone(); q.inputs.iter_mut().for_each(|i| { i.min_time = None; i.min_height = None }); q }).is_ok()) else { return };
        c.check(e == wf, "finalized:extractor", || format!("{:?}", fin));
        // Version 0.
        let Some(all) = c.guard_with("v0::iter_funding_utxos", show, || p0.iter_funding_utxos().map(|x| x.cloned()).collect::<Vec<_>>()) else { return };
        c.check(all.len() == n, "funding:v0-count", show);
        for (i, w) in want.iter().enumerate() {
            use v0::bitcoin::Error as E;
            let ok = match (&all[i], w) {
                (Ok(g), Ok(w)) => g == w,
                (Err(E::PsbtUtxoOutOfbounds), Err(Some(_))) | (Err(E::MissingUtxo), Err(None)) => true,
                _ => false,
            };
            c.check(ok, "funding:v0-iter", || format!("input {} got {:?}\n{}", i, all[i], show()));
            let Some(g) = c.guard_with("spend_utxo", show, || p0.spend_utxo(i).cloned()) else { return };
            c.check(g.as_ref().ok() == w.as_ref().ok(), "funding:v0-spend", || format!("input {} got {:?}\n{}", i, g, show()));
        }
        for at in [n, n + 1, gen::beyond(r, n), usize::MAX] {
            let Some(g) = c.guard_with("spend_utxo", show, || p0.spend_utxo(at).is_err()) else { return };
            c.check(g, "funding:v0-index", || format!("{} of {}", at, n));
        }
    });
}

// ------------------------------------------------------------------------------------------------ C42

/// One field of one input that some updater knows.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Know { Utxo, PrevTx, Sighash, Redeem, WScript, Keys, TapInternal, TapRoot, TapOrigins, TapScripts }
const KNOW: [Know; 10] = [Know::Utxo, Know::PrevTx, Know::Sighash, Know::Redeem, Know::WScript, Know::Keys, Know::TapInternal, Know::TapRoot, Know::TapOrigins, Know::TapScripts];

macro_rules! tell {
    ($to:expr, $from:expr, $k:expr, $deriv:ident) => {{
        let (to, from) = (&mut $to, &$from);
        match $k {
            Know::Utxo => to.witness_utxo = from.witness_utxo.clone(),
            Know::PrevTx => to.non_witness_utxo = from.non_witness_utxo.clone(),
            Know::Sighash => to.sighash_type = from.sighash_type,
            Know::Redeem => to.redeem_script = from.redeem_script.clone(),
            Know::WScript => to.witness_script = from.witness_script.clone(),
            Know::Keys => to.$deriv = from.$deriv.clone(),
            Know::TapInternal => to.tap_internal_key = from.tap_internal_key,
            Know::TapRoot => to.tap_merkle_root = from.tap_merkle_root,
            Know::TapOrigins => to.tap_key_origins = from.tap_key_origins.clone(),
            Know::TapScripts => to.tap_scripts = from.tap_scripts.clone(),
        }
    }};
}

const ECDSA: [Kind; 9] = [Kind::Pk, Kind::Pkh, Kind::PkhUncompressed, Kind::BareMulti, Kind::Sh, Kind::Wpkh, Kind::ShWpkh, Kind::Wsh, Kind::ShWsh];

/// Splits the keys of a scenario among a few holders.
fn holders(r: &mut Rng, s: &Scen) -> Vec<BTreeSet<usize>> {
    let n = r.range(1, 4);
    let mut v = vec![BTreeSet::new(); n];
    let mut all: BTreeSet<usize> = BTreeSet::new();
    for i in &s.ins {
        all.extend(i.key_ids());
    }
    let lose = r.chance(1, 5);
    for k in all {
        if lose && r.chance(1, 3) {
            continue;
        }
        let at = r.below(n);
        v[at].insert(k);
        if r.chance(1, 5) {
            let at = r.below(n);
            v[at].insert(k);
        }
    }
    v
}

/// What all the holders together can do.
fn union_avail(r: &mut Rng, s: &Scen, hs: &[BTreeSet<usize>]) -> Vec<Avail> {
    let lvl = if r.chance(1, 5) { 1 } else { 0 };
    s.ins
        .iter()
        .map(|i| {
            let mut a = fin::avail(r, i, 0);
            let held = |k: &usize| hs.iter().any(|h| h.contains(k));
            a.keys.retain(held);
            for l in a.leaf_keys.iter_mut() {
                l.retain(held);
            }
            a.tap_key = i.tr.as_ref().is_some_and(|t| held(&t.internal)) && a.tap_key;
            if lvl == 1 {
                a.pre = a.pre.into_iter().filter(|_| r.bool()).collect();
            }
            a
        })
        .collect()
}

/// Combines all parts in a random order and grouping.
fn merge<P>(c: &mut Case, r: &mut Rng, mut parts: Vec<P>, what: &str, f: impl Fn(P, P) -> Result<P, String>) -> Option<P> {
    while parts.len() > 1 {
        let a = r.below(parts.len());
        let x = parts.swap_remove(a);
        let b = r.below(parts.len());
        let y = parts.swap_remove(b);
        match c.guard(what, || f(x, y))? {
            Ok(p) => parts.push(p),
            Err(e) => {
                c.fail(format!("{}:refused", what), e);
                return None;
            }
        }
        c.count("combined");
    }
    parts.pop()
}

pub fn lifecycle(ctx: &Ctx) {
    ctx.rule("Whole histories: a scenario of outputs to spend is turned into a PSBT by creator and constructors, the knowledge about its inputs split at random among updaters, the keys among signers and the preimages among all; every part travels as bytes, text, JSON or binary, copies are combined in random order and grouping, signed in parallel or in sequence, finalized and extracted. The unique id is watched at every station, the final transaction is compared with the scenario and run through an independent script interpreter, and finalizing has to succeed exactly if the held keys and preimages suffice. The same for version 0 without the roles. Distinct: by the final PSBT before finalizing.");
    ctx.require("v2:finalized", 300);
    ctx.require("v2:insufficient", 20);
    ctx.require("v0:finalized", 300);
    ctx.require("combined", 2000);
    ctx.require("signed:sequence", 200);
    ctx.require("signed:parallel", 200);
    ctx.cases("v2", 20_000, 300_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        v2_history(c, r);
    });
    ctx.cases("v0", 20_000, 300_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        v0_history(c, r);
    });
}

fn watch(c: &mut Case, station: &str, p: &v2::Psbt, id: Txid) -> bool {
    let Some(g) = c.guard("Signer::id", || Signer::new(p.clone()).ok().and_then(|s| s.id().ok())) else { return false };
    c.count("id_seen");
    c.check(g == Some(id), &format!("life:id:{}", station), || format!("{:?} {}", g, id))
}

fn v2_history(c: &mut Case, r: &mut Rng) {
    let taproot = r.chance(1, 3);
    let s = fin::finish_scen(r, if taproot { &fin::ALL_KINDS } else { &ECDSA }, false);
    let tx = s.tx().unwrap();
    let prevouts = s.prevouts();
    let full = s.v2();
    let hs = holders(r, &s);
    let mut av = union_avail(r, &s, &hs);

    // Creator and constructors.
    let mut cr = Creator::new().transaction_version(transaction::Version(s.version));
    if let Some(f) = s.fallback {
        cr = cr.fallback_lock_time(f);
    }
    let mut con = cr.constructor_modifiable();
    let (mut ni, mut no) = (0, 0);
    while ni < s.ins.len() || no < s.outs.len() {
        if ni < s.ins.len() && (no == s.outs.len() || r.bool()) {
            let f = &full.inputs[ni];
            let mut i = v2::Input::new(&s.ins[ni].outpoint());
            i.min_time = f.min_time;
            i.min_height = f.min_height;
            con = con.input(i);
            ni += 1;
        } else {
            con = con.output(v2::Output::new(s.outs[no].clone()));
            no += 1;
        }
        if r.chance(1, 5) {
            let Some(p) = c.guard("Constructor::psbt", || con.psbt()) else { return };
            let Ok(p) = p else { c.fail("life:conflict", format!("{:?}", s)); return };
            let Some(p) = hop(c, r, p) else { return };
            let Some(x) = c.guard("Constructor::new", || <Constructor<Modifiable>>::new(p)) else { return };
            let Ok(x) = x else { c.fail("life:constructor", "refused"); return };
            con = x;
        }
    }
    let Some(u) = c.guard("updater", || con.updater()) else { return };
    let Ok(mut u) = u else { c.fail("life:conflict", format!("{:?}", s)); return };
    let id = u.id();
    let mut zero = tx.clone();
    zero.input.iter_mut().for_each(|i| i.sequence = Sequence::ZERO);
    if !c.check(id == zero.compute_txid(), "life:id", || format!("{} {:?}", id, s)) {
        return;
    }
    // Sequences: set by the updater before the copies go out.
    for (n, i) in s.ins.iter().enumerate() {
        if let Some(q) = i.seq {
            let Some(x) = c.guard("set_sequence", || u.set_sequence(q, n)) else { return };
            let Ok(x) = x else { c.fail("life:sequence", ""); return };
            u = x;
        }
    }
    let base = u.psbt();

    // Updaters.
    let n = r.range(1, 4);
    let mut parts = vec![base.clone(); n];
    for (i, f) in full.inputs.iter().enumerate() {
        for k in KNOW {
            let at = r.below(n);
            tell!(parts[at].inputs[i], f, k, bip32_derivations);
            if r.chance(1, 4) {
                let at = r.below(n);
                tell!(parts[at].inputs[i], f, k, bip32_derivations);
            }
        }
    }
    let mut hopped = vec![];
    for p in parts {
        let Some(p) = hop(c, r, p) else { return };
        if !watch(c, "updated", &p, id) {
            return;
        }
        hopped.push(p);
    }
    let Some(p) = merge(c, r, hopped, "combine", |a, b| a.combine_with(b).map_err(|e| e.to_string())) else { return };
    let Some(p) = hop(c, r, p) else { return };
    // Everything the updaters told is there.
    if !c.check(p.inputs == full.inputs, "life:updates-lost", || format!("{:?}\n{:?}", full.inputs, p.inputs)) || !watch(c, "combined", &p, id) {
        return;
    }

    // Preimages, and taproot signatures, which the version 2 signer does not make: by devices of their own.
    let mut extra = p.clone();
    for (i, inp) in s.ins.iter().enumerate() {
        let f = fin::fill(&tx, &prevouts, i, inp, &mut av[i]);
        let x = &mut extra.inputs[i];
        x.tap_key_sig = f.tap_key;
        x.tap_script_sigs = f.tap_script;
        fin::put_preimages_v2(x, &f.pre);
        if inp.kind == Kind::PkhUncompressed {
            // Derivations name compressed keys, so the signer has no way to learn of this one.
            x.partial_sigs = f.partial;
        }
    }
    let any_tap = s.ins.iter().any(|i| i.kind.tap());
    let mut signed = vec![];
    if any_tap {
        // The signer refuses PSBTs with taproot inputs; ECDSA signatures come from outside, too.
        for (i, inp) in s.ins.iter().enumerate() {
            if inp.tr.is_none() {
                for k in &av[i].keys {
                    extra.inputs[i].partial_sigs.insert(inp.pubkey(*k), scen::sign_ecdsa(&tx, i, inp, *k, fin::ecdsa_type(inp)));
                }
            }
        }
    } else {
        let seq = r.bool();
        c.count(if seq { "signed:sequence" } else { "signed:parallel" });
        let mut cur = p.clone();
        for h in &hs {
            let holder = match r.below(4) {
                0 => Holder::Map(h.clone()),
                1 => Holder::HashMap(h.clone()),
                _ => Holder::Own(Held { keys: h.clone(), by_path: true, by_pubkey: r.bool(), err: false }),
            };
            let from = if seq { cur.clone() } else { p.clone() };
            let Some(from) = hop(c, r, from) else { return };
            let Some(g) = c.guard("sign", || sign::sign_v2(from, &holder)) else { return };
            match g {
                Ok((q, _)) => {
                    if !watch(c, "signed", &q, id) {
                        return;
                    }
                    if seq { cur = q } else { signed.push(q) }
                }
                Err((_, e)) => {
                    c.fail("life:sign", format!("{:?}\n{:?}", e, s));
                    return;
                }
            }
        }
        if seq {
            signed.push(cur);
        }
    }
    signed.push(extra);
    let mut hopped = vec![];
    for p in signed {
        let Some(p) = hop(c, r, p) else { return };
        hopped.push(p);
    }
    let Some(p) = merge(c, r, hopped, "combine", |a, b| a.combine_with(b).map_err(|e| e.to_string())) else { return };
    let Some(p) = hop(c, r, p) else { return };
    c.distinct(hash_bytes(&pairs::v2(&p).enc()));
    if !watch(c, "all-signed", &p, id) {
        return;
    }

    // Finalizer and extractor.
    let enough = s.ins.iter().enumerate().all(|(i, inp)| fin::satisfiable(&tx, i, inp, &av[i]));
    let Some(f) = c.guard("Finalizer", || match Finalizer::new(p.clone()) {
        Ok(f) => Ok((f.id(), f.finalize(secp()).map_err(|e| e.to_string()))),
        Err(e) => Err(format!("{:?}", e)),
    }) else {
        return;
    };
    let (fid, f) = match f {
        Ok(x) => x,
        Err(e) => { c.fail("life:finalizer", e); return }
    };
    c.check(fid == id, "life:id:finalizer", || format!("{} {}", fid, id));
    let f = match f {
        Err(e) => {
            c.count("v2:insufficient");
            c.check(!enough, "life:not-finalized", || format!("{}\n{:?}\n{:?}", e, s, av));
            return;
        }
        Ok(f) => f,
    };
    if !c.check(enough, "life:finalized-without-enough", || format!("{:?}\n{:?}", s, av)) {
        return;
    }
    c.count("v2:finalized");
    let Some(f) = hop(c, r, f) else { return };
    if !watch(c, "finalized", &f, id) {
        return;
    }
    let Some(x) = c.guard("Extractor", || Extractor::new(f.clone()).map(|e| (e.id(), e.extract_tx_unchecked_fee_rate()))) else { return };
    let (xid, fx) = match x {
        Ok((i, Ok(t))) => (i, t),
        e => { c.fail("life:extract", format!("{:?}", e)); return }
    };
    c.check(xid == id, "life:id:extractor", || format!("{} {}", xid, id));
    final_tx(c, &s, &tx, &prevouts, fx);
}

fn final_tx(c: &mut Case, s: &Scen, tx: &Transaction, prevouts: &[TxOut], fx: Transaction) {
    let mut bare = fx.clone();
    bare.input.iter_mut().for_each(|i| { i.script_sig = ScriptBuf::new(); i.witness = Witness::new() });
    if !c.check(bare == *tx, "life:transaction", || format!("{:?}\n{:?}", tx, fx)) {
        return;
    }
    for i in 0..tx.input.len() {
        if let Err(e) = interp::verify(&fx, i, prevouts) {
            c.fail("life:invalid", format!("input {} {}\n{:?}\n{:?}", i, e, fx, s.ins[i]));
            return;
        }
        c.count("inputs_verified");
    }
}

fn hop0(c: &mut Case, r: &mut Rng, p: v0::bitcoin::Psbt) -> Option<v0::bitcoin::Psbt> {
    let how = r.below(5);
    let q = p.clone();
    let got = c.guard("hop", || -> Result<v0::bitcoin::Psbt, String> {
        Ok(match how {
            0 => q,
            1 => v0::bitcoin::Psbt::deserialize(&q.serialize()).map_err(|e| format!("{:?}", e))?,
            2 => q.to_string().parse().map_err(|e| format!("{:?}", e))?,
            3 => serde_json::from_str(&serde_json::to_string(&q).unwrap()).map_err(|e| format!("{:?}", e))?,
            _ => crate::bin::from_slice(&crate::bin::to_vec(&q).unwrap()).map_err(|e| format!("{:?}", e))?,
        })
    })?;
    match got {
        Ok(q) => {
            c.check(q == p, "hop:changed-v0", || hex(&pairs::v0(&p).enc()));
            Some(q)
        }
        Err(e) => {
            c.fail("hop:refused-v0", format!("{} {}", e, hex(&pairs::v0(&p).enc())));
            None
        }
    }
}

fn v0_history(c: &mut Case, r: &mut Rng) {
    use psbt_v2::v0::miniscript::PsbtExt;
    let s = fin::finish_scen(r, &fin::ALL_KINDS, false);
    let tx = s.tx().unwrap();
    let prevouts = s.prevouts();
    let full = s.v0();
    let hs = holders(r, &s);
    let mut av = union_avail(r, &s, &hs);
    let Some(base) = c.guard("from_unsigned_tx", || v0::bitcoin::Psbt::from_unsigned_tx(tx.clone())) else { return };
    let Ok(base) = base else { c.fail("life:from-unsigned", format!("{:?}", s)); return };
    let n = r.range(1, 4);
    let mut parts = vec![base; n];
    for (i, f) in full.inputs.iter().enumerate() {
        for k in KNOW {
            let at = r.below(n);
            tell!(parts[at].inputs[i], f, k, bip32_derivation);
            if r.chance(1, 4) {
                let at = r.below(n);
                tell!(parts[at].inputs[i], f, k, bip32_derivation);
            }
        }
    }
    let join = |mut a: v0::bitcoin::Psbt, b: v0::bitcoin::Psbt| a.combine(b).map(|_| a).map_err(|e| e.to_string());
    let mut hopped = vec![];
    for p in parts {
        let Some(p) = hop0(c, r, p) else { return };
        hopped.push(p);
    }
    let Some(p) = merge(c, r, hopped, "v0::combine", join) else { return };
    if !c.check(p == full, "life:updates-lost-v0", || format!("{:?}\n{:?}", full, p)) {
        return;
    }
    let mut extra = p.clone();
    for (i, inp) in s.ins.iter().enumerate() {
        let f = fin::fill(&tx, &prevouts, i, inp, &mut av[i]);
        fin::put_preimages_v0(&mut extra.inputs[i], &f.pre);
        if inp.kind == Kind::PkhUncompressed {
            extra.inputs[i].partial_sigs = f.partial.clone();
        }
        if inp.kind.tap() {
            // The internal key signs only if it is asked for, so a device stands in for it.
            extra.inputs[i].tap_key_sig = f.tap_key;
            extra.inputs[i].tap_script_sigs = f.tap_script;
        }
    }
    let seq = r.bool();
    let mut signed = vec![];
    let mut cur = p.clone();
    for h in &hs {
        let holder = Holder::Own(Held { keys: h.clone(), by_path: true, by_pubkey: r.bool(), err: false });
        let from = if seq { cur.clone() } else { p.clone() };
        let Some(mut q) = hop0(c, r, from) else { return };
        let Some(g) = c.guard("v0::sign", || sign::sign_v0(&mut q, &holder)) else { return };
        if g.is_err() {
            c.count("v0:sign_err");
        }
        c.check(q.unsigned_tx == tx, "life:v0-transaction", || format!("{:?}", q.unsigned_tx));
        if seq { cur = q } else { signed.push(q) }
    }
    if seq {
        signed.push(cur);
    }
    // Signing by the crate may have made key path signatures beyond what the devices made.
    for q in &signed {
        for (i, x) in q.inputs.iter().enumerate() {
            av[i].tap_key |= x.tap_key_sig.is_some();
        }
    }
    signed.push(extra);
    let mut hopped = vec![];
    for p in signed {
        let Some(p) = hop0(c, r, p) else { return };
        hopped.push(p);
    }
    let Some(p) = merge(c, r, hopped, "v0::combine", join) else { return };
    let Some(p) = hop0(c, r, p) else { return };
    c.distinct(hash_bytes(&pairs::v0(&p).enc()));
    let enough = s.ins.iter().enumerate().all(|(i, inp)| fin::satisfiable(&tx, i, inp, &av[i]));
    let Some(f) = c.guard("finalize_mall", || p.clone().finalize_mall(secp())) else { return };
    match f {
        Err((_, e)) => {
            c.count("v0:insufficient");
            c.check(!enough, "life:not-finalized-v0", || format!("{:?}\n{:?}\n{:?}", e, s, av));
        }
        Ok(f) => {
            if !c.check(enough, "life:finalized-without-enough-v0", || format!("{:?}\n{:?}", s, av)) {
                return;
            }
            c.count("v0:finalized");
            let Some(f) = hop0(c, r, f) else { return };
            let Some(t) = c.guard("v0::extract", || f.extract(secp())) else { return };
            match t {
                Ok(t) => final_tx(c, &s, &tx, &prevouts, t),
                Err(e) => c.fail("life:extract-v0", format!("{:?}", e)),
            }
        }
    }
}
