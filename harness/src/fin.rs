//! Monitors for the Finalizer and Extractor of both versions (C26..C29, C33, C34).
use std::collections::{BTreeMap, BTreeSet};

use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::taproot::TapLeafHash;
use bitcoin::{
    ecdsa, taproot, Amount, FeeRate, PublicKey, ScriptBuf, Sequence, TapSighashType, Transaction, TxOut, Witness,
    XOnlyPublicKey,
};
use psbt_v2::v0::miniscript::{self as v0m, PsbtExt};
use psbt_v2::{v0, v2};

use crate::ctx::{Case, Ctx};
use crate::gen::{self, secp};
use crate::interp;
use crate::rng::Rng;
use crate::scen::{self, keys, Inp, Kind, Pol, Scen};
use crate::sign::STD;

pub const ALL_KINDS: [Kind; 11] = [
    Kind::Pk,
    Kind::Pkh,
    Kind::PkhUncompressed,
    Kind::BareMulti,
    Kind::Sh,
    Kind::Wpkh,
    Kind::ShWpkh,
    Kind::Wsh,
    Kind::ShWsh,
    Kind::TrKey,
    Kind::TrScript,
];

/// What an input has been given to satisfy its script with.
#[derive(Clone, Debug, Default)]
pub struct Avail {
    pub keys: BTreeSet<usize>,
    pub tap_key: bool,
    pub leaf_keys: Vec<BTreeSet<usize>>,
    pub pre: BTreeSet<(usize, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct Fill {
    pub partial: BTreeMap<PublicKey, ecdsa::Signature>,
    pub tap_key: Option<taproot::Signature>,
    pub tap_script: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
    pub pre: Vec<(usize, usize, Vec<u8>)>,
}

macro_rules! put {
    ($i:expr, $f:expr) => {{
        let (i, f) = (&mut *$i, $f);
        i.partial_sigs = f.partial.clone();
        i.tap_key_sig = f.tap_key;
        i.tap_script_sigs = f.tap_script.clone();
        for (t, n, p) in &f.pre {
            let x = &keys().preimages[*n];
            match t {
                0 => drop(i.sha256_preimages.insert(sha256::Hash::hash(x), p.clone())),
                1 => drop(i.hash256_preimages.insert(sha256d::Hash::hash(x), p.clone())),
                2 => drop(i.ripemd160_preimages.insert(ripemd160::Hash::hash(x), p.clone())),
                _ => drop(i.hash160_preimages.insert(hash160::Hash::hash(x), p.clone())),
            }
        }
    }};
}

pub fn put_preimages_v2(i: &mut v2::Input, pre: &[(usize, usize, Vec<u8>)]) {
    let f = Fill { partial: i.partial_sigs.clone(), tap_key: i.tap_key_sig, tap_script: i.tap_script_sigs.clone(), pre: pre.to_vec() };
    put!(i, f);
}
pub fn put_preimages_v0(i: &mut v0::bitcoin::Input, pre: &[(usize, usize, Vec<u8>)]) {
    let f = Fill { partial: i.partial_sigs.clone(), tap_key: i.tap_key_sig, tap_script: i.tap_script_sigs.clone(), pre: pre.to_vec() };
    put!(i, f);
}

/// Makes some of the time locks unmet.
pub fn break_locks(r: &mut Rng, s: &mut Scen) {
    for i in s.ins.iter_mut() {
        match r.below(6) {
            0 => i.seq = None,
            1 => i.seq = Some(gen::sequence(r)),
            2 => i.min_height = i.min_height.map(|h| h / 2),
            3 => i.min_time = i.min_time.map(|t| (t / 2).max(500_000_000)),
            4 => i.min_height = None,
            _ => i.min_time = None,
        }
    }
}

pub fn finish_scen(r: &mut Rng, kinds: &[Kind], break_some: bool) -> Scen {
    loop {
        let locks = r.chance(2, 3);
        let mut s = scen::scen(r, kinds, locks);
        if break_some && r.chance(1, 3) {
            break_locks(r, &mut s);
        }
        for i in s.ins.iter_mut() {
            i.sighash = match r.below(4) {
                0 | 1 => None,
                _ if i.kind.tap() && r.chance(1, 4) => Some(0),
                _ => Some(*r.pick(&STD)),
            };
        }
        if s.tx().is_some() {
            return s;
        }
    }
}

/// How much is given: 0 everything, 1 most, 2 half, 3 little.
pub fn avail(r: &mut Rng, i: &Inp, level: usize) -> Avail {
    let p = [8, 7, 4, 1][level];
    let mut sub = |v: Vec<usize>| -> BTreeSet<usize> { v.into_iter().filter(|_| r.chance(p, 8)).collect() };
    let mut a = Avail::default();
    let mut ls = vec![];
    match &i.tr {
        Some(t) => {
            for l in &t.leaves {
                let mut v = vec![];
                l.pol.keys(&mut v);
                a.leaf_keys.push(sub(v));
                l.pol.leaves(&mut ls);
            }
        }
        None => {
            a.keys = sub(i.key_ids());
            i.pol.leaves(&mut ls);
        }
    }
    for l in ls {
        if let Pol::Hash(t, n) = l {
            if r.chance(p, 8) {
                a.pre.insert((*t, *n));
            }
        }
    }
    if i.kind == Kind::TrKey {
        a.tap_key = r.chance(p, 8);
    } else if i.kind == Kind::TrScript {
        a.tap_key = r.chance(1, 8);
    }
    a
}

pub fn lock_met(tx: &Transaction, i: usize, l: &Pol) -> bool {
    let seq = tx.input[i].sequence.0;
    match l {
        Pol::After(n) => {
            let lt = tx.lock_time.to_consensus_u32();
            (*n < 500_000_000) == (lt < 500_000_000) && *n <= lt && seq != u32::MAX
        }
        Pol::Older(n) => {
            tx.version.0 >= 2
                && seq & (1 << 31) == 0
                && (seq ^ n) & (1 << 22) == 0
                && n & 0xffff <= seq & 0xffff
        }
        _ => unreachable!(),
    }
}

/// Whether what is available satisfies the script of this input.
pub fn satisfiable(tx: &Transaction, i: usize, inp: &Inp, a: &Avail) -> bool {
    let leaf = |l: &Pol| match l {
        Pol::Hash(t, n) => a.pre.contains(&(*t, *n)),
        l => lock_met(tx, i, l),
    };
    match &inp.tr {
        None => inp.pol.sat(&leaf, &|k| a.keys.contains(&k)),
        Some(t) => {
            a.tap_key || t.leaves.iter().zip(&a.leaf_keys).any(|(l, ks)| l.pol.sat(&leaf, &|k| ks.contains(&k)))
        }
    }
}

pub fn tap_type(i: &Inp) -> TapSighashType { TapSighashType::from_consensus_u8(i.sighash.unwrap_or(0) as u8).unwrap() }
pub fn ecdsa_type(i: &Inp) -> bitcoin::EcdsaSighashType {
    bitcoin::EcdsaSighashType::from_standard(i.sighash.unwrap_or(1)).unwrap()
}

/// Real signatures for what is available. Types that cannot be computed (SIGHASH_SINGLE without an output) are taken
/// out of `a`.
pub fn fill(tx: &Transaction, prevouts: &[TxOut], i: usize, inp: &Inp, a: &mut Avail) -> Fill {
    let mut f = Fill::default();
    match &inp.tr {
        None => {
            for k in &a.keys {
                f.partial.insert(inp.pubkey(*k), scen::sign_ecdsa(tx, i, inp, *k, ecdsa_type(inp)));
            }
        }
        Some(t) => {
            let ty = tap_type(inp);
            if a.tap_key {
                f.tap_key = scen::sign_tap(tx, i, prevouts, t, t.internal, None, ty);
                a.tap_key = f.tap_key.is_some();
            }
            for (l, ks) in t.leaves.iter().zip(a.leaf_keys.iter_mut()) {
                ks.retain(|k| match scen::sign_tap(tx, i, prevouts, t, *k, Some(l), ty) {
                    Some(s) => {
                        f.tap_script.insert((keys().keys[*k].x, l.hash), s);
                        true
                    }
                    None => false,
                });
            }
        }
    }
    for (t, n) in &a.pre {
        f.pre.push((*t, *n, keys().preimages[*n].to_vec()));
    }
    f
}

pub struct Ready {
    pub s: Scen,
    pub tx: Transaction,
    pub prevouts: Vec<TxOut>,
    pub avail: Vec<Avail>,
    pub fills: Vec<Fill>,
    pub sat: Vec<bool>,
    /// Something wrong has been put in: no completeness is expected.
    pub junk: Vec<bool>,
}
impl Ready {
    pub fn all(&self) -> bool { self.sat.iter().all(|x| *x) }
    pub fn clean(&self) -> bool { self.junk.iter().all(|x| !*x) }
    pub fn v2(&self) -> v2::Psbt {
        let mut p = self.s.v2();
        for (i, f) in p.inputs.iter_mut().zip(&self.fills) {
            put!(i, f);
        }
        p
    }
    pub fn v0(&self) -> v0::bitcoin::Psbt {
        let mut p = self.s.v0();
        for (i, f) in p.inputs.iter_mut().zip(&self.fills) {
            put!(i, f);
        }
        p
    }
}

pub fn ready(r: &mut Rng, kinds: &[Kind], junk: bool) -> Ready {
    let mut s = finish_scen(r, kinds, true);
    if r.chance(1, 6) {
        // Relative lock times mean nothing then.
        s.version = r.below(2) as i32;
    }
    let tx = s.tx().unwrap();
    let prevouts = s.prevouts();
    let level = *r.pick(&[0usize, 0, 0, 1, 1, 2, 3]);
    let mut out = Ready { tx, prevouts, avail: vec![], fills: vec![], sat: vec![], junk: vec![], s };
    for (i, inp) in out.s.ins.iter().enumerate() {
        let mut a = avail(r, inp, level);
        let mut f = fill(&out.tx, &out.prevouts, i, inp, &mut a);
        let mut bad = false;
        if junk && r.chance(1, 2) {
            bad = spoil(r, inp, &mut f);
        }
        out.sat.push(satisfiable(&out.tx, i, inp, &a));
        out.avail.push(a);
        out.fills.push(f);
        out.junk.push(bad);
    }
    out
}

/// Damages signatures or preimages. Returns whether anything that a satisfaction could use changed.
fn spoil(r: &mut Rng, inp: &Inp, f: &mut Fill) -> bool {
    match r.below(8) {
        // A signature by the right key for something else.
        0 if !f.partial.is_empty() => {
            let n = r.below(f.partial.len());
            let e = f.partial.values_mut().nth(n).unwrap();
            e.signature = gen::ecdsa_sig(r).signature;
            true
        }
        1 if f.tap_key.is_some() => {
            f.tap_key.as_mut().unwrap().signature = gen::tap_sig(r).signature;
            true
        }
        2 if !f.tap_script.is_empty() => {
            let n = r.below(f.tap_script.len());
            f.tap_script.values_mut().nth(n).unwrap().signature = gen::tap_sig(r).signature;
            true
        }
        // Swapped signatures.
        3 if f.partial.len() > 1 => {
            let ks: Vec<_> = f.partial.keys().copied().collect();
            let x = f.partial[&ks[0]];
            let y = f.partial[&ks[1]];
            f.partial.insert(ks[0], y);
            f.partial.insert(ks[1], x);
            true
        }
        // A preimage of the wrong content or length.
        4 if !f.pre.is_empty() => {
            let n = r.below(f.pre.len());
            let l = *r.pick(&[0usize, 31, 32, 33, 64]);
            f.pre[n].2 = r.bytes(l);
            true
        }
        // A key path signature with the untweaked key.
        5 if inp.tr.is_some() => {
            f.tap_key = Some(gen::tap_sig(r));
            true
        }
        // Of no consequence: a stranger's signature.
        6 if inp.tr.is_none() => {
            let mut k = gen::pubkey(r);
            k.compressed = true;
            let mut s = gen::ecdsa_sig(r);
            s.sighash_type = ecdsa_type(inp);
            f.partial.insert(k, s);
            false
        }
        7 if inp.tr.is_some() => {
            let mut s = gen::tap_sig(r);
            s.sighash_type = tap_type(inp);
            f.tap_script.insert((gen::xonly(r), gen::leaf_hash(r)), s);
            false
        }
        _ => false,
    }
}

/// The finalized fields of each input, in a transaction.
fn with_finals(tx: &Transaction, finals: &[(Option<ScriptBuf>, Option<Witness>)]) -> Transaction {
    let mut t = tx.clone();
    for (i, (s, w)) in t.input.iter_mut().zip(finals) {
        i.script_sig = s.clone().unwrap_or_default();
        i.witness = w.clone().unwrap_or_default();
    }
    t
}

fn kinds_for(r: &mut Rng) -> Vec<Kind> {
    match r.below(4) {
        0 => vec![*r.pick(&ALL_KINDS)],
        1 => vec![Kind::Sh, Kind::Wsh, Kind::ShWsh, Kind::TrScript],
        _ => ALL_KINDS.to_vec(),
    }
}

/// Extra fields a finalizer has no use for.
fn garnish_v2(r: &mut Rng, p: &mut v2::Psbt) {
    p.global.unknowns.extend((0..r.below(2)).map(|_| gen::unknown(r)).collect::<Vec<_>>());
    p.global.proprietaries.extend((0..r.below(2)).map(|_| gen::proprietary(r)).collect::<Vec<_>>());
    for _ in 0..r.below(2) {
        p.global.xpubs.insert(gen::xpub(r), gen::key_source(r));
    }
    for i in p.inputs.iter_mut() {
        for _ in 0..r.below(3) {
            let (k, v) = gen::unknown(r);
            i.unknowns.insert(k, v);
            let (k, v) = gen::proprietary(r);
            i.proprietaries.insert(k, v);
        }
    }
    for o in p.outputs.iter_mut() {
        for _ in 0..r.below(2) {
            let (k, v) = gen::unknown(r);
            o.unknowns.insert(k, v);
            o.bip32_derivations.insert(gen::pk(r), gen::key_source(r));
        }
    }
}

#[derive(PartialEq, Clone, Copy)]
pub enum What {
    Sound,
    Complete,
    Retain,
}

/// C26 (Sound: what it makes is valid), C27 (Complete: all and only what can be satisfied), C28 (Retain).
pub fn v2_finalize(ctx: &Ctx, what: What) {
    ctx.rule("Scenarios over eleven output kinds with random miniscript policies (keys, multisig, hashes, absolute and relative locks, thresholds, taproot trees), real signatures for a random subset of keys, known or unknown preimages, met and unmet time locks, and damaged data; finalized by the Finalizer role. The result is judged by an independent script interpreter with its own signature hashes. Distinct: by serialized PSBT.");
    ctx.require("finalized", 300);
    match what {
        What::Sound => ctx.require("inputs_verified", 800),
        What::Complete => {
            ctx.require("refused", 300);
            ctx.require("satisfiable_inputs", 800);
        }
        What::Retain => ctx.require("retained_inputs", 500),
    }
    ctx.cases("finalize", 60_000, 480_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let kinds = kinds_for(r);
        let junk = match what {
            What::Sound => r.chance(1, 2),
            _ => r.chance(1, 8),
        };
        let rd = ready(r, &kinds, junk);
        let mut p = rd.v2();
        if r.bool() {
            garnish_v2(r, &mut p);
        }
        c.distinct(crate::rng::hash_bytes(&p.serialize()));
        let before = p.clone();
        let Some(f) = c.guard("Finalizer::new", || v2::Finalizer::new(p)) else { return };
        let f = match f {
            Ok(f) => f,
            Err(e) => {
                c.fail("finalizer:new", format!("{:?}: {}", rd.s.ins.iter().map(|i| (i.kind, i.sighash)).collect::<Vec<_>>(), e));
                return;
            }
        };
        let Some(res) = c.guard_with("Finalizer::finalize", || format!("{:?}", rd.s.ins.iter().zip(&rd.fills).map(|(i, f)| (i.kind, i.tr.as_ref().map(|t| t.leaves.iter().map(|l| l.pol.ms(true)).collect::<Vec<_>>()), i.pol.ms(false), f.tap_script.len())).collect::<Vec<_>>()), || f.finalize(secp())) else { return };
        match res {
            Err(e) => {
                c.count("refused");
                if rd.all() && rd.clean() {
                    let ks: Vec<_> = rd.s.ins.iter().map(|i| (i.kind, i.pol.ms(false))).collect();
                    let which = match &e {
                        v2::FinalizeError::FinalizeInput { input_index, .. } => format!("{:?}", rd.s.ins[*input_index].kind),
                        _ => "interpreter".into(),
                    };
                    c.fail(
                        format!("finalize:incomplete({})", which),
                        format!("all inputs can be satisfied, but: {:?}\n{:?}\n{:?}", e, ks, rd.s),
                    );
                }
            }
            Ok(q) => {
                c.count("finalized");
                let n = rd.s.ins.len();
                c.add("satisfiable_inputs", n as u64);
                for i in 0..n {
                    if what == What::Complete && !rd.sat[i] && !rd.junk[i] {
                        c.fail(
                            format!("finalize:not-satisfied({:?})", rd.s.ins[i].kind),
                            format!("input {} cannot be satisfied by what is there: {:?}\n{:?}\ntx {:?}", i, rd.s.ins[i], rd.avail[i], rd.tx),
                        );
                    }
                }
                match what {
                    What::Sound => {
                        let Some(e) = c.guard("Extractor::new", || v2::Extractor::new(q.clone())) else { return };
                        let Ok(e) = e else {
                            c.fail("finalize:not-extractable", format!("{:?}: {:?}", rd.s.ins.iter().map(|i| i.kind).collect::<Vec<_>>(), e.err()));
                            return;
                        };
                        let Some(Ok(tx)) = c.guard("extract", || e.extract_tx_unchecked_fee_rate()) else {
                            c.fail("finalize:extract-failed", "");
                            return;
                        };
                        let mut stripped = tx.clone();
                        for i in stripped.input.iter_mut() {
                            i.script_sig = ScriptBuf::new();
                            i.witness = Witness::new();
                        }
                        c.check(stripped == rd.tx, "finalize:other-transaction", || {
                            format!("extracted {:?}\nsigned {:?}", stripped, rd.tx)
                        });
                        for i in 0..n {
                            match interp::verify(&tx, i, &rd.prevouts) {
                                Ok(n) => {
                                    c.count("inputs_verified");
                                    c.count(&format!("verified:{:?}", rd.s.ins[i].kind));
                                    c.add("signatures_checked", n as u64);
                                }
                                Err(e) => c.fail(
                                    format!("finalize:invalid({:?})", rd.s.ins[i].kind),
                                    format!("input {}: {}\n{:?}\n{:?}", i, e, tx, rd.s.ins[i]),
                                ),
                            }
                        }
                    }
                    What::Complete => {}
                    What::Retain => retain_v2(c, &before, &q),
                }
            }
        }
    });
    if what == What::Complete {
        refusals(ctx)
    }
}

fn retain_v2(c: &mut Case, before: &v2::Psbt, q: &v2::Psbt) {
    c.check(q.global == before.global, "finalize:global", || format!("{:?}\n{:?}", before.global, q.global));
    c.check(q.outputs == before.outputs, "finalize:outputs", || format!("{:?}\n{:?}", before.outputs, q.outputs));
    for (i, (a, b)) in before.inputs.iter().zip(&q.inputs).enumerate() {
        let mut w = v2::Input::new(&bitcoin::OutPoint { txid: a.previous_txid, vout: a.spent_output_index });
        w.sequence = a.sequence;
        w.min_time = a.min_time;
        w.min_height = a.min_height;
        w.non_witness_utxo = a.non_witness_utxo.clone();
        w.witness_utxo = a.witness_utxo.clone();
        w.unknowns = a.unknowns.clone();
        w.proprietaries = a.proprietaries.clone();
        w.final_script_sig = b.final_script_sig.clone();
        w.final_script_witness = b.final_script_witness.clone();
        c.count("retained_inputs");
        for (ok, what) in [
            (w.sequence == b.sequence, "sequence"),
            (w.min_time == b.min_time && w.min_height == b.min_height, "lock-time"),
            (w.unknowns == b.unknowns, "unknowns"),
            (w.proprietaries == b.proprietaries, "proprietaries"),
            (w.non_witness_utxo == b.non_witness_utxo && w.witness_utxo == b.witness_utxo, "utxo"),
        ] {
            c.check(ok, &format!("finalize:lost-{}", what), || format!("input {}: {:?}\n{:?}", i, a, b));
        }
        // The rest must be gone.
        let mut x = b.clone();
        x.sequence = w.sequence;
        x.min_time = w.min_time;
        x.min_height = w.min_height;
        x.unknowns = w.unknowns.clone();
        x.proprietaries = w.proprietaries.clone();
        x.non_witness_utxo = w.non_witness_utxo.clone();
        x.witness_utxo = w.witness_utxo.clone();
        c.check(x == w, "finalize:not-cleared", || format!("input {}: {:?}", i, b));
        c.check(b.final_script_sig.is_some() && b.final_script_witness.is_some(), "finalize:not-final", || format!("input {}: {:?}", i, b));
    }
    let bytes = q.serialize();
    match c.guard("deserialize", || v2::Psbt::deserialize(&bytes)) {
        Some(Ok(x)) => {
            c.check(x == *q, "finalize:reparse-differs", || format!("{:?}\n{:?}", q, x));
        }
        Some(Err(e)) => c.fail("finalize:reparse", format!("{:?}", e)),
        None => {}
    }
}

/// What a finalizer has to refuse from the start.
fn refusals(ctx: &Ctx) {
    ctx.require("refusals", 300);
    ctx.cases("refuse", 15_000, 120_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let kinds = kinds_for(r);
        let rd = ready(r, &kinds, false);
        let mut p = rd.v2();
        let i = r.below(p.inputs.len());
        let inp = &rd.s.ins[i];
        let many = p.inputs.len();
        let x = &mut p.inputs[i];
        let what = match r.below(9) {
            7 if !x.partial_sigs.is_empty() => {
                // The signatures are good, but not what the input asks for.
                let t = *r.pick(&gen::ECDSA_TYPES);
                if x.partial_sigs.values().all(|s| s.sighash_type == t) {
                    return;
                }
                x.sighash_type = if t == bitcoin::EcdsaSighashType::All && r.bool() { None } else { Some(t.into()) };
                "sighash-type"
            }
            8 if many > 1 => {
                let j = (i + 1) % p.inputs.len();
                p.inputs[i].min_time = Some(gen::time(r));
                p.inputs[i].min_height = None;
                p.inputs[j].min_height = Some(gen::height(r));
                p.inputs[j].min_time = None;
                "no-lock-time"
            }
            0 => {
                x.witness_utxo = None;
                x.non_witness_utxo = None;
                "no-utxo"
            }
            1 if x.witness_utxo.is_none() => {
                x.non_witness_utxo.as_mut().unwrap().output.truncate(inp.vout as usize);
                "utxo-out-of-range"
            }
            2 if !x.partial_sigs.is_empty() => {
                let n = r.below(x.partial_sigs.len());
                let s = x.partial_sigs.values_mut().nth(n).unwrap();
                let t = *r.pick(&gen::ECDSA_TYPES);
                if t == s.sighash_type {
                    return;
                }
                s.sighash_type = t;
                "signature-type"
            }
            3 if inp.redeem.is_some() => {
                x.redeem_script = if r.bool() { None } else { Some(gen::script(r)) };
                if x.redeem_script == inp.redeem {
                    return;
                }
                "redeem-script"
            }
            4 if inp.wscript.is_some() => {
                x.witness_script = if r.bool() { None } else { Some(gen::script(r)) };
                if x.witness_script == inp.wscript {
                    return;
                }
                "witness-script"
            }
            5 if inp.kind == Kind::TrScript && x.tap_key_sig.is_none() => {
                x.tap_scripts.clear();
                "no-leaf"
            }
            6 if !x.partial_sigs.is_empty() => {
                x.partial_sigs.clear();
                if satisfiable(&rd.tx, i, inp, &Avail { keys: BTreeSet::new(), ..rd.avail[i].clone() }) {
                    return;
                }
                "no-signatures"
            }
            _ => return,
        };
        c.count("refusals");
        c.count(&format!("refused:{}", what));
        c.distinct(crate::rng::hash_bytes(&p.serialize()));
        let Some((ok, early)) = c.guard("Finalizer", || match v2::Finalizer::new(p) {
            Ok(f) => (f.finalize(secp()).is_ok(), false),
            Err(_) => (false, true),
        }) else {
            return;
        };
        c.check(!ok, &format!("finalize:accepted({})", what), || format!("input {} {:?}", i, inp));
        if matches!(what, "no-utxo" | "no-lock-time" | "sighash-type") {
            // Known at once.
            c.check(early, &format!("finalizer:accepted({})", what), || format!("input {} {:?}", i, inp));
        }
    });
}

/// Sequence numbers where something changes.
fn edge_sequence(r: &mut Rng) -> Sequence {
    let s = *r.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 2, 0, 1 << 31, 1 << 22, 0xffff, 0x40ffff, 0x8000_ffff, 0xffff_0000]);
    Sequence(s ^ *r.pick(&[0, 0, 0, 1]))
}

/// C29: the interpreter check of finalized v2 PSBTs.
pub fn interpreter_check(ctx: &Ctx) {
    ctx.rule("Finalized PSBTs, untouched or with final scripts, witnesses, amounts, outputs, sequences or lock times tampered with: Psbt::interpreter_check may pass only if an independent interpreter accepts every input, and must pass untouched ones. PSBTs that are not finalized or lack UTXOs must be refused without a panic. Distinct: by serialized PSBT.");
    ctx.require("passed", 300);
    ctx.require("tampered_refused", 300);
    ctx.require("unfinalized", 100);
    ctx.cases("check", 50_000, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let kinds = kinds_for(r);
        let rd = ready(r, &kinds, false);
        if !rd.all() {
            let p = rd.v2();
            c.count("unfinalized");
            let Some(res) = c.guard("interpreter_check", || p.interpreter_check(secp()).is_ok()) else { return };
            c.check(!res, "check:unfinalized-accepted", || format!("{:?}", p));
            return;
        }
        let Some(Ok(mut q)) = c.guard("finalize", || v2::Finalizer::new(rd.v2()).map_err(|_| ()).and_then(|f| f.finalize(secp()).map_err(|_| ())))
        else {
            return;
        };
        let mut prevouts = rd.prevouts.clone();
        let i = r.below(q.inputs.len());
        let what = match r.below(15) {
            0..=3 => "none",
            12 => {
                q.inputs[i].sequence = Some(edge_sequence(r));
                "sequence"
            }
            13 => {
                q.global.tx_version = bitcoin::transaction::Version(r.range(0, 2) as i32);
                "version"
            }
            14 => {
                let l = rd.tx.lock_time.to_consensus_u32();
                let v = *r.pick(&[0, 499_999_999, 500_000_000, u32::MAX, l.wrapping_sub(1), l.wrapping_add(1)]);
                q.global.fallback_lock_time = Some(bitcoin::absolute::LockTime::from_consensus(v));
                "fallback"
            }
            4 => {
                let w = q.inputs[i].final_script_witness.clone().unwrap_or_default();
                let mut v = w.to_vec();
                if v.is_empty() {
                    return;
                }
                let j = r.below(v.len());
                match r.below(4) {
                    0 => drop(v.remove(j)),
                    1 => v[j] = vec![],
                    2 => v.push(vec![1]),
                    _ if !v[j].is_empty() => {
                        let k = r.below(v[j].len());
                        v[j][k] ^= 1 << r.below(8);
                    }
                    _ => v.swap(0, j),
                }
                q.inputs[i].final_script_witness = Some(Witness::from_slice(&v));
                "witness"
            }
            5 => {
                let s = q.inputs[i].final_script_sig.clone().unwrap_or_default();
                let mut v = s.to_bytes();
                if v.is_empty() {
                    v.push(0x51);
                } else {
                    let k = r.below(v.len());
                    v[k] ^= 1 << r.below(8);
                }
                q.inputs[i].final_script_sig = Some(ScriptBuf::from(v));
                "script-sig"
            }
            6 if !q.outputs.is_empty() => {
                let j = r.below(q.outputs.len());
                q.outputs[j].amount = Amount::from_sat(q.outputs[j].amount.to_sat() ^ 1);
                "amount"
            }
            7 => {
                q.inputs[i].sequence = gen::opt(r, 6, gen::sequence);
                "sequence"
            }
            8 => {
                q.inputs[i].min_height = None;
                q.inputs[i].min_time = None;
                "lock-time"
            }
            9 => {
                if q.inputs[i].witness_utxo.is_none() || q.inputs[i].non_witness_utxo.is_some() {
                    return;
                }
                let u = q.inputs[i].witness_utxo.as_mut().unwrap();
                u.value = Amount::from_sat(u.value.to_sat() ^ 2);
                prevouts[i] = u.clone();
                "utxo-value"
            }
            10 => {
                q.inputs[i].witness_utxo = None;
                q.inputs[i].non_witness_utxo = None;
                "no-utxo"
            }
            _ => {
                if r.bool() {
                    q.inputs[i].final_script_sig = None;
                } else {
                    q.inputs[i].final_script_witness = None;
                }
                "not-final"
            }
        };
        c.distinct(crate::rng::hash_bytes(&q.serialize()));
        let Some(res) = c.guard("interpreter_check", || q.interpreter_check(secp())) else { return };
        if matches!(what, "no-utxo" | "not-final") {
            c.count("unfinalized");
            c.check(res.is_err(), &format!("check:{}-accepted", what), || format!("{:?}", q));
            return;
        }
        // The transaction these fields make.
        let mut s = rd.s.clone();
        for (a, b) in s.ins.iter_mut().zip(&q.inputs) {
            a.seq = b.sequence;
            a.min_height = b.min_height.map(|h| h.to_consensus_u32());
            a.min_time = b.min_time.map(|h| h.to_consensus_u32());
        }
        for (a, b) in s.outs.iter_mut().zip(&q.outputs) {
            a.value = b.amount;
        }
        s.version = q.global.tx_version.0;
        if what == "fallback" {
            s.fallback = q.global.fallback_lock_time;
        }
        let Some(t) = s.tx() else {
            c.check(res.is_err(), "check:no-lock-time-accepted", || format!("{:?}", q));
            return;
        };
        let finals: Vec<_> = q.inputs.iter().map(|i| (i.final_script_sig.clone(), i.final_script_witness.clone())).collect();
        let t = with_finals(&t, &finals);
        let bad: Option<(usize, String)> =
            (0..q.inputs.len()).find_map(|i| interp::verify(&t, i, &prevouts).err().map(|e| (i, e)));
        match (res, bad) {
            (Ok(()), None) => c.count("passed"),
            (Err(e), None) => {
                // Stricter than consensus is fine where it has been tampered with.
                c.check(what != "none", "check:refused-valid", || format!("{:?}\n{:?}", e, rd.s));
                c.count("stricter");
            }
            (Err(_), Some(_)) => {
                c.count("tampered_refused");
                c.count(&format!("tampered:{}", what));
            }
            (Ok(()), Some((i, e))) => c.fail(
                format!("check:invalid-accepted({},{:?})", what, rd.s.ins[i].kind),
                format!("input {}: {}\n{:?}\n{:?}", i, e, t, rd.s.ins[i]),
            ),
        }
    });
}

/// C34: the v0 finalizer, through every entry point.
/// The entry points of the version 0 finalizer, by number.
#[allow(deprecated)]
fn finalize_by(mut p: v0::bitcoin::Psbt, entry: usize, one: usize) -> (v0::bitcoin::Psbt, Vec<v0m::Error>) {
    match entry {
        0 => {
            let e = p.finalize_mut(secp()).err().unwrap_or_default();
            (p, e)
        }
        1 => match p.finalize(secp()) {
            Ok(p) => (p, vec![]),
            Err((p, e)) => (p, e),
        },
        2 => {
            let e = p.finalize_mall_mut(secp()).err().unwrap_or_default();
            (p, e)
        }
        3 => match p.finalize_mall(secp()) {
            Ok(p) => (p, vec![]),
            Err((p, e)) => (p, e),
        },
        4 => {
            let e = p.finalize_inp_mut(secp(), one).err().into_iter().collect();
            (p, e)
        }
        5 => match p.finalize_inp(secp(), one) {
            Ok(p) => (p, vec![]),
            Err((p, e)) => (p, vec![e]),
        },
        6 => {
            let e = p.finalize_inp_mall_mut(secp(), one).err().into_iter().collect();
            (p, e)
        }
        7 => match p.finalize_inp_mall(secp(), one) {
            Ok(p) => (p, vec![]),
            Err((p, e)) => (p, vec![e]),
        },
        8 => {
            let e = v0m::finalize(&mut p, secp()).err().into_iter().collect();
            (p, e)
        }
        _ => {
            let e = v0m::finalize_mall(&mut p, secp()).err().into_iter().collect();
            (p, e)
        }
    }
}

pub fn v0_finalize(ctx: &Ctx) {
    ctx.rule("As for version 2, through every entry point of PsbtExt and the free functions, malleable and not, whole and per input; then extracted. Inputs that cannot be finalized must be left exactly as they were and reported. Distinct: by serialized PSBT and entry point.");
    ctx.require("finalized_inputs", 1000);
    ctx.require("refused_inputs", 300);
    ctx.require("extracted", 200);
    ctx.require("refused:sighash-type", 500);
    // Good signatures, of another type than the input asks for.
    ctx.cases("sighash-type", 10_000, 80_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let kinds = kinds_for(r);
        let rd = ready(r, &kinds, false);
        let mut p = rd.v0();
        let n = p.inputs.len();
        let one = r.below(n);
        let x = &mut p.inputs[one];
        let t = *r.pick(&gen::ECDSA_TYPES);
        if x.partial_sigs.values().all(|s| s.sighash_type == t) {
            return;
        }
        let implied = t == bitcoin::EcdsaSighashType::All && r.bool();
        x.sighash_type = if implied { None } else { Some(t.into()) };
        let before = p.clone();
        // Only the free functions take a missing type for ALL.
        let entry = if implied { r.range(8, 9) } else { r.below(10) };
        c.distinct(crate::rng::hash_bytes(&p.serialize()) ^ entry as u64);
        let Some((p, errs)) = c.guard("finalize", || finalize_by(p, entry, one)) else { return };
        c.count("refused:sighash-type");
        let same = p.inputs[one] == before.inputs[one];
        c.check(same && !errs.is_empty(), "v0fin:sighash-type", || {
            format!("entry {}: input {} asks for {:?}, errors {:?}\n{:?}", entry, one, before.inputs[one].sighash_type, errs, before)
        });
    });
    ctx.cases("finalize", 60_000, 480_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let kinds = kinds_for(r);
        let junk = r.chance(1, 5);
        let rd = ready(r, &kinds, junk);
        let mut p = rd.v0();
        for i in p.inputs.iter_mut() {
            if r.chance(1, 3) {
                let (k, v) = gen::v0_unknown(r);
                i.unknown.insert(k, v);
                let (k, v) = gen::v0_proprietary(r);
                i.proprietary.insert(k, v);
            }
        }
        let before = p.clone();
        let n = p.inputs.len();
        let one = r.below(n);
        let entry = r.below(10);
        c.distinct(crate::rng::hash_bytes(&p.serialize()) ^ entry as u64);
        let names = [
            "finalize_mut",
            "finalize",
            "finalize_mall_mut",
            "finalize_mall",
            "finalize_inp_mut",
            "finalize_inp",
            "finalize_inp_mall_mut",
            "finalize_inp_mall",
            "finalize_free",
            "finalize_mall_free",
        ];
        let mall = matches!(entry, 2 | 3 | 6 | 7 | 9);
        let name = names[entry];
        let Some((p, errs)) = c.guard(name, || finalize_by(p, entry, one)) else {
            return;
        };
        c.count(name);
        c.check(p.unsigned_tx == before.unsigned_tx && p.outputs == before.outputs && p.xpub == before.xpub
            && p.unknown == before.unknown && p.proprietary == before.proprietary && p.inputs.len() == n,
            "v0fin:other-parts", || format!("{:?}\n{:?}", before, p));
        let whole = !(4..8).contains(&entry);
        let mut open = 0;
        for i in 0..n {
            let (a, b) = (&before.inputs[i], &p.inputs[i]);
            let inp = &rd.s.ins[i];
            let kind = format!("{:?}", inp.kind);
            let asked = whole || i == one;
            let done = b.final_script_sig.is_some() || b.final_script_witness.is_some();
            if !done {
                c.check(a == b, "v0fin:changed-unfinalized", || format!("{} input {}: {:?}\n{:?}", name, i, a, b));
                if asked {
                    open += 1;
                    c.count("refused_inputs");
                    // The free functions stop at the first input that fails.
                    let simple = inp.tr.is_none() && (!inp.key_ids().is_empty()
                        && !matches!(inp.kind, Kind::Sh | Kind::Wsh | Kind::ShWsh)) || rd.avail[i].tap_key;
                    if rd.sat[i] && !rd.junk[i] && (mall || simple) && (entry < 8 || entry == 9 && rd.all() && rd.clean()) {
                        c.fail(
                            format!("v0fin:incomplete({},{})", kind, if mall { "mall" } else { "nonmall" }),
                            format!("{} input {} can be satisfied, but {:?}\n{:?}\n{:?}", name, i, errs, inp, rd.avail[i]),
                        );
                    }
                }
                continue;
            }
            if !asked {
                c.fail("v0fin:finalized-unasked", format!("{} of input {} finalized {}", name, one, i));
                continue;
            }
            c.count("finalized_inputs");
            if !rd.sat[i] && !rd.junk[i] {
                c.fail(format!("v0fin:not-satisfied({})", kind), format!("{} input {}: {:?} {:?}", name, i, inp, rd.avail[i]));
            }
            let mut t = rd.tx.clone();
            t.input[i].script_sig = b.final_script_sig.clone().unwrap_or_default();
            t.input[i].witness = b.final_script_witness.clone().unwrap_or_default();
            if let Err(e) = interp::verify(&t, i, &rd.prevouts) {
                c.fail(format!("v0fin:invalid({})", kind), format!("{} input {}: {}\n{:?}\n{:?}", name, i, e, t, inp));
            } else {
                c.count(&format!("verified:{}", kind));
            }
            let mut w = v0::bitcoin::Input {
                non_witness_utxo: a.non_witness_utxo.clone(),
                witness_utxo: a.witness_utxo.clone(),
                final_script_sig: b.final_script_sig.clone(),
                final_script_witness: b.final_script_witness.clone(),
                ..Default::default()
            };
            c.check(a.unknown == b.unknown && a.proprietary == b.proprietary, "v0fin:lost-unknown", || format!("{:?}\n{:?}", a, b));
            w.unknown = b.unknown.clone();
            w.proprietary = b.proprietary.clone();
            c.check(w == *b, "v0fin:not-cleared", || format!("{:?}\n{:?}", a, b));
        }
        c.check((open == 0) == errs.is_empty(), "v0fin:report", || format!("{}: {} inputs open, errors {:?}", name, open, errs));
        if (0..4).contains(&entry) {
            c.check(errs.len() == open, "v0fin:report-count", || format!("{}: {} inputs open, errors {:?}", name, open, errs));
        }
        // Extraction.
        let all = p.inputs.iter().all(|b| b.final_script_sig.is_some() || b.final_script_witness.is_some());
        let Some(res) = c.guard("extract", || p.extract(secp())) else { return };
        match res {
            Ok(tx) => {
                c.count("extracted");
                let finals: Vec<_> = p.inputs.iter().map(|i| (i.final_script_sig.clone(), i.final_script_witness.clone())).collect();
                let w = with_finals(&rd.tx, &finals);
                c.check(all, "v0fin:extracted-unfinalized", || format!("{:?}", p));
                c.check(w == tx, "v0fin:extracted-other", || format!("{:?}\n{:?}", w, tx));
            }
            Err(e) => {
                c.check(!all, "v0fin:not-extracted", || format!("{:?}\n{:?}", e, p));
            }
        }
        if r.chance(1, 8) {
            // An index out of range.
            let k = n + r.below(3);
            let mut q = before.clone();
            let Some(ok) = c.guard("finalize_inp", || {
                q.finalize_inp_mut(secp(), k).is_ok() || q.finalize_inp_mall_mut(secp(), k).is_ok()
                    || q.clone().finalize_inp(secp(), k).is_ok() || q.clone().finalize_inp_mall(secp(), k).is_ok()
            }) else {
                return;
            };
            c.check(!ok && q == before, "v0fin:index", || format!("index {} of {} accepted", k, n));
        }
        // A tampered finalized PSBT must not be extracted.
        if all && r.bool() {
            let mut q = p.clone();
            let i = r.below(n);
            match r.below(7) {
                4 => q.unsigned_tx.input[i].sequence = edge_sequence(r),
                5 => q.unsigned_tx.version = bitcoin::transaction::Version(r.range(0, 2) as i32),
                6 => {
                    let l = q.unsigned_tx.lock_time.to_consensus_u32();
                    let v = *r.pick(&[0, 499_999_999, 500_000_000, u32::MAX, l.wrapping_sub(1), l.wrapping_add(1)]);
                    q.unsigned_tx.lock_time = bitcoin::absolute::LockTime::from_consensus(v);
                }
                0 if !q.unsigned_tx.output.is_empty() => {
                    let j = r.below(q.unsigned_tx.output.len());
                    let o = &mut q.unsigned_tx.output[j];
                    o.value = Amount::from_sat(o.value.to_sat() ^ 1);
                }
                1 => q.unsigned_tx.input[i].sequence = gen::sequence(r),
                2 => {
                    let mut v = q.inputs[i].final_script_witness.clone().unwrap_or_default().to_vec();
                    if v.is_empty() {
                        return;
                    }
                    let j = r.below(v.len());
                    if v[j].is_empty() {
                        v[j] = vec![1];
                    } else {
                        let k = r.below(v[j].len());
                        v[j][k] ^= 1 << r.below(8);
                    }
                    q.inputs[i].final_script_witness = Some(Witness::from_slice(&v));
                }
                _ => {
                    q.inputs[i].final_script_sig = None;
                    q.inputs[i].final_script_witness = None;
                }
            }
            let finals: Vec<_> = q.inputs.iter().map(|i| (i.final_script_sig.clone(), i.final_script_witness.clone())).collect();
            let t = with_finals(&q.unsigned_tx, &finals);
            let bad = (0..n).find_map(|i| interp::verify(&t, i, &rd.prevouts).err());
            let Some(res) = c.guard("extract", || q.extract(secp()).is_ok()) else { return };
            let Some(chk) = c.guard("interpreter_check", || v0m::interpreter_check(&q, secp()).is_ok()) else { return };
            if let Some(e) = bad {
                c.count("tampered");
                c.check(!res && !chk, "v0fin:tampered-extracted", || format!("{}: {:?}", e, q));
            }
        }
    });
}

/// C28 / C33: extraction and fees.
pub fn extract(ctx: &Ctx, v2_side: bool) {
    ctx.rule("PSBTs with arbitrary final scripts and witnesses and amounts around the fee limits, extracted through every entry point; the transaction, the fee and the fee rate decision are compared with a reference computation in wide integers. Distinct: by serialized PSBT.");
    ctx.require("extracted", 500);
    ctx.require("fee_refused", 200);
    ctx.require("negative_fee", 100);
    ctx.require("unfinalized", 100);
    ctx.cases("extract", 72_000, 576_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut s = finish_scen(r, &[Kind::Wpkh, Kind::Pkh, Kind::TrKey, Kind::Wsh], true);
        if r.chance(1, 3) {
            s.version = *r.pick(&[2, 3, i32::MAX]);
        }
        let tx = s.tx().unwrap();
        let n = s.ins.len();
        let mut finals: Vec<(ScriptBuf, Witness)> = (0..n).map(|_| (gen::script(r), gen::witness(r))).collect();
        if !v2_side {
            // Without any script or witness a version 0 input does not count.
            for f in finals.iter_mut() {
                if r.chance(1, 10) {
                    f.0 = ScriptBuf::new();
                }
            }
        }
        let open = r.chance(1, 10).then(|| r.below(n));
        let lost = r.chance(1, 10).then(|| r.below(n));
        let f: Vec<_> = finals.iter().cloned().map(|(a, b)| (Some(a), Some(b))).collect();
        let mut want = with_finals(&tx, &f);
        // Amounts: mostly near a limit.
        let weight = want.weight().to_wu();
        let outsum = |s: &Scen| s.outs.iter().map(|o| o.value.to_sat() as u128).sum::<u128>();
        let rate = match r.below(4) {
            0 => FeeRate::from_sat_per_vb(25_000).unwrap(),
            1 => FeeRate::from_sat_per_kwu(r.below(1 << 20) as u64),
            2 => FeeRate::from_sat_per_kwu(0),
            _ => FeeRate::from_sat_per_vb(r.range(1, 30_000) as u64).unwrap(),
        };
        let fee: u64 = match r.below(7) {
            0 => r.below(1 << 30) as u64,
            1 => 0,
            2 => r.below(1 << 50) as u64,
            // More than a rate can be computed from in 64 bits.
            3 => {
                let shift = r.below(12);
                r.u64() >> shift
            }
            _ => {
                let x = rate.to_sat_per_kwu() as u128 * weight as u128 / 1000;
                (x as u64).saturating_add(r.below(5) as u64).saturating_sub(2)
            }
        };
        let total = (outsum(&s) as u64).saturating_add(fee);
        let negative = r.chance(1, 10) && outsum(&s) > 0;
        let total = if negative { r.below(outsum(&s) as usize) as u64 } else { total };
        let mut left = total;
        for (k, i) in s.ins.iter_mut().enumerate() {
            let x = if k == n - 1 { left } else if n > 8 { left / (n - k) as u64 } else { left / 2 };
            left -= x;
            i.prev.output[i.vout as usize].value = Amount::from_sat(x);
        }
        // New outpoints: the previous transactions changed.
        let tx = s.tx().unwrap();
        want.input.iter_mut().zip(&tx.input).for_each(|(a, b)| a.previous_output = b.previous_output);
        let fee_of = |rate: FeeRate| -> Result<(), &'static str> {
            if lost.is_some() {
                return Err("utxo");
            }
            let insum: u128 = s.ins.iter().map(|i| i.txout().value.to_sat() as u128).sum();
            if insum < outsum(&s) {
                return Err("negative");
            }
            let fee = insum - outsum(&s);
            if (fee * 1000 / weight as u128).min(u64::MAX as u128) > rate.to_sat_per_kwu() as u128 {
                return Err("rate");
            }
            Ok(())
        };
        let insum: u128 = s.ins.iter().map(|i| i.txout().value.to_sat() as u128).sum();
        macro_rules! finish {
            ($e:expr, $rate:expr, $name:expr) => {{
                let Some(res) = c.guard($name, || $e) else { return };
                let w = fee_of($rate);
                match (&res, w) {
                    (Ok(t), Ok(())) => {
                        c.count("extracted");
                        c.check(*t == want, &format!("extract:transaction({})", $name), || format!("{:?}\n{:?}", t, want));
                    }
                    (Err(_), Err(k)) => {
                        match k {
                            "negative" => c.count("negative_fee"),
                            "rate" => c.count("fee_refused"),
                            _ => c.count("missing_utxo"),
                        };
                    }
                    (Ok(_), Err(k)) => c.fail(format!("extract:accepted({},{})", $name, k), format!("in {} out {} weight {} limit {:?}", insum, outsum(&s), weight, $rate)),
                    (Err(e), Ok(())) => c.fail(format!("extract:refused({})", $name), format!("in {} out {} weight {} limit {:?}: {:?}", insum, outsum(&s), weight, $rate, e)),
                }
            }};
        }
        let default = FeeRate::from_sat_per_vb(25_000).unwrap();
        if v2_side {
            let mut p = s.v2();
            for (x, (a, b)) in p.inputs.iter_mut().zip(&finals) {
                x.final_script_sig = Some(a.clone());
                x.final_script_witness = Some(b.clone());
            }
            if let Some(i) = lost {
                p.inputs[i].witness_utxo = None;
                p.inputs[i].non_witness_utxo = None;
                if r.bool() {
                    // A transaction without the output that is spent.
                    let mut t = s.ins[i].prev.clone();
                    t.output.truncate(s.ins[i].vout as usize);
                    p.inputs[i].non_witness_utxo = Some(t);
                }
            }
            if let Some(i) = open {
                if r.bool() {
                    p.inputs[i].final_script_sig = None;
                } else {
                    p.inputs[i].final_script_witness = None;
                }
            }
            c.distinct(crate::rng::hash_bytes(&p.serialize()));
            if let Some(got) = c.guard("fee", || p.fee()) {
                match (got, fee_of(FeeRate::MAX)) {
                    (Ok(f), Ok(())) => {
                        c.check(f.to_sat() as u128 == insum - outsum(&s), "extract:fee", || format!("{} in {} out {}", f, insum, outsum(&s)));
                    }
                    (Err(_), Err("utxo" | "negative")) => {}
                    (g, w) => c.fail("extract:fee-decision", format!("{:?} {:?} in {} out {}", g, w, insum, outsum(&s))),
                }
            }
            // Final is a PSBT all of whose inputs are.
            c.check(p.is_finalized() == open.is_none(), "extract:is-finalized", || format!("{:?}", open));
            let none = v2::Psbt { inputs: vec![], global: v2::Global { input_count: 0, ..p.global.clone() }, outputs: p.outputs.clone() };
            c.check(none.is_finalized(), "extract:is-finalized", || "no input is left to finalize".into());
            let Some(e) = c.guard("Extractor::new", || v2::Extractor::new(p)) else { return };
            if open.is_some() {
                c.count("unfinalized");
                c.check(e.is_err(), "extract:unfinalized", || "extractor accepted an unfinalized PSBT".into());
                return;
            }
            let e = match e {
                Ok(e) => e,
                Err(e) => {
                    c.fail("extract:new", format!("{:?}", e));
                    return;
                }
            };
            finish!(e.extract_tx(), default, "extract_tx");
            finish!(e.extract_tx_fee_rate_limit(), default, "extract_tx_fee_rate_limit");
            finish!(e.extract_tx_with_fee_rate_limit(rate), rate, "extract_tx_with_fee_rate_limit");
            // Errors say what is wrong.
            for (rate, res) in [(rate, e.extract_tx_with_fee_rate_limit(rate)), (default, e.extract_tx()), (default, e.extract_tx_fee_rate_limit())] {
                use v2::ExtractTxFeeRateError as E;
                let Err(err) = res else { continue };
                let ok = match (&err, fee_of(rate)) {
                    (E::Fee(psbt_v2::FeeError::FundingUtxo(_)), Err("utxo")) => true,
                    (E::Fee(psbt_v2::FeeError::Negative), Err("negative")) => true,
                    (E::FeeTooHigh { fee, max }, Err("rate")) => {
                        // The rate may be cut off where 64 bits end.
                        let w = (insum - outsum(&s)) * 1000;
                        *max == rate && (fee.to_sat_per_kwu() as u128 == w / weight as u128 || w > u64::MAX as u128 && fee.to_sat_per_kwu() >= u64::MAX / weight)
                    }
                    _ => false,
                };
                c.check(ok, "extract:error-kind", || format!("{:?}: in {} out {} weight {} limit {:?}", err, insum, outsum(&s), weight, rate));
            }
            if let Some(t) = c.guard("extract_tx_unchecked_fee_rate", || e.extract_tx_unchecked_fee_rate()) {
                c.check(t.as_ref().ok() == Some(&want), "extract:unchecked", || format!("{:?}\n{:?}", t, want));
            }
        } else {
            let mut p = s.v0();
            for (x, (a, b)) in p.inputs.iter_mut().zip(&finals) {
                x.final_script_sig = (!a.is_empty() || r.bool()).then(|| a.clone());
                x.final_script_witness = (!b.is_empty() || r.bool()).then(|| b.clone());
            }
            if let Some(i) = lost {
                p.inputs[i].witness_utxo = None;
                p.inputs[i].non_witness_utxo = None;
                if r.bool() {
                    // A transaction without the output that is spent.
                    let mut t = s.ins[i].prev.clone();
                    t.output.truncate(s.ins[i].vout as usize);
                    p.inputs[i].non_witness_utxo = Some(t);
                }
            }
            c.distinct(crate::rng::hash_bytes(&p.serialize()));
            if open.is_some() {
                c.count("unfinalized");
            }
            if let Some(got) = c.guard("fee", || p.fee()) {
                match (got, fee_of(FeeRate::MAX)) {
                    (Ok(f), Ok(())) => {
                        c.check(f.to_sat() as u128 == insum - outsum(&s), "extract:fee", || format!("{} in {} out {}", f, insum, outsum(&s)));
                    }
                    (Err(_), Err("utxo" | "negative")) => {}
                    (g, w) => c.fail("extract:fee-decision", format!("{:?} {:?} in {} out {}", g, w, insum, outsum(&s))),
                }
            }
            finish!(p.clone().extract_tx(), default, "extract_tx");
            finish!(p.clone().extract_tx_fee_rate_limit(), default, "extract_tx_fee_rate_limit");
            finish!(p.clone().extract_tx_with_fee_rate_limit(rate), rate, "extract_tx_with_fee_rate_limit");
            // Errors give back what they are about.
            if let Some(Err(e)) = c.guard("extract", || p.clone().extract_tx_with_fee_rate_limit(rate)) {
                use v0::bitcoin::ExtractTxError as E;
                let kind = match fee_of(rate) {
                    Err("utxo") => matches!(e, E::MissingInputValue { .. }),
                    Err("negative") => matches!(e, E::SendingTooMuch { .. }),
                    _ => matches!(e, E::AbsurdFeeRate { .. }),
                };
                c.check(kind, "extract:error-kind", || format!("{}: in {} out {} weight {} limit {:?}", e, insum, outsum(&s), weight, rate));
                match e {
                    E::AbsurdFeeRate { fee_rate, tx } => {
                        let x = (insum - outsum(&s)) * 1000;
                        let w = x / weight as u128;
                        // The rate may be cut off where 64 bits end.
                        let cut = x > u64::MAX as u128 && fee_rate.to_sat_per_kwu() >= u64::MAX / weight;
                        c.check(cut || fee_rate.to_sat_per_kwu() as u128 == w, "extract:absurd-rate", || format!("{} expected {}", fee_rate, w));
                        c.check(tx == want, "extract:absurd-tx", || format!("{:?}\n{:?}", tx, want));
                    }
                    E::MissingInputValue { tx } => {
                        c.check(lost.is_some() && tx == want, "extract:missing-tx", || format!("{:?}\n{:?}", tx, want));
                    }
                    E::SendingTooMuch { psbt } => {
                        c.check(insum < outsum(&s) && psbt == p, "extract:too-much", || format!("{:?}", psbt));
                    }
                    _ => {}
                }
            }
            if let Some(t) = c.guard("extract_tx_unchecked_fee_rate", || p.clone().extract_tx_unchecked_fee_rate()) {
                c.check(t == want, "extract:unchecked", || format!("{:?}\n{:?}", t, want));
            }
        }
    });
    ctx.require("overflow", 100);
    ctx.cases("overflow", 15_000, 120_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        // Sums that do not fit: an error, never a wrong fee. Also a UTXO that is not there in its transaction.
        let mut s = finish_scen(r, &[Kind::Wpkh, Kind::Pkh], false);
        let ins = r.bool();
        let short = r.chance(1, 3);
        // Each near the maximum, or a sum that is small again once it has wrapped.
        let wrap = r.bool();
        let n = if ins { s.ins.len() } else { s.outs.len() };
        let v: Vec<Amount> = (0..n)
            .map(|k| match (wrap, k) {
                (false, _) => u64::MAX - r.below(3) as u64,
                (true, 0) => u64::MAX - r.below(1000) as u64,
                _ => r.below(3000) as u64,
            })
            .map(Amount::from_sat)
            .collect();
        if ins {
            s.ins.iter_mut().zip(v).for_each(|(i, v)| i.prev.output[i.vout as usize].value = v);
        } else {
            s.outs.iter_mut().zip(v).for_each(|(o, v)| o.value = v);
        }
        let insum: u128 = s.ins.iter().map(|i| i.txout().value.to_sat() as u128).sum();
        let outsum: u128 = s.outs.iter().map(|o| o.value.to_sat() as u128).sum();
        let max = u64::MAX as u128;
        let want = (!short && insum <= max && outsum <= max && insum >= outsum).then(|| insum - outsum);
        c.count("overflow");
        c.distinct(r.u64());
        let got = if v2_side {
            let mut p = s.v2();
            if short {
                let v = s.ins[0].vout as usize;
                p.inputs[0].witness_utxo = None;
                p.inputs[0].non_witness_utxo = Some(s.ins[0].prev.clone());
                p.inputs[0].non_witness_utxo.as_mut().unwrap().output.truncate(v);
            }
            p.inputs.iter_mut().for_each(|i| {
                i.final_script_sig = Some(ScriptBuf::new());
                i.final_script_witness = Some(Witness::new());
            });
            let e = v2::Extractor::new(p.clone()).unwrap();
            c.guard("fee", || {
                let x = e.extract_tx().is_ok();
                (p.fee().map(|f| f.to_sat()).ok(), x)
            })
        } else {
            let mut p = s.v0();
            if short {
                let v = s.ins[0].vout as usize;
                p.inputs[0].witness_utxo = None;
                p.inputs[0].non_witness_utxo = Some(s.ins[0].prev.clone());
                p.inputs[0].non_witness_utxo.as_mut().unwrap().output.truncate(v);
            }
            c.guard("fee", || {
                let x = p.clone().extract_tx().is_ok();
                (p.fee().map(|f| f.to_sat()).ok(), x)
            })
        };
        if let Some((f, x)) = got {
            c.check(f.map(|f| f as u128) == want, "fee:overflow", || format!("fee {:?} expected {:?}: in {} out {}", f, want, insum, outsum));
            c.check(!x || want.is_some(), "fee:overflow-extracted", || format!("in {} out {}", insum, outsum));
        }
    });
}


/// C49: scripts that are missing, of something else, or of no use.
pub fn scripts(ctx: &Ctx) {
    ctx.rule("Inputs that could be finalized, one of which has a redeem or witness script taken away, replaced or added, or lacks the signature that tells its key; finalized by the version 2 Finalizer and every entry point of version 0. Refusals are compared with the one that the output kind calls for, and the other inputs with what they become alone. Distinct: by serialized PSBT and entry point.");
    ctx.require("refusals", 2000);
    for k in ["MissingRedeemScript", "InvalidRedeemScript", "MissingWitnessScript", "InvalidWitnessScript", "NonEmptyRedeemScript", "NonEmptyWitnessScript", "MissingPubkey"] {
        ctx.require(k, 100);
    }
    ctx.cases("scripts", 150_000, 1_200_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let kinds = kinds_for(r);
        let rd = ready(r, &kinds, false);
        if !rd.all() {
            c.count("not_ready");
            return;
        }
        let n = rd.s.ins.len();
        let at = r.below(n);
        let inp = &rd.s.ins[at];
        let spk = inp.txout().script_pubkey.clone();
        let wpkh = || ScriptBuf::new_p2wpkh(&bitcoin::CompressedPublicKey(gen::pool().pks[0]).wpubkey_hash());
        let other = match r.below(5) {
            0 => ScriptBuf::new(),
            1 => wpkh(),
            2 => gen::script(r),
            3 => spk.clone(),
            _ => {
                // Almost the right one.
                let x = if r.bool() { inp.redeem.clone() } else { inp.wscript.clone() };
                let mut x = x.unwrap_or_default().into_bytes();
                match r.below(3) {
                    0 => x.push(r.u8()),
                    1 => drop(x.pop()),
                    _ if !x.is_empty() => {
                        let k = r.below(x.len());
                        x[k] ^= 1 << r.below(8);
                    }
                    _ => {}
                }
                ScriptBuf::from(x)
            }
        };
        let (mut redeem, mut wscript) = (inp.redeem.clone(), inp.wscript.clone());
        let mut no_sigs = false;
        let bad_r = format!("InvalidRedeemScript {{ redeem: {:?}, p2sh_expected: {:?} }}", other, spk);
        let bad_w = |expected: &ScriptBuf| format!("InvalidWitnessScript {{ witness_script: {:?}, p2wsh_expected: {:?} }}", other, expected);
        let p2sh = spk.is_p2sh();
        let want: String = match (inp.kind, r.below(4)) {
            (Kind::Sh | Kind::ShWpkh | Kind::ShWsh, 0) => {
                redeem = None;
                "MissingRedeemScript".into()
            }
            (Kind::Sh | Kind::ShWpkh | Kind::ShWsh, 1) if p2sh && other.to_p2sh() != spk => {
                redeem = Some(other.clone());
                bad_r
            }
            (Kind::Wsh | Kind::ShWsh, 2) => {
                wscript = None;
                "MissingWitnessScript".into()
            }
            (Kind::Wsh, 3) if other.to_p2wsh() != spk => {
                wscript = Some(other.clone());
                bad_w(&spk)
            }
            (Kind::ShWsh, 3) if Some(other.to_p2wsh()) != redeem => {
                wscript = Some(other.clone());
                bad_w(redeem.as_ref().unwrap())
            }
            (Kind::Wsh | Kind::BareMulti, 0) => {
                redeem = Some(other.clone());
                "NonEmptyRedeemScript".into()
            }
            (Kind::Sh | Kind::BareMulti, 2) => {
                wscript = Some(other.clone());
                "NonEmptyWitnessScript".into()
            }
            (Kind::Pkh | Kind::PkhUncompressed | Kind::Wpkh | Kind::ShWpkh, 2 | 3) => {
                no_sigs = true;
                "MissingPubkey".into()
            }
            _ => {
                c.count("no_defect");
                return;
            }
        };
        let stranger = (gen::pk(r), gen::ecdsa_sig(r).signature, r.bool());
        macro_rules! damage {
            ($i:expr) => {{
                let i = $i;
                i.redeem_script = redeem.clone();
                i.witness_script = wscript.clone();
                if no_sigs {
                    i.partial_sigs.clear();
                    if stranger.2 {
                        let sig = ecdsa::Signature { signature: stranger.1, sighash_type: ecdsa_type(inp) };
                        i.partial_sigs.insert(PublicKey::new(stranger.0), sig);
                    }
                }
            }};
        }
        let name = want.split(' ').next().unwrap().to_string();
        let entry = r.below(11);
        c.count("refusals");
        c.count(&name);
        if entry == 10 {
            let mut p = rd.v2();
            damage!(&mut p.inputs[at]);
            c.distinct(crate::rng::hash_bytes(&p.serialize()));
            let Some(res) = c.guard("finalize", || v2::Finalizer::new(p).map(|f| f.finalize(secp()))) else { return };
            match res {
                Ok(Err(v2::FinalizeError::FinalizeInput { input_index, error: v2::FinalizeInputError::Final(e) })) => {
                    c.check(input_index == at && format!("{:?}", e) == want, &format!("scripts:error({})", name), || {
                        format!("input {} {:?}: {:?}, expected {} of input {}", input_index, inp.kind, e, want, at)
                    });
                }
                x => c.fail(format!("scripts:not-refused({})", name), format!("input {} {:?}: {:?}", at, inp.kind, x)),
            }
            return;
        }
        let mut p = rd.v0();
        // What the others become when there is nothing wrong. Without malleability this is the same for those
        // that offer no choice; a satisfied thresh() of all branches is a known finding of C34.
        let choice = |k: Kind| matches!(k, Kind::Sh | Kind::Wsh | Kind::ShWsh | Kind::TrKey | Kind::TrScript);
        let mall = match entry {
            0 | 1 | 4 | 5 => entry + 2,
            8 => 9,
            e => e,
        };
        let entry = if (0..n).any(|i| i != at && choice(rd.s.ins[i].kind)) { mall } else { entry };
        let Some((good, good_errs)) = c.guard("finalize", || finalize_by(p.clone(), mall, at)) else { return };
        damage!(&mut p.inputs[at]);
        let before = p.clone();
        c.distinct(crate::rng::hash_bytes(&p.serialize()) ^ entry as u64);
        let Some((p, errs)) = c.guard("finalize", || finalize_by(p, entry, at)) else { return };
        let mine: Vec<&v0m::Error> = errs.iter().filter(|e| matches!(e, v0m::Error::InputError(_, i) if *i == at)).collect();
        c.check(p.inputs[at] == before.inputs[at], &format!("scripts:not-refused({})", name), || format!("entry {} input {} {:?}: {:?}", entry, at, inp.kind, p.inputs[at]));
        let ok = matches!(&mine[..], [v0m::Error::InputError(e, _)] if format!("{:?}", e) == want);
        // The free functions stop at the first input that they cannot finalize.
        let first = entry >= 8 && !good_errs.is_empty();
        c.check(ok || first, &format!("scripts:error({})", name), || format!("entry {} {:?}: {:?}, expected {} of input {}", entry, inp.kind, errs, want, at));
        if entry < 8 {
            for i in (0..n).filter(|i| *i != at) {
                c.check(p.inputs[i] == good.inputs[i], "scripts:others", || format!("entry {} input {}: {:?}\n{:?}", entry, i, p.inputs[i], good.inputs[i]));
            }
        }
    });
}
