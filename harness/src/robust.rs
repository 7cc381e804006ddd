//! Drives every public operation over PSBTs of every origin, and monitors what holds for all of them at once: no panic
//! (C43, C44), errors that describe themselves (C40), no output (C41), the same answers each time and from both versions
//! (C45), and from every configuration (C46).
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::error::Error;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::process::{Command, Stdio};
use std::str::FromStr;

use bitcoin::bip32::Xpriv;
use bitcoin::secp256k1::{Secp256k1, Signing};
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::{transaction, FeeRate, PrivateKey, Transaction};
use miniscript::{DefiniteDescriptorKey, Descriptor};
use psbt_v2::v0::miniscript::{PsbtExt, PsbtInputExt, PsbtInputSatisfier, PsbtOutputExt};
use psbt_v2::{v0, v2};

use crate::codec;
use crate::ctx::{self, Case, Ctx, PanicInfo};
use crate::fin;
use crate::gen::{self, secp};
use crate::raw::hex;
use crate::rng::{hash_bytes, hash_str, Rng};
use crate::scen::{keys, Kind};
use crate::sign;
use crate::spec::Ver;

#[derive(Clone, Debug)]
pub struct ErrText {
    pub op: &'static str,
    pub debug: String,
    pub chain: Vec<String>,
    pub endless: bool,
    pub v0: bool,
}

#[derive(Default)]
pub struct Log {
    pub v0: bool,
    pub ops: Vec<(&'static str, String)>,
    pub errs: Vec<ErrText>,
    pub panics: Vec<(&'static str, PanicInfo)>,
}
impl Log {
    fn call<T>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> Option<T> {
        match ctx::catch(f) {
            Ok(t) => Some(t),
            Err(p) => {
                self.ops.push((op, format!("panic {}", p.msg)));
                self.panics.push((op, p));
                None
            }
        }
    }
    fn show(&mut self, op: &'static str, s: String) { self.ops.push((op, s)) }
    fn val<T: Debug>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> Option<T> {
        let t = self.call(op, f)?;
        self.show(op, format!("{:?}", t));
        Some(t)
    }
    fn res<T, E: Error>(&mut self, op: &'static str, f: impl FnOnce() -> Result<T, E>, show: impl FnOnce(&T) -> String) -> Option<T> {
        match self.call(op, f)? {
            Ok(t) => {
                if let Some(s) = self.call(op, || show(&t)) {
                    self.show(op, s);
                }
                Some(t)
            }
            Err(e) => {
                self.error(op, &e);
                None
            }
        }
    }
    fn error(&mut self, op: &'static str, e: &dyn Error) {
        let v0 = self.v0;
        let got = self.call(op, || {
            let debug = format!("{:?}", e);
            let mut chain = vec![e.to_string()];
            let mut s = e.source();
            while let Some(x) = s {
                chain.push(x.to_string());
                if chain.len() > 40 {
                    break;
                }
                s = x.source();
            }
            ErrText { op, debug, endless: chain.len() > 40, chain, v0 }
        });
        if let Some(t) = got {
            self.ops.push((op, format!("error {} {}", t.debug, t.chain.join(" / "))));
            self.errs.push(t);
        }
    }
    fn digest(&self) -> u64 {
        let mut h = 0u64;
        for (o, s) in &self.ops {
            h = h.rotate_left(9) ^ hash_str(o) ^ hash_str(s).rotate_left(31);
        }
        h
    }
}

/// Answers every request, rightly or wrongly.
struct Reckless(u64);
impl Reckless {
    fn answer(&self, what: String) -> Result<Option<PrivateKey>, String> {
        let mut r = Rng::new(hash_str(&what) ^ self.0);
        match r.below(4) {
            0 => Ok(None),
            1 => Err(format!("refused {}", what.len())),
            _ => {
                let k = &keys().keys[r.below(32)];
                let mut p = k.privkey();
                p.compressed = r.bool();
                Ok(Some(p))
            }
        }
    }
}
impl v2::GetKey for Reckless {
    type Error = String;
    fn get_key<C: Signing>(&self, q: v2::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> { self.answer(format!("{:?}", q)) }
}
impl v0::bitcoin::GetKey for Reckless {
    type Error = String;
    fn get_key<C: Signing>(&self, q: v0::bitcoin::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> { self.answer(format!("{:?}", q)) }
}

fn ser(p: &v2::Psbt) -> String { hex(&p.serialize()) }
fn ser0(p: &v0::bitcoin::Psbt) -> String { hex(&p.serialize()) }
fn std_hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn tx_text(t: &Transaction) -> String { format!("{:?}", t) }

// ------------------------------------------------------------------------------------------------ where PSBTs come from

/// A PSBT that can be decoded, and how it was made.
pub fn any_v2(r: &mut Rng) -> (v2::Psbt, &'static str) {
    for _ in 0..20 {
        let (p, how) = match r.below(8) {
            0 => {
                let big = r.chance(1, 20);
                (gen::v2_psbt(r, big), "random")
            }
            1 => {
                let (b, _) = codec::hostile_bytes(r, Ver::V2);
                match ctx::catch(|| v2::Psbt::deserialize(&b)) {
                    Ok(Ok(p)) if gen::is_plain() && crate::config::touches_sp(&p.serialize()) => continue,
                    Ok(Ok(p)) => return (p, "hostile"),
                    _ => continue,
                }
            }
            2 => (fin::ready(r, &fin::ALL_KINDS, true).v2(), "ready"),
            3 | 4 => {
                // Fields of anything on inputs that make sense.
                let mut p = fin::ready(r, &fin::ALL_KINDS, true).v2();
                for i in p.inputs.iter_mut() {
                    graft_v2(r, i);
                }
                (p, "grafted")
            }
            5 => {
                let rd = fin::ready(r, &fin::ALL_KINDS, false);
                let p = rd.v2();
                let f = ctx::catch(|| v2::Finalizer::new(p.clone()).ok().and_then(|f| f.finalize(secp()).ok())).ok().flatten();
                let mut p = f.unwrap_or(p);
                if r.chance(1, 3) {
                    for i in p.inputs.iter_mut() {
                        graft_v2(r, i);
                    }
                }
                (p, "final")
            }
            6 => {
                let mut p = gen::v2_psbt(r, false);
                let rd = fin::ready(r, &fin::ALL_KINDS, true).v2();
                for i in rd.inputs {
                    p.inputs.push(i);
                }
                p.global.input_count = p.inputs.len();
                (p, "mixed")
            }
            _ => {
                let mut kinds = crate::scen::ECDSA_KINDS.to_vec();
                kinds.extend([Kind::TrKey, Kind::TrScript, Kind::PkhUncompressed]);
                let (s, d) = sign::signing_scen(r, &kinds, true);
                let mut p = s.v2();
                sign::damage_v2(&mut p, &d);
                (p, "signable")
            }
        };
        match ctx::catch(|| v2::Psbt::deserialize(&p.serialize())) {
            Ok(Ok(p)) => return (p, how),
            _ => continue,
        }
    }
    (fin::ready(r, &fin::ALL_KINDS, false).v2(), "ready")
}

fn graft_v2(r: &mut Rng, i: &mut v2::Input) {
    let g = gen::v2_input(r, 6);
    for _ in 0..r.below(3) {
        match r.below(16) {
            0 => i.witness_utxo = g.witness_utxo.clone(),
            1 => i.redeem_script = g.redeem_script.clone(),
            2 => i.witness_script = g.witness_script.clone(),
            3 => i.final_script_sig = g.final_script_sig.clone().or(Some(gen::script(r))),
            4 => i.final_script_witness = g.final_script_witness.clone().or(Some(gen::witness(r))),
            5 => i.partial_sigs.extend(g.partial_sigs.clone()),
            6 => i.tap_script_sigs.extend(g.tap_script_sigs.clone()),
            7 => i.tap_scripts.extend(g.tap_scripts.clone()),
            8 => i.tap_key_sig = g.tap_key_sig,
            9 => i.tap_internal_key = g.tap_internal_key,
            10 => i.bip32_derivations.extend(g.bip32_derivations.clone()),
            11 => {
                if let Some(u) = i.witness_utxo.as_mut() {
                    u.script_pubkey = gen::script(r);
                }
            }
            12 => i.sighash_type = Some(gen::sighash_type(r)),
            13 => {
                let n = r.below(5) as u32;
                if let Some(t) = i.non_witness_utxo.as_mut() {
                    t.output.truncate(n as usize);
                }
            }
            14 => i.sequence = Some(gen::sequence(r)),
            _ => {
                // A script of the right form with parts missing.
                let s = [i.witness_script.clone(), i.redeem_script.clone()].into_iter().flatten().next();
                if let Some(s) = s {
                    let mut b = s.to_bytes();
                    let n = r.below(b.len() + 1);
                    b.truncate(n);
                    i.witness_script = Some(b.into());
                }
            }
        }
    }
}

fn graft_v0(r: &mut Rng, i: &mut v0::bitcoin::Input) {
    let op = gen::outpoint(r);
    let g = gen::v0_input(r, 6, &op);
    for _ in 0..r.below(3) {
        match r.below(15) {
            0 => i.witness_utxo = g.witness_utxo.clone(),
            1 => i.redeem_script = g.redeem_script.clone(),
            2 => i.witness_script = g.witness_script.clone(),
            3 => i.final_script_sig = g.final_script_sig.clone().or(Some(gen::script(r))),
            4 => i.final_script_witness = g.final_script_witness.clone().or(Some(gen::witness(r))),
            5 => i.partial_sigs.extend(g.partial_sigs.clone()),
            6 => i.tap_script_sigs.extend(g.tap_script_sigs.clone()),
            7 => i.tap_scripts.extend(g.tap_scripts.clone()),
            8 => i.tap_key_sig = g.tap_key_sig,
            9 => i.tap_internal_key = g.tap_internal_key,
            10 => i.bip32_derivation.extend(g.bip32_derivation.clone()),
            11 => {
                if let Some(u) = i.witness_utxo.as_mut() {
                    u.script_pubkey = gen::script(r);
                }
            }
            12 => i.sighash_type = Some(gen::sighash_type(r)),
            13 => {
                let n = r.below(5);
                if let Some(t) = i.non_witness_utxo.as_mut() {
                    t.output.truncate(n);
                }
            }
            _ => {
                let s = [i.witness_script.clone(), i.redeem_script.clone()].into_iter().flatten().next();
                if let Some(s) = s {
                    let mut b = s.to_bytes();
                    let n = r.below(b.len() + 1);
                    b.truncate(n);
                    i.witness_script = Some(b.into());
                }
            }
        }
    }
}

pub fn any_v0(r: &mut Rng) -> (v0::bitcoin::Psbt, &'static str) {
    for _ in 0..20 {
        let (p, how) = match r.below(7) {
            0 => {
                let big = r.chance(1, 20);
                (gen::v0_psbt_of(r, big), "random")
            }
            1 => {
                let (b, _) = codec::hostile_bytes(r, Ver::V0);
                match ctx::catch(|| v0::bitcoin::Psbt::deserialize(&b)) {
                    Ok(Ok(p)) => return (p, "hostile"),
                    _ => continue,
                }
            }
            2 => (fin::ready(r, &fin::ALL_KINDS, true).v0(), "ready"),
            3 | 4 => {
                let mut p = fin::ready(r, &fin::ALL_KINDS, true).v0();
                for i in p.inputs.iter_mut() {
                    graft_v0(r, i);
                }
                (p, "grafted")
            }
            5 => {
                let p = fin::ready(r, &fin::ALL_KINDS, false).v0();
                let f = ctx::catch(|| p.clone().finalize_mall(secp()).ok()).ok().flatten();
                let mut p = f.unwrap_or(p);
                if r.chance(1, 3) {
                    for i in p.inputs.iter_mut() {
                        graft_v0(r, i);
                    }
                }
                (p, "final")
            }
            _ => {
                let mut kinds = crate::scen::ECDSA_KINDS.to_vec();
                kinds.extend([Kind::TrKey, Kind::TrScript, Kind::PkhUncompressed]);
                let (s, d) = sign::signing_scen(r, &kinds, true);
                let mut p = s.v0();
                sign::damage_v0(&mut p, &d);
                (p, "signable")
            }
        };
        match ctx::catch(|| v0::bitcoin::Psbt::deserialize(&p.serialize())) {
            Ok(Ok(p)) => return (p, how),
            _ => continue,
        }
    }
    (fin::ready(r, &fin::ALL_KINDS, false).v0(), "ready")
}

// ------------------------------------------------------------------------------------------------ the operations

/// What a run compares over builds with different features leaves out what a feature adds to.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Full,
    Portable,
}

pub fn ops_v2(r: &mut Rng, p: &v2::Psbt, other: &v2::Psbt, log: &mut Log, mode: Mode) {
    let n = p.inputs.len();
    if let Some(b) = log.call("serialize", || p.serialize()) {
        log.show("serialize", hex(&b));
        log.res("deserialize", || v2::Psbt::deserialize(&b), ser);
        let mut m = b.clone();
        // Damage can make a field of a feature.
        for _ in 0..if mode == Mode::Full { 3 } else { 0 } {
            let at = r.below(m.len().max(1));
            if let Some(x) = m.get_mut(at) {
                *x ^= 1 << r.below(8);
            }
            log.res("deserialize damaged", || v2::Psbt::deserialize(&m), ser);
        }
        log.res("deserialize as v0", || v0::bitcoin::Psbt::deserialize(&b), ser0);
    }
    log.val("serialize_hex", || p.serialize_hex());
    if let Some(s) = log.val("to_string", || p.to_string()) {
        log.res("from_str", || v2::Psbt::from_str(&s), ser);
        let cut = r.below(s.len() + 1);
        log.res("from_str cut", || v2::Psbt::from_str(&s[..cut]), ser);
    }
    if mode == Mode::Full {
        log.call("debug", || format!("{:?} {:#?}", p, p).len());
        log.call("hash", || std_hash(p));
        if let Some(s) = log.val("json", || serde_json::to_string(p).map_err(|e| e.to_string())).and_then(Result::ok) {
            log.call("from json", || serde_json::from_str::<v2::Psbt>(&s).map(|p| ser(&p)).map_err(|e| e.to_string()));
        }
    }
    log.call("eq", || p == other);
    log.res("determine_lock_time", || p.determine_lock_time(), |t| format!("{:?}", t));
    log.val("is_finalized", || p.is_finalized());
    if let Some(v) = log.call("iter_funding_utxos", || p.iter_funding_utxos().map(|u| u.cloned()).collect::<Vec<_>>()) {
        for u in v {
            log.res("iter_funding_utxos", || u, |u| format!("{:?}", u));
        }
    }
    log.res("fee", || p.fee(), |f| f.to_string());
    log.res("interpreter_check", || p.interpreter_check(secp()), |_| String::new());
    log.res("combine_with", || p.clone().combine_with(other.clone()), ser);
    log.res("combine", || v2::combine(other.clone(), p.clone()), ser);
    log.res("combine with itself", || v2::combine(p.clone(), p.clone()), ser);
    let mut g = p.global.clone();
    log.res("Global::combine", || g.combine(other.global.clone()), |_| String::new());
    for (a, b) in p.inputs.iter().zip(&other.inputs) {
        let mut a = a.clone();
        log.res("Input::combine", || a.combine(b.clone()), |_| String::new());
    }
    for (a, b) in p.outputs.iter().zip(&other.outputs) {
        let mut a = a.clone();
        log.res("Output::combine", || a.combine(b.clone()), |_| String::new());
    }
    for i in &p.inputs {
        log.res("funding_utxo", || i.funding_utxo(), |u| format!("{:?}", u));
        log.val("Input::is_finalized", || i.is_finalized());
        log.res("ecdsa_hash_ty", || i.ecdsa_hash_ty(), |t| format!("{:?} {}", t, t));
        log.res("taproot_hash_ty", || i.taproot_hash_ty(), |t| format!("{:?} {}", t, t));
    }
    for m in p.inputs.iter().map(|i| &i.proprietaries).chain(p.outputs.iter().map(|o| &o.proprietaries)) {
        for k in m.keys() {
            if let Some(x) = log.val("ProprietaryKey::to_key", || k.to_key()) {
                log.val("ProprietaryKey::try_from", || <psbt_v2::raw::ProprietaryKey>::try_from(x).map_err(|e| e.to_string()));
            }
        }
    }
    // Roles.
    macro_rules! constructor {
        ($t:ty, $name:expr, |$c:ident| $build:expr) => {
            for last in [false, true] {
                if let Some($c) = log.res($name, || <v2::Constructor<$t>>::new(p.clone()), |_| String::new()) {
                    if let Some(d) = log.call($name, || $build) {
                        if last {
                            log.res($name, || d.psbt(), ser);
                        } else {
                            log.res($name, || d.updater(), |u| ser(&u.clone().psbt()));
                        }
                    }
                }
            }
        };
    }
    let (gi, go) = (gen::v2_input(r, 2), gen::v2_output(r, 2));
    let how = r.below(8);
    constructor!(v2::Modifiable, "Constructor", |c| {
        let c = if how & 1 != 0 { c.input(gi.clone()) } else { c };
        let c = if how & 2 != 0 { c.output(go.clone()) } else { c };
        if how & 4 != 0 {
            c.no_more_inputs().no_more_outputs()
        } else {
            c
        }
    });
    constructor!(v2::InputsOnlyModifiable, "Constructor inputs", |c| {
        let c = if how & 1 != 0 { c.input(gi.clone()) } else { c };
        if how & 4 != 0 {
            c.no_more_inputs()
        } else {
            c
        }
    });
    constructor!(v2::OutputsOnlyModifiable, "Constructor outputs", |c| {
        let c = if how & 2 != 0 { c.output(go.clone()) } else { c };
        if how & 4 != 0 {
            c.no_more_outputs()
        } else {
            c
        }
    });
    if let Some(u) = log.res("Updater::new", || v2::Updater::new(p.clone()), |_| String::new()) {
        log.val("Updater::id", || u.id());
        let seq = gen::sequence(r);
        for i in [0, n.wrapping_sub(1), n, 1 << 8, 1 << 16, 1 << 32, usize::MAX] {
            let v = u.clone();
            log.res("set_sequence", || v.set_sequence(seq, i), |u| ser(&u.clone().psbt()));
        }
        log.call("Updater::psbt", || u.psbt());
    }
    let mut txs: Vec<Transaction> = vec![gen::tx(r)];
    if let Some(s) = log.res("Signer::new", || v2::Signer::new(p.clone()), |_| String::new()) {
        log.res("Signer::id", || s.id(), |i| i.to_string());
        if let Some(t) = log.call("Signer::unsigned_tx", || s.unsigned_tx()) {
            log.show("Signer::unsigned_tx", tx_text(&t));
            txs.push(t);
        }
        let seed = r.u64();
        let some: BTreeMap<_, _> = (0..8).map(|_| &keys().keys[r.below(32)]).map(|k| (k.pubkey(), k.privkey())).collect();
        let hm: HashMap<_, _> = some.clone().into_iter().collect();
        let x: &Xpriv = &keys().masters[r.below(4)];
        let mut done = |log: &mut Log, res: Option<sign::SignV2>| match res {
            Some(Ok((p, k))) => log.show("sign", format!("{} {:?}", ser(&p), k)),
            Some(Err((k, e))) => {
                log.show("sign", format!("{:?}", k));
                for e in e.values() {
                    log.error("sign", e);
                }
            }
            None => {}
        };
        let q = s.clone();
        let t = log.call("sign reckless", || q.sign(&Reckless(seed), secp()));
        done(log, t);
        let q = s.clone();
        let t = log.call("sign map", || q.sign(&some, secp()));
        done(log, t);
        let q = s.clone();
        let t = log.call("sign hashmap", || q.sign(&hm, secp()));
        done(log, t);
        let q = s.clone();
        let t = log.call("sign xpriv", || q.sign(x, secp()));
        done(log, t);
        let mut q = s.clone();
        for ty in [EcdsaSighashType::All, EcdsaSighashType::SinglePlusAnyoneCanPay, EcdsaSighashType::None] {
            log.call("ecdsa_clear_tx_modifiable", || q.ecdsa_clear_tx_modifiable(ty));
        }
        if let Some(q) = log.call("Signer::psbt", || q.psbt()) {
            log.show("Signer::psbt", ser(&q));
        }
    }
    for t in &txs {
        let mut cache = SighashCache::new(t);
        for i in (0..n).chain([n, 1 << 8, 1 << 16, 1 << 32, usize::MAX]) {
            log.res("sighash_ecdsa", || p.sighash_ecdsa(i, &mut cache), |m| format!("{:?}", m));
        }
    }
    if let Some(f) = log.res("Finalizer::new", || v2::Finalizer::new(p.clone()), |_| String::new()) {
        log.val("Finalizer::id", || f.id());
        if let Some(q) = log.res("finalize", || f.finalize(secp()), ser) {
            log.res("finalize twice", || v2::Finalizer::new(q.clone()), |_| String::new()).and_then(|f| log.res("finalize twice", || f.finalize(secp()), ser));
            extractor(r, &q, log);
        }
    }
    extractor(r, p, log);
}

fn extractor(r: &mut Rng, p: &v2::Psbt, log: &mut Log) {
    if let Some(x) = log.res("Extractor::new", || v2::Extractor::new(p.clone()), |_| String::new()) {
        log.val("Extractor::id", || x.id());
        log.res("extract_tx", || x.extract_tx(), tx_text);
        log.res("extract_tx_fee_rate_limit", || x.extract_tx_fee_rate_limit(), tx_text);
        let rate = *r.pick(&[FeeRate::ZERO, FeeRate::MAX, FeeRate::from_sat_per_kwu(250)]);
        log.res("extract_tx_with_fee_rate_limit", || x.extract_tx_with_fee_rate_limit(rate), tx_text);
        log.res("extract_tx_unchecked_fee_rate", || x.extract_tx_unchecked_fee_rate(), tx_text);
    }
}

fn some_descriptor(r: &mut Rng) -> Descriptor<DefiniteDescriptorKey> {
    let mut k = || keys().keys[r.below(32)].pk.to_string();
    let s = [
        format!("wpkh({})", k()),
        format!("sh(wpkh({}))", k()),
        format!("pkh({})", k()),
        format!("wsh(multi(1,{},{}))", k(), k()),
        format!("sh(wsh(pk({})))", k()),
        format!("tr({})", k()),
        format!("tr({},{{pk({}),pk({})}})", k(), k(), k()),
    ];
    Descriptor::from_str(r.pick(&s)).or_else(|_| Descriptor::from_str(&s[0])).unwrap()
}

pub fn ops_v0(r: &mut Rng, p: &v0::bitcoin::Psbt, other: &v0::bitcoin::Psbt, log: &mut Log, mode: Mode) {
    let n = p.inputs.len();
    if let Some(b) = log.call("serialize", || p.serialize()) {
        log.show("serialize", hex(&b));
        log.res("deserialize", || v0::bitcoin::Psbt::deserialize(&b), ser0);
        let mut m = b.clone();
        for _ in 0..3 {
            let at = r.below(m.len().max(1));
            if let Some(x) = m.get_mut(at) {
                *x ^= 1 << r.below(8);
            }
            log.res("deserialize damaged", || v0::bitcoin::Psbt::deserialize(&m), ser0);
        }
        log.res("deserialize as v2", || v2::Psbt::deserialize(&b), ser);
    }
    log.val("serialize_hex", || p.serialize_hex());
    if let Some(s) = log.val("to_string", || p.to_string()) {
        log.res("from_str", || v0::bitcoin::Psbt::from_str(&s), ser0);
        let cut = r.below(s.len() + 1);
        log.res("from_str cut", || v0::bitcoin::Psbt::from_str(&s[..cut]), ser0);
    }
    if mode == Mode::Full {
        log.call("debug", || format!("{:?} {:#?}", p, p).len());
        log.call("hash", || std_hash(p));
        if let Some(s) = log.val("json", || serde_json::to_string(p).map_err(|e| e.to_string())).and_then(Result::ok) {
            log.call("from json", || serde_json::from_str::<v0::bitcoin::Psbt>(&s).map(|p| ser0(&p)).map_err(|e| e.to_string()));
        }
    }
    log.call("eq", || p == other);
    if let Some(v) = log.call("iter_funding_utxos", || p.iter_funding_utxos().map(|u| u.cloned()).collect::<Vec<_>>()) {
        for u in v {
            log.res("iter_funding_utxos", || u, |u| format!("{:?}", u));
        }
    }
    log.res("fee", || p.fee(), |f| f.to_string());
    log.res("signer_checks", || p.signer_checks(), |_| String::new());
    for i in (0..n).chain([n, 1 << 8, 1 << 16, 1 << 32, usize::MAX]) {
        log.res("spend_utxo", || p.spend_utxo(i), |u| format!("{:?}", u));
    }
    let mut q = p.clone();
    log.res("combine", || q.combine(other.clone()), |_| String::new());
    log.show("combine", ser0(&q));
    let mut q = p.clone();
    log.res("combine with itself", || q.combine(p.clone()), |_| String::new());
    for (a, b) in p.inputs.iter().zip(&other.inputs) {
        let mut a = a.clone();
        log.call("Input::combine", || a.combine(b.clone()));
    }
    for (a, b) in p.outputs.iter().zip(&other.outputs) {
        let mut a = a.clone();
        log.call("Output::combine", || a.combine(b.clone()));
    }
    for i in &p.inputs {
        log.res("ecdsa_hash_ty", || i.ecdsa_hash_ty(), |t| format!("{:?} {}", t, t));
        log.res("taproot_hash_ty", || i.taproot_hash_ty(), |t| format!("{:?} {}", t, t));
        for k in i.proprietary.keys() {
            if let Some(x) = log.val("ProprietaryKey::to_key", || k.to_key()) {
                log.val("ProprietaryKey::try_from", || <v0::bitcoin::raw::ProprietaryKey>::try_from(x).map_err(|e| e.to_string()));
            }
        }
    }
    // Signing.
    let seed = r.u64();
    let some: BTreeMap<_, _> = (0..8).map(|_| &keys().keys[r.below(32)]).map(|k| (k.pubkey(), k.privkey())).collect();
    let x: &Xpriv = &keys().masters[r.below(4)];
    let how = r.below(3);
    let mut q = p.clone();
    let res = log.call("sign", || match how {
        0 => q.sign(&Reckless(seed), secp()),
        1 => q.sign(&some, secp()),
        _ => q.sign(x, secp()),
    });
    match res {
        Some(Ok(k)) => log.show("sign", format!("{:?}", k)),
        Some(Err((k, e))) => {
            log.show("sign", format!("{:?}", k));
            for e in e.values() {
                log.error("sign", e);
            }
        }
        None => {}
    }
    log.show("sign", ser0(&q));
    // Hashes.
    let other_tx = gen::tx(r);
    for t in [&p.unsigned_tx, &other_tx] {
        let mut cache = SighashCache::new(t);
        for i in (0..n).chain([n, 1 << 8, 1 << 16, 1 << 32, usize::MAX]) {
            log.res("sighash_ecdsa", || p.sighash_ecdsa(i, &mut cache), |m| format!("{:?}", m));
            log.res("sighash_msg", || p.sighash_msg(i, &mut cache, None), |m| format!("{:?}", m));
            let lh = gen::leaf_hash(r);
            log.res("sighash_msg leaf", || p.sighash_msg(i, &mut cache, Some(lh)), |m| format!("{:?}", m.to_secp_msg()));
        }
    }
    // Descriptors.
    let d = some_descriptor(r);
    for i in (0..n).chain([n, 1 << 8, 1 << 16, 1 << 32, usize::MAX]) {
        let mut q = p.clone();
        log.res("update_input_with_descriptor", || q.update_input_with_descriptor(i, &d), |_| String::new());
    }
    for i in (0..p.outputs.len()).chain([p.outputs.len(), 1 << 8, 1 << 16, 1 << 32, usize::MAX]) {
        let mut q = p.clone();
        log.res("update_output_with_descriptor", || q.update_output_with_descriptor(i, &d), |_| String::new());
    }
    for i in &p.inputs {
        let mut i = i.clone();
        log.res("Input::update_with_descriptor_unchecked", || i.update_with_descriptor_unchecked(&d), |d| d.to_string());
    }
    for o in &p.outputs {
        let mut o = o.clone();
        log.res("Output::update_with_descriptor_unchecked", || o.update_with_descriptor_unchecked(&d), |d| d.to_string());
    }
    // Finalizing and extracting.
    macro_rules! many {
        ($name:expr, |$q:ident| $e:expr) => {{
            let mut $q = p.clone();
            match log.call($name, || $e) {
                Some(Err(es)) => {
                    for e in &es {
                        log.error($name, e);
                    }
                }
                _ => {}
            }
            log.show($name, ser0(&$q));
            extract_v0(r, &$q, log);
        }};
    }
    many!("finalize_mut", |q| q.finalize_mut(secp()));
    many!("finalize_mall_mut", |q| q.finalize_mall_mut(secp()));
    if let Some(Err((_, es))) = log.call("finalize", || p.clone().finalize(secp())) {
        es.iter().for_each(|e| log.error("finalize", e));
    }
    if let Some(Err((_, es))) = log.call("finalize_mall", || p.clone().finalize_mall(secp())) {
        es.iter().for_each(|e| log.error("finalize_mall", e));
    }
    for i in (0..n).chain([n, 1 << 8, 1 << 16, 1 << 32, usize::MAX]) {
        let mut q = p.clone();
        log.res("finalize_inp_mut", || q.finalize_inp_mut(secp(), i), |_| String::new());
        let mut q = p.clone();
        log.res("finalize_inp_mall_mut", || q.finalize_inp_mall_mut(secp(), i), |_| String::new());
        if let Some(Err((_, e))) = log.call("finalize_inp", || p.clone().finalize_inp(secp(), i)) {
            log.error("finalize_inp", &e);
        }
        if let Some(Err((_, e))) = log.call("finalize_inp_mall", || p.clone().finalize_inp_mall(secp(), i)) {
            log.error("finalize_inp_mall", &e);
        }
    }
    #[allow(deprecated)]
    {
        let mut q = p.clone();
        log.res("finalize free", || psbt_v2::v0::miniscript::finalize(&mut q, secp()), |_| String::new());
        let mut q = p.clone();
        log.res("finalize_mall free", || psbt_v2::v0::miniscript::finalize_mall(&mut q, secp()), |_| String::new());
    }
    extract_v0(r, p, log);
    for i in 0..n {
        use miniscript::Satisfier;
        log.call("PsbtInputSatisfier", || {
            let s = PsbtInputSatisfier::new(p, i);
            let k = keys().keys[i % 32].pubkey();
            let _ = <PsbtInputSatisfier as Satisfier<bitcoin::PublicKey>>::lookup_ecdsa_sig(&s, &k);
            let _ = <PsbtInputSatisfier as Satisfier<bitcoin::PublicKey>>::lookup_tap_key_spend_sig(&s);
            let _ = <PsbtInputSatisfier as Satisfier<bitcoin::PublicKey>>::lookup_tap_control_block_map(&s).map(|m| m.len());
            let _ = <PsbtInputSatisfier as Satisfier<bitcoin::PublicKey>>::check_older(&s, bitcoin::relative::LockTime::from_height(3));
            let _ = <PsbtInputSatisfier as Satisfier<bitcoin::PublicKey>>::check_after(&s, bitcoin::absolute::LockTime::from_consensus(3));
        });
    }
    if n > 0 {
        let i = r.below(n);
        log.res("compose", || v0::bitcoin::Psbt::from_unsigned_tx(other_tx.clone()), ser0);
        let mut t = p.unsigned_tx.clone();
        t.version = transaction::Version(1);
        t.input[i].sequence = bitcoin::Sequence(5);
        log.res("from_unsigned_tx", || v0::bitcoin::Psbt::from_unsigned_tx(t), ser0);
    }
}

fn extract_v0(r: &mut Rng, p: &v0::bitcoin::Psbt, log: &mut Log) {
    log.res("extract", || p.extract(secp()), tx_text);
    log.res("interpreter_check v0", || psbt_v2::v0::miniscript::interpreter_check(p, secp()), |_| String::new());
    log.res("extract_tx", || p.clone().extract_tx(), tx_text);
    log.res("extract_tx_fee_rate_limit", || p.clone().extract_tx_fee_rate_limit(), tx_text);
    let rate = *r.pick(&[FeeRate::ZERO, FeeRate::MAX, FeeRate::from_sat_per_kwu(250)]);
    log.res("extract_tx_with_fee_rate_limit", || p.clone().extract_tx_with_fee_rate_limit(rate), tx_text);
    if let Some(t) = log.call("extract_tx_unchecked_fee_rate", || p.clone().extract_tx_unchecked_fee_rate()) {
        log.show("extract_tx_unchecked_fee_rate", tx_text(&t));
    }
}

/// One case: some PSBT, another that may be related, and everything done to them.
pub fn run_v2(r: &mut Rng, mode: Mode) -> (v2::Psbt, &'static str, Log) {
    let (p, how) = any_v2(r);
    let other = relative_v2(r, &p);
    let mut log = Log::default();
    ops_v2(r, &p, &other, &mut log, mode);
    (p, how, log)
}
pub fn relative_v2(r: &mut Rng, p: &v2::Psbt) -> v2::Psbt {
    let mut q = p.clone();
    match r.below(4) {
        0 => return any_v2(r).0,
        1 => {
            for i in q.inputs.iter_mut() {
                graft_v2(r, i);
            }
        }
        2 => {
            for _ in 0..2 {
                q.global.xpubs.insert(gen::xpub(r), gen::key_source(r));
            }
        }
        _ => {
            q.inputs.pop();
            q.global.input_count = q.inputs.len();
        }
    }
    q
}
pub fn run_v0(r: &mut Rng, mode: Mode) -> (v0::bitcoin::Psbt, &'static str, Log) {
    let (p, how) = any_v0(r);
    let mut q = p.clone();
    match r.below(3) {
        0 => q = any_v0(r).0,
        1 => {
            for i in q.inputs.iter_mut() {
                graft_v0(r, i);
            }
        }
        _ => {
            for _ in 0..2 {
                q.xpub.insert(gen::xpub(r), gen::key_source(r));
            }
        }
    }
    let mut log = Log { v0: true, ..Default::default() };
    ops_v0(r, &p, &q, &mut log, mode);
    (p, how, log)
}

// ------------------------------------------------------------------------------------------------ C43, C44

pub fn no_panic(ctx: &Ctx, ver: Ver) {
    ctx.rule("PSBTs that decode, of every origin: random, from hostile bytes, spends of every output type at every stage from unsigned to final with data missing, wrong or grafted from elsewhere; on each, every public operation and every role with all kinds of arguments. Any panic is a violation. Distinct: by PSBT.");
    for h in ["random", "hostile", "ready", "grafted", "final", "signable"] {
        ctx.require(&format!("from:{}", h), 100);
    }
    ctx.require("errors", 10_000);
    ctx.cases("operations", if ver == Ver::V2 { 12_000 } else { 18_000 }, 400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let (bytes, how, log) = match ver {
            Ver::V2 => {
                let (p, how, log) = run_v2(r, Mode::Full);
                (p.serialize(), how, log)
            }
            Ver::V0 => {
                let (p, how, log) = run_v0(r, Mode::Full);
                (p.serialize(), how, log)
            }
        };
        c.distinct(hash_bytes(&bytes));
        c.count(&format!("from:{}", how));
        c.add("operations", log.ops.len() as u64);
        c.add("errors", log.errs.len() as u64);
        for (op, _) in &log.ops {
            c.count(&format!("op:{}", op));
        }
        for (op, p) in &log.panics {
            c.fail(ctx::op_panic_sig(op, p), format!("{} panicked at {}:{}: {}\nPSBT: {}", op, p.file, p.line, p.msg, hex(&bytes)));
        }
    });
}

// ------------------------------------------------------------------------------------------------ C40

/// The names of variants and types in a debug text: what kind of error it is.
/// The names of the error and of the errors it wraps.
fn kinds(d: &str) -> String {
    let mut out = vec![];
    let mut d = d;
    while out.len() < 5 {
        let n = d.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(d.len());
        if !d.starts_with(|c: char| c.is_ascii_uppercase()) {
            break;
        }
        out.push(&d[..n]);
        match d[n..].strip_prefix('(') {
            Some(rest) => d = rest,
            None => break,
        }
    }
    out.join(".")
}

fn shape(d: &str) -> String {
    let mut s = String::new();
    let mut depth = 0;
    let mut word = String::new();
    for ch in d.chars() {
        if ch.is_alphanumeric() || ch == '_' {
            word.push(ch);
            continue;
        }
        if depth <= 3 && word.starts_with(|c: char| c.is_ascii_uppercase()) && word.len() < 40 && s.len() < 60 {
            s.push_str(&word);
            s.push('.');
        }
        word.clear();
        match ch {
            '(' | '{' | '[' => depth += 1,
            ')' | '}' | ']' => depth -= 1,
            '"' => break,
            _ => {}
        }
    }
    if s.is_empty() {
        s = word;
    }
    s
}

pub fn errors(ctx: &Ctx) {
    ctx.rule("Every error that parsing hostile data and the operations on PSBTs of every origin return, of both versions: its text, the text of each cause, and the chain of causes. Distinct: by kind of error.");
    ctx.require("errors", 100_000);
    ctx.require("kinds", 100);
    let seen: std::sync::Mutex<BTreeMap<String, BTreeSet<String>>> = Default::default();
    let texts: std::sync::Mutex<HashMap<(&'static str, u64), String>> = Default::default();
    let check = |c: &mut Case, e: &ErrText| {
        // Errors of different kinds from one operation have different texts.
        let kind = kinds(&e.debug);
        let first = texts.lock().unwrap().entry((e.op, hash_str(&e.chain.join(" / ")) ^ e.v0 as u64)).or_insert_with(|| kind.clone()).clone();
        let mut both = [first, kind];
        both.sort();
        c.check(both[0] == both[1], &format!("error:same-text({},{})", both[0], both[1]), || format!("{}: {:?}", e.op, e));
        c.count("errors");
        let k = format!("{}:{}", e.op, shape(&e.debug));
        c.distinct(hash_str(&k));
        {
            let mut s = seen.lock().unwrap();
            let v = s.entry(shape(&e.debug)).or_default();
            if v.is_empty() {
                c.count("kinds");
            }
            if v.len() < 3 {
                v.insert(e.chain.join(" / ").chars().take(200).collect());
            }
        }
        c.check(!e.endless, "error:endless-causes", || format!("{:?}", e));
        for (i, t) in e.chain.iter().enumerate() {
            c.check(!t.trim().is_empty(), &format!("error:empty-text({})", shape(&e.debug)), || format!("{:?} level {}", e, i));
            c.check(t.trim() != "self" && !t.contains("not yet implemented"), &format!("error:no-text({})", shape(&e.debug)), || format!("{:?} level {}", e, i));
        }
    };
    ctx.cases("operations", 8000, 200_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let log = if r.bool() { run_v2(r, Mode::Full).2 } else { run_v0(r, Mode::Full).2 };
        for e in &log.errs {
            check(c, e);
        }
        for (op, p) in &log.panics {
            // Other panics are the subject of C43 and C44.
            if p.file.ends_with("error.rs") || p.msg.contains("not yet implemented") {
                c.fail(ctx::op_panic_sig(op, p), format!("{} {:?}", op, p));
            }
        }
    });
    ctx.cases("parsing", 60_000, 1_500_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let ver = if r.bool() { Ver::V2 } else { Ver::V0 };
        let (b, _) = codec::hostile_bytes(r, ver);
        let mut log = Log::default();
        log.res("v2 deserialize", || v2::Psbt::deserialize(&b), |_| String::new());
        log.res("v0 deserialize", || v0::bitcoin::Psbt::deserialize(&b), |_| String::new());
        let t = if r.bool() { String::from_utf8_lossy(&b).into_owned() } else { codec::base64_enc(&b) };
        log.res("v2 from_str", || v2::Psbt::from_str(&t), |_| String::new());
        log.res("v0 from_str", || v0::bitcoin::Psbt::from_str(&t), |_| String::new());
        let n = *r.pick(&[0u32, 1, 2, 3, 0x81, 4, 0x80, 0xff, 0x100, u32::MAX]) ^ (r.below(2) as u32) << r.below(32);
        let ty = psbt_v2::PsbtSighashType::from_u32(n);
        log.res("ecdsa_hash_ty", || ty.ecdsa_hash_ty(), |_| String::new());
        log.res("taproot_hash_ty", || ty.taproot_hash_ty(), |_| String::new());
        let s: String = (0..r.below(6)).map(|_| *r.pick(&['S', 'I', '0', 'x', '|', 'é', ' '])).collect();
        log.res("sighash type from_str", || psbt_v2::PsbtSighashType::from_str(&s), |_| String::new());
        log.res("Version", || psbt_v2::Version::try_from(n), |_| String::new());
        #[cfg(feature = "sp")]
        {
            let len = *r.pick(&[0usize, 63, 64, 65]);
            let b = r.bytes(len);
            if let Some(Err(e)) = log.call("DleqProof", || v2::DleqProof::try_from(&b[..])) {
                c.check(!e.to_string().is_empty(), "error:empty-text(Dleq)", || format!("{:?}", e));
            }
        }
        for e in &log.errs {
            check(c, e);
        }
        for (op, p) in &log.panics {
            c.fail(ctx::op_panic_sig(op, p), format!("{} {:?}", op, p));
        }
    });
    let kinds: Vec<String> = seen.lock().unwrap().iter().map(|(k, v)| format!("{} => {}", k, v.iter().next().unwrap())).collect();
    if std::env::var("MON_DEBUG").is_ok() {
        for k in &kinds {
            eprintln!("{}", k);
        }
    }
}

// ------------------------------------------------------------------------------------------------ C41

/// Runs in a process of its own: does everything, says nothing (but leaves its counts in a file).
pub fn quiet_worker(seed: u64, from: u64, to: u64, out: &str) {
    let mut ops: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut kinds = [0u64; 2];
    for i in from..to {
        let mut r = Rng::new(seed ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x41);
        let log = if i % 2 == 0 { run_v2(&mut r, Mode::Full).2 } else { run_v0(&mut r, Mode::Full).2 };
        kinds[i as usize % 2] += 1;
        for (o, _) in log.ops {
            *ops.entry(o).or_default() += 1;
        }
    }
    let text: String = ops.iter().map(|(k, v)| format!("{}\t{}\n", k, v)).collect();
    std::fs::write(out, format!("{}\t{}\n{}", kinds[0], kinds[1], text)).unwrap();
}

pub fn quiet(ctx: &Ctx, run_dir: &str) {
    ctx.rule("Processes that run every operation of both versions on PSBTs of every origin with standard output and standard error captured; a single byte is a violation. Distinct: by range of cases.");
    ctx.require("v2", 1000);
    ctx.require("v0", 1000);
    ctx.require("operations", 100_000);
    let seed = ctx.seed;
    ctx.cases("processes", 64, 1200, |c| {
        let i = c.index;
        let out = format!("{}/quiet-{}-{}", run_dir, std::process::id(), i);
        let exe = std::env::current_exe().unwrap();
        let p = Command::new(exe)
            .args(["--quiet-worker", &seed.to_string(), &(i * 120).to_string(), &((i + 1) * 120).to_string(), &out])
            .env_remove("MON_STATE")
            .env_remove("MON_DEBUG")
            .env_remove("RUST_BACKTRACE")
            .stdin(Stdio::null())
            .output();
        let Ok(p) = p else {
            c.count("could_not_start");
            return;
        };
        c.distinct(i);
        if !p.status.success() {
            // What brings a process down is for the other monitors.
            c.count("worker_died");
            return;
        }
        if let Ok(s) = std::fs::read_to_string(&out) {
            let mut it = s.lines();
            if let Some((a, b)) = it.next().and_then(|l| l.split_once('\t')) {
                c.add("v2", a.parse().unwrap_or(0));
                c.add("v0", b.parse().unwrap_or(0));
            }
            for (k, v) in it.filter_map(|l| l.split_once('\t')) {
                let v: u64 = v.parse().unwrap_or(0);
                c.add("operations", v);
                c.add(&format!("op:{}", k), v);
            }
        }
        let _ = std::fs::remove_file(&out);
        for (name, b) in [("stdout", &p.stdout), ("stderr", &p.stderr)] {
            c.check(b.is_empty(), &format!("output:{}", name), || {
                format!("{} bytes on {}: {:?}", b.len(), name, String::from_utf8_lossy(&b[..b.len().min(300)]))
            });
        }
    });
}
