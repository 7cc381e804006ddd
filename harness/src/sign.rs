//! Monitors for the Signer role of both versions (C21..C25, C30..C32).
use std::collections::{BTreeMap, BTreeSet, HashMap};

use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpub};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{Message, Secp256k1, Signing};
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::{ecdsa, PrivateKey, PublicKey, ScriptBuf, Transaction, TxOut};
use psbt_v2::{v0, v2, PsbtSighashType};

use crate::ctx::{Case, Ctx};
use crate::gen::{self, secp};
use crate::rng::Rng;
use crate::scen::{self, keys, Kind, Scen, ECDSA_KINDS};
use crate::sighash;

/// A key holder of ours: answers some kinds of request, and errs on or denies the others.
#[derive(Clone, Debug)]
pub struct Held {
    pub keys: BTreeSet<usize>,
    pub by_path: bool,
    pub by_pubkey: bool,
    pub err: bool,
}
impl Held {
    fn path(&self, fp: Fingerprint, p: &DerivationPath) -> Result<Option<PrivateKey>, &'static str> {
        if !self.by_path {
            return if self.err { Err("no") } else { Ok(None) };
        }
        Ok(self
            .keys
            .iter()
            .map(|i| &keys().keys[*i])
            .find(|k| k.source.0 == fp && k.source.1 == *p)
            .map(|k| k.privkey()))
    }
    fn pubkey(&self, pk: PublicKey) -> Result<Option<PrivateKey>, &'static str> {
        if !self.by_pubkey {
            return if self.err { Err("no") } else { Ok(None) };
        }
        Ok(self.keys.iter().map(|i| &keys().keys[*i]).find(|k| k.pubkey() == pk).map(|k| k.privkey()))
    }
}
impl v2::GetKey for Held {
    type Error = &'static str;
    fn get_key<C: Signing>(&self, q: v2::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, Self::Error> {
        match q {
            v2::KeyRequest::Bip32((f, p)) => self.path(f, &p),
            v2::KeyRequest::Pubkey(k) => self.pubkey(k),
            _ => Ok(None),
        }
    }
}
impl v0::bitcoin::GetKey for Held {
    type Error = &'static str;
    fn get_key<C: Signing>(
        &self,
        q: v0::bitcoin::KeyRequest,
        _: &Secp256k1<C>,
    ) -> Result<Option<PrivateKey>, Self::Error> {
        match q {
            v0::bitcoin::KeyRequest::Bip32((f, p)) => self.path(f, &p),
            v0::bitcoin::KeyRequest::Pubkey(k) => self.pubkey(k),
            _ => Ok(None),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Holder {
    Xpriv(usize),
    Map(BTreeSet<usize>),
    HashMap(BTreeSet<usize>),
    Own(Held),
}
impl Holder {
    pub fn random(r: &mut Rng, s: &Scen) -> Holder {
        // Mostly keys that matter.
        let mut ks: BTreeSet<usize> = BTreeSet::new();
        for i in &s.ins {
            for k in i.key_ids() {
                if r.chance(2, 3) {
                    ks.insert(k);
                }
            }
        }
        if r.chance(1, 3) {
            ks.insert(r.below(32));
        }
        match r.below(8) {
            0..=2 => Holder::Xpriv(r.below(4)),
            3 => Holder::Map(ks),
            4 => Holder::HashMap(ks),
            n => Holder::Own(Held { keys: ks, by_path: n != 5, by_pubkey: n != 6, err: r.bool() }),
        }
    }
    pub fn holds(&self, k: usize) -> bool {
        let m = keys().keys[k].master;
        match self {
            Holder::Xpriv(i) => *i == m,
            Holder::Map(s) | Holder::HashMap(s) => s.contains(&k),
            Holder::Own(h) => h.keys.contains(&k) && (h.by_path || h.by_pubkey),
        }
    }
    /// Answers requests by derivation path.
    pub fn by_path(&self) -> bool {
        match self {
            Holder::Map(_) | Holder::HashMap(_) => false,
            Holder::Own(h) => h.by_path,
            _ => true,
        }
    }
}
fn pairs(s: &BTreeSet<usize>) -> Vec<(PublicKey, PrivateKey)> {
    s.iter().map(|i| (keys().keys[*i].pubkey(), keys().keys[*i].privkey())).collect()
}

macro_rules! with_holder {
    ($h:expr, $k:ident => $e:expr) => {
        match $h {
            Holder::Xpriv(i) => {
                let $k = &keys().masters[*i];
                $e
            }
            Holder::Map(s) => {
                let $k = &pairs(s).into_iter().collect::<BTreeMap<_, _>>();
                $e
            }
            Holder::HashMap(s) => {
                let $k = &pairs(s).into_iter().collect::<HashMap<_, _>>();
                $e
            }
            Holder::Own(h) => {
                let $k = h;
                $e
            }
        }
    };
}

pub type SignV2 = Result<(v2::Psbt, v2::SigningKeys), (v2::SigningKeys, v2::SigningErrors)>;
pub fn sign_v2(p: v2::Psbt, h: &Holder) -> SignV2 {
    let s = v2::Signer::new(p).expect("lock time exists");
    with_holder!(h, k => s.sign(k, secp()))
}
pub type SignV0 = Result<
    v0::bitcoin::SigningKeysMap,
    (v0::bitcoin::SigningKeysMap, v0::bitcoin::SigningErrors),
>;
pub fn sign_v0(p: &mut v0::bitcoin::Psbt, h: &Holder) -> SignV0 {
    with_holder!(h, k => p.sign(k, secp()))
}

pub const STD: [u32; 6] = [1, 2, 3, 0x81, 0x82, 0x83];

/// What was done to an input to make it unsignable.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Defect {
    NoUtxo,
    NoRedeem,
    NoWscript,
    BadType,
    BadVout,
}

/// A scenario with sighash types, and defects per input.
pub fn signing_scen(r: &mut Rng, kinds: &[Kind], defects: bool) -> (Scen, Vec<Option<Defect>>) {
    let locks = r.bool();
    let mut s = scen::scen(r, kinds, locks);
    let mut d = vec![];
    for i in s.ins.iter_mut() {
        i.sighash = match r.below(4) {
            0 | 1 => None,
            _ if i.kind.tap() && r.chance(1, 4) => Some(0),
            _ => Some(*r.pick(&STD)),
        };
        if !defects || !r.chance(1, 4) {
            d.push(None);
            continue;
        }
        let x = match r.below(5) {
            0 => {
                i.nwu = false;
                i.wu = false;
                Defect::NoUtxo
            }
            1 if i.redeem.is_some() => Defect::NoRedeem,
            2 if i.wscript.is_some() => Defect::NoWscript,
            3 => {
                let none = if i.kind.tap() { 4 } else { 0 };
                i.sighash = Some(*r.pick(&[none, 4, 5, 0x80, 0x84, 0x100, 0x101, 0xffff_ffff, 0x41, 0x1f]));
                Defect::BadType
            }
            4 if i.nwu && !i.wu => Defect::BadVout,
            _ => {
                d.push(None);
                continue;
            }
        };
        d.push(Some(x));
    }
    (s, d)
}

/// Scripts that the output does not ask for: it is spent as it says.
pub fn stray(r: &mut Rng, i: &scen::Inp, redeem: &mut Option<ScriptBuf>, wscript: &mut Option<ScriptBuf>) {
    if !r.chance(1, 6) {
        return;
    }
    if !i.txout().script_pubkey.is_p2sh() {
        *redeem = Some(match r.below(4) {
            0 => gen::script(r),
            1 => ScriptBuf::new_p2wpkh(&bitcoin::CompressedPublicKey(gen::pk(r)).wpubkey_hash()),
            2 => wscript.as_ref().map(|w| w.to_p2wsh()).unwrap_or_default(),
            _ => i.txout().script_pubkey.clone(),
        });
    }
    if i.wscript.is_none() {
        *wscript = Some(if r.bool() { gen::script(r) } else { i.txout().script_pubkey.clone() });
    }
}

pub fn damage_v2(p: &mut v2::Psbt, d: &[Option<Defect>]) {
    for (i, d) in p.inputs.iter_mut().zip(d) {
        match d {
            Some(Defect::NoRedeem) => i.redeem_script = None,
            Some(Defect::NoWscript) => i.witness_script = None,
            Some(Defect::BadVout) => {
                let t = i.non_witness_utxo.as_mut().unwrap();
                t.output.truncate(i.spent_output_index as usize);
            }
            _ => {}
        }
    }
}
pub fn damage_v0(p: &mut v0::bitcoin::Psbt, d: &[Option<Defect>]) {
    for ((i, t), d) in p.inputs.iter_mut().zip(&p.unsigned_tx.input).zip(d) {
        match d {
            Some(Defect::NoRedeem) => i.redeem_script = None,
            Some(Defect::NoWscript) => i.witness_script = None,
            Some(Defect::BadVout) =>
                i.non_witness_utxo.as_mut().unwrap().output.truncate(t.previous_output.vout as usize),
            _ => {}
        }
    }
}

fn std_type(t: Option<u32>) -> Option<EcdsaSighashType> {
    EcdsaSighashType::from_standard(t.unwrap_or(1)).ok()
}

type Sigs = BTreeMap<PublicKey, ecdsa::Signature>;

/// Signatures already there when the signer starts: junk, for keys of the input or strangers.
fn junk_sigs(r: &mut Rng, inp: &scen::Inp) -> Sigs {
    let mut m = Sigs::new();
    if r.chance(1, 4) {
        m.insert(gen::pubkey(r), gen::ecdsa_sig(r));
    }
    if r.chance(1, 6) {
        if let Some(k) = inp.key_ids().first() {
            m.insert(keys().keys[*k].pubkey(), gen::ecdsa_sig(r));
        }
    }
    m
}

pub type Origins = BTreeMap<bitcoin::secp256k1::PublicKey, KeySource>;

/// Whether the holder gives the listed key for one of the two requests that can be made for it.
pub fn answers(h: &Holder, pk: &bitcoin::secp256k1::PublicKey, src: &KeySource) -> bool {
    let Some(k) = keys().keys.iter().position(|k| k.pk == *pk) else { return false };
    let by_path = h.by_path() && h.holds(k) && keys().keys[k].source == *src;
    let by_pubkey = match h {
        Holder::Map(m) | Holder::HashMap(m) => m.contains(&k),
        Holder::Own(o) => o.by_pubkey && o.keys.contains(&k),
        Holder::Xpriv(_) => false,
    };
    by_path || by_pubkey
}
fn by_path_x(h: &Holder, x: &bitcoin::XOnlyPublicKey, src: &KeySource) -> bool {
    keys().keys.iter().enumerate().any(|(i, k)| k.x == *x && k.source == *src && h.by_path() && h.holds(i))
}

/// Key origins that are wrong, more than needed, or of strangers.
pub fn confuse(r: &mut Rng, m: &mut Origins, held: &[usize]) {
    if !r.chance(1, 3) {
        return;
    }
    for _ in 0..r.range(1, 2) {
        // Mostly keys that the signer has.
        let mut key = || if !held.is_empty() && r.chance(2, 3) { *r.pick(held) } else { r.below(32) };
        let (a, b) = (key(), key());
        let (a, b) = (&keys().keys[a], &keys().keys[b]);
        let n = r.below(m.len().max(1));
        let listed = m.keys().nth(n).copied();
        match (r.below(5), listed) {
            (0, Some(k)) => drop(m.insert(k, b.source.clone())),
            (1, _) => drop(m.insert(a.pk, a.source.clone())),
            (2, _) => drop(m.insert(a.pk, b.source.clone())),
            (3, _) => drop(m.insert(gen::pk(r), a.source.clone())),
            (_, Some(k)) => {
                // Somewhere else under the same master.
                let v = m.get_mut(&k).unwrap();
                let mut p: Vec<ChildNumber> = v.1.into_iter().copied().collect();
                match r.below(3) {
                    0 => drop(p.pop()),
                    1 => p.push(ChildNumber::from(gen::edge_u32(r))),
                    _ => p.reverse(),
                }
                v.1 = p.into();
            }
            _ => {}
        }
    }
}

type TapOrigins = BTreeMap<bitcoin::XOnlyPublicKey, (Vec<bitcoin::TapLeafHash>, KeySource)>;

fn confuse_tap(r: &mut Rng, i: &mut v0::bitcoin::Input, leaves: &[bitcoin::TapLeafHash], held: &[usize]) {
    if !r.chance(1, 3) {
        return;
    }
    let m: &mut TapOrigins = &mut i.tap_key_origins;
    for _ in 0..r.range(1, 2) {
        // Mostly keys that the signer has.
        let mut key = || if !held.is_empty() && r.chance(2, 3) { *r.pick(held) } else { r.below(32) };
        let (a, b) = (key(), key());
        let (a, b) = (&keys().keys[a], &keys().keys[b]);
        let n = r.below(m.len().max(1));
        let listed = m.keys().nth(n).copied();
        let leaf = match r.below(3) {
            0 => vec![],
            1 if !leaves.is_empty() => vec![*r.pick(leaves)],
            _ => vec![bitcoin::TapLeafHash::from_byte_array(r.arr())],
        };
        match (r.below(8), listed) {
            // Not needed to sign.
            (7, _) => i.tap_scripts.clear(),
            (0, Some(k)) => m.get_mut(&k).unwrap().1 = b.source.clone(),
            (1, _) => drop(m.entry(a.x).or_insert((leaf, a.source.clone()))),
            (2, _) => drop(m.entry(a.x).or_insert((leaf, b.source.clone()))),
            (3, _) => i.tap_internal_key = None,
            (4, _) => {
                i.tap_key_sig = Some(gen::tap_sig(r))
            }
            (5, Some(k)) => {
                let e = m.get(&k).unwrap();
                if !e.0.is_empty() {
                    let l = *r.pick(&e.0);
                    i.tap_script_sigs.insert((k, l), gen::tap_sig(r));
                }
            }
            (_, Some(k)) => {
                let e = m.get_mut(&k).unwrap();
                if r.bool() {
                    e.0.clear();
                } else {
                    e.0.push(bitcoin::TapLeafHash::from_byte_array(r.arr()));
                }
            }
            _ => {}
        }
    }
}

/// One ECDSA input: signatures before and after.
fn check_ecdsa_sound(c: &mut Case, s: &Scen, tx: &Transaction, i: usize, before: &Sigs, after: &Sigs, h: &Holder, listed: &Origins) {
    let inp = &s.ins[i];
    for (pk, sig) in after {
        if before.get(pk) == Some(sig) {
            continue;
        }
        let kind = format!("{:?}", inp.kind);
        let Some(src) = listed.get(&pk.inner).filter(|_| pk.compressed) else {
            c.fail(format!("sign:stranger({})", kind), format!("input {}: signature for {} which is not in its derivations", i, pk));
            continue;
        };
        if !answers(h, &pk.inner, src) {
            c.fail("sign:key-not-held", format!("input {}: signature for key {} which the holder does not have", i, pk));
        }
        let want = std_type(inp.sighash);
        if Some(sig.sighash_type) != want {
            c.fail(
                format!("sign:type({})", kind),
                format!("input {} asks for {:?}, signature has {:?}", i, inp.sighash, sig.sighash_type),
            );
            continue;
        }
        let m = Message::from_digest(scen::ecdsa_hash(tx, i, inp, sig.sighash_type as u32));
        if secp().verify_ecdsa(&m, &sig.signature, &pk.inner).is_err() {
            c.fail(
                format!("sign:invalid({},{:?})", kind, sig.sighash_type),
                format!("input {} of {}: signature by {} does not verify against the independent sighash; scenario {:?}", i, s.ins.len(), pk, s),
            );
        } else {
            c.count("signatures_verified");
            c.count(&format!("verified:{:?}:{:?}", inp.kind, sig.sighash_type));
        }
    }
    for (pk, sig) in before {
        match after.get(pk) {
            None => c.fail("sign:lost-signature", format!("input {}: signature of {} gone", i, pk)),
            Some(x) if x != sig && !listed.contains_key(&pk.inner) => {
                c.fail("sign:changed-signature", format!("input {}: signature of {} changed", i, pk))
            }
            _ => {}
        }
    }
}

#[derive(PartialEq, Clone, Copy)]
pub enum What {
    Sound,
    Complete,
    Flags,
}

/// C21, C22, C23.
pub fn v2_sign(ctx: &Ctx, what: What) {
    ctx.rule("Spending scenarios with real keys over all ECDSA output types (and some taproot inputs), random sighash types, modifiable flags, existing signatures and missing data; signed through Signer::sign by xprivs, key maps and fallible key holders. Signatures are checked against independent sighash code. Distinct: by the serialized PSBT and key holder.");
    ctx.assume("Scripts with OP_CODESEPARATOR are documented as unsupported and not generated.");
    ctx.require("signed_psbts", 500);
    match what {
        What::Sound => ctx.require("signatures_verified", 1000),
        What::Complete => {
            ctx.require("expected_signatures", 1000);
            ctx.require("expected_errors", 100);
        }
        What::Flags => {
            ctx.require("flags_with_signature", 300);
            ctx.require("flags_without_signature", 100);
        }
    }
    ctx.cases("sign", 72_000, 576_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut kinds = ECDSA_KINDS.to_vec();
        if r.chance(1, 5) {
            kinds.extend([Kind::TrKey, Kind::TrScript]);
        }
        let bad = r.chance(1, 2);
        let (s, d) = signing_scen(r, &kinds, bad);
        let mut p = s.v2();
        damage_v2(&mut p, &d);
        p.global.tx_modifiable_flags = if r.chance(1, 8) { r.u64() as u8 } else { r.below(8) as u8 };
        let h = Holder::random(r, &s);
        let held: Vec<usize> = (0..keys().keys.len()).filter(|k| h.holds(*k)).collect();
        for (i, x) in p.inputs.iter_mut().zip(&s.ins) {
            i.partial_sigs = junk_sigs(r, x);
            stray(r, x, &mut i.redeem_script, &mut i.witness_script);
            confuse(r, &mut i.bip32_derivations, &held);
        }
        c.distinct(crate::rng::hash_bytes(&p.serialize()) ^ crate::rng::hash_str(&format!("{:?}", h)));
        let tx = s.tx().unwrap();
        let before = p.clone();
        let Some(res) = c.guard("Signer::sign", || sign_v2(p, &h)) else { return };
        c.count("signed_psbts");
        let expect = |i: usize| -> Vec<PublicKey> {
            let x = &s.ins[i];
            if x.kind.tap() {
                return vec![];
            }
            before.inputs[i].bip32_derivations.iter().filter(|(k, src)| answers(&h, k, src)).map(|(k, _)| PublicKey::new(*k)).collect()
        };
        let n = s.ins.len();
        if let Ok((_, used)) | Err((used, _)) = &res {
            for (i, v) in used {
                let mut w = v.clone();
                w.sort();
                w.dedup();
                c.check(w.len() == v.len(), "sign:reported-twice", || format!("input {}: {:?}", i, v));
            }
        }
        match &res {
            Ok((after, used)) => {
                c.count("sign_ok");
                match what {
                    What::Sound => {
                        for i in 0..n {
                            if s.ins[i].kind.tap() {
                                continue;
                            }
                            check_ecdsa_sound(c, &s, &tx, i, &before.inputs[i].partial_sigs, &after.inputs[i].partial_sigs, &h, &before.inputs[i].bip32_derivations);
                        }
                        // Nothing else may change.
                        let mut x = after.clone();
                        x.global.tx_modifiable_flags = before.global.tx_modifiable_flags;
                        for (a, b) in x.inputs.iter_mut().zip(&before.inputs) {
                            a.partial_sigs = b.partial_sigs.clone();
                        }
                        c.check(x == before, "sign:changed-other-fields", || format!("before {:?}\nafter {:?}", before, after));
                    }
                    What::Complete => {
                        for i in 0..n {
                            let want: BTreeSet<PublicKey> = if d[i].is_some() { BTreeSet::new() } else { expect(i).into_iter().collect() };
                            if d[i].is_some() && !expect(i).is_empty() {
                                // The key is there, the data is not: this may not pass as signed.
                                if matches!(d[i], Some(Defect::NoRedeem | Defect::NoWscript | Defect::BadType)) {
                                    c.fail(
                                        format!("sign:error-swallowed({:?},{:?})", s.ins[i].kind, d[i].unwrap()),
                                        format!("input {} cannot be signed although the key is held, but no error is reported", i),
                                    );
                                }
                                if used.contains_key(&i) {
                                    c.fail("sign:reported-unsigned", format!("input {} reported as signed", i));
                                }
                            }
                            let got: BTreeSet<PublicKey> = used.get(&i).cloned().unwrap_or_default().into_iter().collect();
                            c.add("expected_signatures", want.len() as u64);
                            if got != want {
                                c.fail(
                                    format!("sign:report({:?})", s.ins[i].kind),
                                    format!("input {} holder {:?}: reported keys {:?}, expected {:?}", i, h, got, want),
                                );
                            }
                            for k in &want {
                                let new = after.inputs[i].partial_sigs.get(k);
                                if new.is_none() || new == before.inputs[i].partial_sigs.get(k) {
                                    c.fail(
                                        format!("sign:missing({:?})", s.ins[i].kind),
                                        format!("input {}: no signature for held key {}", i, k),
                                    );
                                }
                            }
                        }
                        if used.keys().any(|k| *k >= n) {
                            c.fail("sign:report-index", format!("{:?} of {} inputs", used.keys(), n));
                        }
                    }
                    What::Flags => {
                        let mut f = before.global.tx_modifiable_flags;
                        let mut any = false;
                        for i in 0..n {
                            if d[i].is_some() || expect(i).is_empty() {
                                continue;
                            }
                            any = true;
                            let t = s.ins[i].sighash.unwrap_or(1);
                            if t & 0x80 == 0 {
                                f &= !1;
                            }
                            if t & 0x1f != 2 {
                                f &= !2;
                            }
                            if t & 0x1f == 3 {
                                f |= 4;
                            }
                        }
                        c.count(if any { "flags_with_signature" } else { "flags_without_signature" });
                        c.check(
                            after.global.tx_modifiable_flags == f,
                            if any { "sign:modifiable-flags" } else { "sign:modifiable-flags-without-signature" },
                            || format!(
                                "flags {} before, {} after, expected {}; types {:?} holder {:?}",
                                before.global.tx_modifiable_flags,
                                after.global.tx_modifiable_flags,
                                f,
                                s.ins.iter().map(|i| i.sighash).collect::<Vec<_>>(),
                                h
                            ),
                        );
                    }
                }
            }
            Err((used, errors)) => {
                c.count("sign_err");
                if what == What::Complete {
                    for i in 0..n {
                        if errors.contains_key(&i) {
                            c.count("expected_errors");
                            if d[i].is_none() && !s.ins[i].kind.tap() {
                                c.fail(
                                    format!("sign:spurious-error({:?})", s.ins[i].kind),
                                    format!("input {} is complete but: {:?}", i, errors[&i]),
                                );
                            }
                            if used.contains_key(&i) {
                                c.fail("sign:both-used-and-error", format!("input {}", i));
                            }
                        } else if d[i].is_none() {
                            let got: BTreeSet<PublicKey> = used.get(&i).cloned().unwrap_or_default().into_iter().collect();
                            let want: BTreeSet<PublicKey> = expect(i).into_iter().collect();
                            if got != want {
                                c.fail(format!("sign:report({:?})", s.ins[i].kind), format!("input {}: reported {:?}, expected {:?}", i, got, want));
                            }
                        }
                    }
                    if errors.is_empty() {
                        c.fail("sign:empty-error", "Err without an error");
                    }
                }
            }
        }
    });
    if what == What::Flags {
        ctx.require("flag_transitions", 100);
        ctx.cases("transitions", 200, 1_600, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
            // The public flag operation by itself: every type, every flag value.
            for f in 0..8u8 {
                for t in gen::ECDSA_TYPES {
                    let mut p = s_min(r);
                    p.global.tx_modifiable_flags = f;
                    let mut sg = v2::Signer::new(p.clone()).unwrap();
                    sg.ecdsa_clear_tx_modifiable(t);
                    let q = sg.psbt();
                    let t = t as u32;
                    let mut w = f;
                    if t & 0x80 == 0 {
                        w &= !1;
                    }
                    if t & 0x1f != 2 {
                        w &= !2;
                    }
                    if t & 0x1f == 3 {
                        w |= 4;
                    }
                    c.count("flag_transitions");
                    c.check(q.global.tx_modifiable_flags == w, "flags:transition", || {
                        format!("flags {} type {:x}: {} expected {}", f, t, q.global.tx_modifiable_flags, w)
                    });
                    p.global.tx_modifiable_flags = w;
                    c.check(p == q, "flags:other-fields", || "flag operation changed other fields".into());
                }
            }
        });
    }
}

fn s_min(r: &mut Rng) -> v2::Psbt {
    v2::Constructor::<v2::Modifiable>::default()
        .input(v2::Input::new(&gen::outpoint(r)))
        .output(v2::Output::new(TxOut { value: gen::amount(r), script_pubkey: gen::script_nonempty(r) }))
        .psbt()
        .unwrap()
}

/// C24: sighash_ecdsa of either version. C31: v0.
pub fn sighashes(ctx: &Ctx, v2_side: bool) {
    ctx.rule("sighash_ecdsa for every input of generated scenarios over all ECDSA output types and hash types (standard or not), complete or with missing data, indices in and out of range, compared with an independent implementation of the legacy and BIP-143 algorithms. Distinct: by transaction, input and type.");
    ctx.require("compared", 2000);
    ctx.require("refused", 300);
    ctx.require("out_of_range", 300);
    ctx.cases("sighash", 150_000, 1_200_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut kinds = ECDSA_KINDS.to_vec();
        if r.chance(1, 4) {
            kinds.extend([Kind::TrKey, Kind::TrScript, Kind::PkhUncompressed]);
        }
        let bad = r.chance(1, 2);
        let (s, d) = signing_scen(r, &kinds, bad);
        let tx = s.tx().unwrap();
        let (p2, p0);
        if v2_side {
            let mut p = s.v2();
            p.inputs.iter_mut().zip(&s.ins).for_each(|(i, x)| stray(r, x, &mut i.redeem_script, &mut i.witness_script));
            damage_v2(&mut p, &d);
            p2 = Some(p);
            p0 = None;
        } else {
            let mut p = s.v0();
            p.inputs.iter_mut().zip(&s.ins).for_each(|(i, x)| stray(r, x, &mut i.redeem_script, &mut i.witness_script));
            damage_v0(&mut p, &d);
            p0 = Some(p);
            p2 = None;
        }
        let lib_tx = match &p2 {
            Some(p) => v2::Signer::new(p.clone()).unwrap().unsigned_tx(),
            None => p0.as_ref().unwrap().unsigned_tx.clone(),
        };
        c.check(lib_tx == tx, "sighash:unsigned-tx", || format!("unsigned transaction {:?} expected {:?}", lib_tx, tx));
        let mut cache = SighashCache::new(&lib_tx);
        let mut idx: Vec<usize> = (0..s.ins.len()).collect();
        r.shuffle(&mut idx);
        idx.push(gen::beyond(r, s.ins.len()));
        for i in idx {
            let Some(got) = c.guard("sighash_ecdsa", || match (&p2, &p0) {
                (Some(p), _) => p.sighash_ecdsa(i, &mut cache).map_err(|e| format!("{:?}", e)),
                (_, Some(p)) => p.sighash_ecdsa(i, &mut cache).map_err(|e| format!("{:?}", e)),
                _ => unreachable!(),
            }) else {
                continue;
            };
            if i >= s.ins.len() {
                c.count("out_of_range");
                c.check(got.is_err(), "sighash:out-of-range", || format!("input {} of {} accepted", i, s.ins.len()));
                continue;
            }
            let x = &s.ins[i];
            c.distinct(crate::rng::hash_bytes(&bitcoin::consensus::serialize(&tx)) ^ (i as u64) << 8 ^ x.sighash.unwrap_or(999) as u64);
            let ty = std_type(x.sighash);
            if x.kind.tap() || ty.is_none() || d[i].is_some() {
                c.count("refused");
                c.check(got.is_err(), &format!("sighash:accepted({:?},{:?})", x.kind, d[i]), || {
                    format!("input {} {:?} type {:?} accepted", i, x.kind, x.sighash)
                });
                continue;
            }
            let ty = ty.unwrap();
            let want = scen::ecdsa_hash(&tx, i, x, ty as u32);
            match got {
                Err(e) => c.fail(format!("sighash:refused({:?})", x.kind), format!("input {} type {:?}: {}", i, ty, e)),
                Ok((m, t)) => {
                    c.count("compared");
                    c.count(&format!("compared:{:?}:{:?}", x.kind, ty));
                    c.check(t == ty, "sighash:type", || format!("{:?} expected {:?}", t, ty));
                    c.check(m.as_ref()[..] == want, &format!("sighash:wrong({:?},{:?})", x.kind, ty), || {
                        format!("input {} of {}: {} expected {}\n{:?}", i, s.ins.len(), m, crate::raw::hex(&want), s)
                    });
                }
            }
        }
    });
}

/// C25: key lookup.
pub fn getkey(ctx: &Ctx) {
    ctx.rule("get_key of every implementor, both versions, for derivation paths of and not of the holder's masters, and public keys it has and has not. A key returned must be the one asked for. Distinct: by holder and request.");
    ctx.require("found", 500);
    ctx.require("absent", 300);
    ctx.require("child_holder", 100);
    ctx.cases("lookup", 300_000, 2_400_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let s = Scen { version: 2, fallback: None, ins: vec![], outs: vec![] };
        let mut h = Holder::random(r, &s);
        // Random key subsets.
        let ks: BTreeSet<usize> = (0..32).filter(|_| r.bool()).collect();
        match &mut h {
            Holder::Map(x) | Holder::HashMap(x) => *x = ks,
            Holder::Own(_) => return,
            _ => {}
        }
        let k = &keys().keys[r.below(32)];
        let kid = keys().keys.iter().position(|x| x.pk == k.pk).unwrap();
        macro_rules! ask {
            ($m:path, $q:expr) => {{
                use $m as m;
                let q = $q;
                with_holder!(&h, x => m::GetKey::get_key(x, q, secp()).map_err(|e| format!("{:?}", e)))
            }};
        }
        let v2_side = r.bool();
        if r.bool() {
            let (mut fp, path) = k.source.clone();
            let stranger = r.chance(1, 4);
            if stranger {
                fp = Fingerprint::from(r.arr::<4>());
            }
            let Some(got) = c.guard("get_key", || {
                if v2_side {
                    ask!(psbt_v2::v2, v2::KeyRequest::Bip32((fp, path.clone())))
                } else {
                    ask!(psbt_v2::v0::bitcoin, v0::bitcoin::KeyRequest::Bip32((fp, path.clone())))
                }
            }) else {
                return;
            };
            if !h.by_path() {
                c.check(got.is_err(), "getkey:map-path", || format!("{:?}", got));
            } else if stranger || !h.holds(kid) {
                c.count("absent");
                c.check(matches!(got, Ok(None)), "getkey:absent", || format!("{:?} for {:?}: {:?}", h, k.source, got));
            } else {
                c.count("found");
                c.distinct(r.u64());
                match got {
                    Ok(Some(x)) if x.inner == k.sk && x.compressed => {}
                    x => c.fail("getkey:path", format!("{:?} for {:?}: {:?}", h, k.source, x)),
                }
            }
        } else {
            // The uncompressed form is another public key.
            let unc = r.chance(1, 4);
            let pk = PublicKey { compressed: !unc, inner: k.pk };
            let Some(got) = c.guard("get_key", || {
                if v2_side {
                    ask!(psbt_v2::v2, v2::KeyRequest::Pubkey(pk))
                } else {
                    ask!(psbt_v2::v0::bitcoin, v0::bitcoin::KeyRequest::Pubkey(pk))
                }
            }) else {
                return;
            };
            if unc {
                c.count("absent");
                c.check(!matches!(got, Ok(Some(_))), "getkey:uncompressed", || format!("{:?}", got));
                return;
            }
            if h.by_path() {
                c.check(!matches!(got, Ok(Some(_))), "getkey:xpriv-pubkey", || format!("{:?}", got));
            } else if h.holds(kid) {
                c.count("found");
                c.distinct(r.u64());
                c.check(matches!(&got, Ok(Some(x)) if x.inner == k.sk), "getkey:pubkey", || format!("{:?}", got));
            } else {
                c.count("absent");
                c.check(matches!(got, Ok(None)), "getkey:pubkey-absent", || format!("{:?}", got));
            }
        }
    });
    ctx.cases("children", 20_000, 160_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        // Holders of keys that are not masters: the fingerprint in a request is that of the holder's own key.
        let m = *r.pick(&keys().masters);
        let up: DerivationPath = (0..r.range(1, 3)).map(|_| ChildNumber::from(gen::edge_u32(r))).collect::<Vec<_>>().into();
        let x = m.derive_priv(secp(), &up).unwrap();
        let down: DerivationPath = (0..r.below(3)).map(|_| ChildNumber::from(gen::edge_u32(r))).collect::<Vec<_>>().into();
        let want = x.derive_priv(secp(), &down).unwrap().private_key;
        let fp = Xpub::from_priv(secp(), &x).fingerprint();
        c.count("child_holder");
        c.distinct(r.u64());
        // The key that this one was derived from is another one.
        let (other, path) = match r.below(3) {
            0 => (x.parent_fingerprint, down.clone()),
            1 => (x.parent_fingerprint, up.clone()),
            _ => (Xpub::from_priv(secp(), &m).fingerprint(), up.extend(&down)),
        };
        let o2 = v2::KeyRequest::Bip32((other, path.clone()));
        let o0 = v0::bitcoin::KeyRequest::Bip32((other, path.clone()));
        let Some(absent) = c.guard("get_key", || {
            matches!(v2::GetKey::get_key(&x, o2, secp()), Ok(None)) && matches!(v0::bitcoin::GetKey::get_key(&x, o0, secp()), Ok(None))
        }) else {
            return;
        };
        c.check(absent || other == fp, "getkey:other", || format!("a key for fingerprint {}, have {}", other, fp));
        let q2 = || v2::KeyRequest::Bip32((fp, down.clone()));
        let q0 = || v0::bitcoin::KeyRequest::Bip32((fp, down.clone()));
        let Some(all) = c.guard("get_key", || {
            vec![
                ("v2 xpriv", v2::GetKey::get_key(&x, q2(), secp()).ok().flatten()),
                ("v0 xpriv", v0::bitcoin::GetKey::get_key(&x, q0(), secp()).ok().flatten()),
            ]
        }) else {
            return;
        };
        for (n, got) in all {
            c.check(got.map(|k| k.inner) == Some(want), &format!("getkey:child({})", n), || {
                format!("{}: fingerprint {} path {}: {:?}", n, fp, down, got.map(|k| k.public_key(secp())))
            });
        }
    });
}

/// C30: the v0 signer, ECDSA and taproot.
pub fn v0_sign(ctx: &Ctx) {
    ctx.rule("As for the version 2 signer, over all output types including taproot key and script paths; Schnorr signatures are checked against an independent BIP-341 implementation, ECDSA against legacy and BIP-143. Reported keys must be exactly those used, errors exactly the inputs that cannot be signed. Distinct: by the serialized PSBT and key holder.");
    ctx.require("signatures_verified", 1000);
    ctx.require("tap_key_verified", 200);
    ctx.require("tap_script_verified", 300);
    ctx.require("errors_reported", 100);
    ctx.cases("sign", 60_000, 480_000, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut kinds = ECDSA_KINDS.to_vec();
        kinds.extend([Kind::TrKey, Kind::TrScript, Kind::TrKey, Kind::TrScript]);
        if r.chance(1, 3) {
            kinds = vec![Kind::TrKey, Kind::TrScript];
        }
        let bad = r.chance(1, 3);
        let (s, d) = signing_scen(r, &kinds, bad);
        let mut p = s.v0();
        damage_v0(&mut p, &d);
        let h = Holder::random(r, &s);
        let held: Vec<usize> = (0..keys().keys.len()).filter(|k| h.holds(*k)).collect();
        for (i, x) in p.inputs.iter_mut().zip(&s.ins) {
            i.partial_sigs = junk_sigs(r, x);
            stray(r, x, &mut i.redeem_script, &mut i.witness_script);
            confuse(r, &mut i.bip32_derivation, &held);
            if let Some(t) = &x.tr {
                let ls: Vec<_> = t.leaves.iter().map(|l| l.hash).collect();
                confuse_tap(r, i, &ls, &held);
            }
        }
        c.distinct(crate::rng::hash_bytes(&p.serialize()) ^ crate::rng::hash_str(&format!("{:?}", h)));
        let tx = s.tx().unwrap();
        let prevouts: Vec<TxOut> = s.prevouts();
        let utxo_known: Vec<bool> = d.iter().map(|d| !matches!(d, Some(Defect::NoUtxo | Defect::BadVout))).collect();
        let before = p.clone();
        let Some(res) = c.guard("v0 Psbt::sign", || sign_v0(&mut p, &h)) else { return };
        let after = p;
        let (used, errors) = match res {
            Ok(u) => (u, BTreeMap::new()),
            Err((u, e)) => {
                if e.is_empty() {
                    c.fail("v0sign:empty-error", "Err without an error");
                }
                (u, e)
            }
        };
        let mut rest = after.clone();
        for (i, x) in s.ins.iter().enumerate() {
            let kind = format!("{:?}", x.kind);
            let (b, a) = (&before.inputs[i], &after.inputs[i]);
            let (rep, err) = (used.get(&i), errors.get(&i));
            if rep.is_some() && err.is_some() {
                c.fail("v0sign:both", format!("input {} is reported as signed and as failed", i));
            }
            rest.inputs[i].partial_sigs = b.partial_sigs.clone();
            rest.inputs[i].tap_key_sig = b.tap_key_sig;
            rest.inputs[i].tap_script_sigs = b.tap_script_sigs.clone();
            if !utxo_known[i] {
                c.check(err.is_some(), "v0sign:no-utxo-not-reported", || format!("input {}: {:?}", i, rep));
                c.count("errors_reported");
                continue;
            }
            if !x.kind.tap() {
                check_ecdsa_sound(c, &s, &tx, i, &b.partial_sigs, &a.partial_sigs, &h, &b.bip32_derivation);
                c.check(a.tap_key_sig == b.tap_key_sig && a.tap_script_sigs == b.tap_script_sigs, "v0sign:tap-sig-on-ecdsa", || format!("input {}", i));
                let held: BTreeSet<PublicKey> =
                    b.bip32_derivation.iter().filter(|(k, src)| answers(&h, k, src)).map(|(k, _)| PublicKey::new(*k)).collect();
                if d[i].is_some() && !held.is_empty() {
                    c.count("errors_reported");
                    c.check(err.is_some(), &format!("v0sign:error-swallowed({},{:?})", kind, d[i].unwrap()), || format!("input {}", i));
                    continue;
                }
                let got: BTreeSet<PublicKey> = match rep {
                    Some(v0::bitcoin::SigningKeys::Ecdsa(v)) => {
                        let n: BTreeSet<_> = v.iter().copied().collect();
                        c.check(n.len() == v.len(), "v0sign:reported-twice", || format!("input {}: {:?}", i, v));
                        n
                    }
                    None => BTreeSet::new(),
                    _ => {
                        c.fail("v0sign:algorithm", format!("input {} reported as schnorr", i));
                        continue;
                    }
                };
                let want = if d[i].is_some() { BTreeSet::new() } else { held };
                if let (Some(e), None) = (err, d[i]) {
                    c.fail(format!("v0sign:spurious-error({})", kind), format!("input {}: {:?}", i, e));
                }
                c.check(got == want, &format!("v0sign:report({})", kind), || format!("input {}: {:?} expected {:?}", i, got, want));
                for k in &want {
                    let new = a.partial_sigs.get(k);
                    if new.is_none() || new == b.partial_sigs.get(k) {
                        c.fail(format!("v0sign:missing({})", kind), format!("input {}: no signature by {}", i, k));
                    }
                }
                continue;
            }
            // Taproot.
            let ty = x.sighash.unwrap_or(0);
            let acp = ty & 0x80 != 0;
            let signable = d[i].is_none()
                && matches!(ty, 0..=3 | 0x81..=0x83)
                && (acp || utxo_known.iter().all(|k| *k))
                && !(ty & 3 == 3 && i >= tx.output.len());
            c.check(a.partial_sigs == b.partial_sigs, "v0sign:ecdsa-on-taproot", || format!("input {}", i));
            // What is to be signed: the key path with the internal key, if that is listed without leaves, and
            // each listed key's leaves; but nothing that is signed already.
            let mut want = BTreeSet::new();
            let mut key_path = false;
            let mut scripts = BTreeSet::new();
            for (k, (ls, src)) in &b.tap_key_origins {
                if !by_path_x(&h, k, src) {
                    continue;
                }
                if b.tap_internal_key == Some(*k) && ls.is_empty() && b.tap_key_sig.is_none() {
                    key_path = true;
                    want.insert(*k);
                }
                for l in ls {
                    if !b.tap_script_sigs.contains_key(&(*k, *l)) {
                        scripts.insert((*k, *l));
                        want.insert(*k);
                    }
                }
            }
            if let Some(sig) = a.tap_key_sig.as_ref().filter(|_| a.tap_key_sig != b.tap_key_sig) {
                let m = sighash::taproot(&tx, i, &prevouts, ty as u8, None);
                let ok = sig.sighash_type as u32 == ty
                    && m.map(|m| {
                        let pk = bitcoin::XOnlyPublicKey::from_slice(&x.spk.as_bytes()[2..]).unwrap();
                        secp().verify_schnorr(&sig.signature, &Message::from_digest(m), &pk).is_ok()
                    })
                    .unwrap_or(false);
                c.check(ok, "v0sign:tap-key-invalid", || format!("input {} type {:x}: {:?}", i, ty, s));
                c.check(key_path, "v0sign:tap-key-not-held", || format!("input {}: {:?}", i, b));
                c.count("tap_key_verified");
            } else {
                c.check(a.tap_key_sig == b.tap_key_sig, "v0sign:tap-key-lost", || format!("input {}", i));
                c.check(!signable || !key_path, "v0sign:tap-key-missing", || format!("input {}", i));
            }
            for ((pk, lh), sig) in &a.tap_script_sigs {
                if let Some(old) = b.tap_script_sigs.get(&(*pk, *lh)) {
                    c.check(old == sig, "v0sign:tap-script-changed", || format!("input {}: key {} leaf {}", i, pk, lh));
                    continue;
                }
                c.check(scripts.contains(&(*pk, *lh)), "v0sign:tap-script-stranger", || format!("input {}: key {} leaf {}", i, pk, lh));
                let m = sighash::taproot(&tx, i, &prevouts, ty as u8, Some(lh.to_byte_array()));
                let ok = sig.sighash_type as u32 == ty
                    && m.map(|m| secp().verify_schnorr(&sig.signature, &Message::from_digest(m), pk).is_ok()).unwrap_or(false);
                c.check(ok, "v0sign:tap-script-invalid", || format!("input {} type {:x} key {} leaf {}: {:?}", i, ty, pk, lh, s));
                c.count("tap_script_verified");
            }
            c.check(b.tap_script_sigs.keys().all(|k| a.tap_script_sigs.contains_key(k)), "v0sign:tap-script-lost", || format!("input {}", i));
            if signable {
                for (k, l) in &scripts {
                    c.check(a.tap_script_sigs.contains_key(&(*k, *l)), "v0sign:tap-script-missing", || format!("input {} key {} leaf {}", i, k, l));
                }
            }
            if signable {
                if let Some(e) = err {
                    c.fail(format!("v0sign:spurious-error({})", kind), format!("input {}: {:?}", i, e));
                    continue;
                }
                let got: BTreeSet<_> = match rep {
                    Some(v0::bitcoin::SigningKeys::Schnorr(v)) => {
                        let n: BTreeSet<_> = v.iter().copied().collect();
                        c.check(n.len() == v.len(), "v0sign:reported-twice", || format!("input {}: {:?}", i, v));
                        n
                    }
                    None => BTreeSet::new(),
                    _ => {
                        c.fail("v0sign:algorithm", format!("input {} reported as ecdsa", i));
                        continue;
                    }
                };
                c.check(got == want, &format!("v0sign:report({})", kind), || format!("input {}: {:?} expected {:?}", i, got, want));
            } else if !want.is_empty() {
                c.count("errors_reported");
                c.check(err.is_some(), &format!("v0sign:error-swallowed({})", kind), || format!("input {} type {:x}", i, ty));
            }
        }
        c.check(rest == before, "v0sign:changed-other-fields", || format!("{:?}\n{:?}", before, rest));
    });
}

#[allow(unused)]
fn unused(_: PsbtSighashType, _: ScriptBuf) {}
