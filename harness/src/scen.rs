//! Spending scenarios: real keys, real funding transactions, scripts from random policies, and the policy itself, so
//! that the monitors know which signatures, preimages and lock times are enough.
use std::sync::OnceLock;

use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::secp256k1::{self, Message, SecretKey, XOnlyPublicKey};
use bitcoin::sighash::EcdsaSighashType;
use bitcoin::taproot::{ControlBlock, LeafVersion, TapLeafHash, TapNodeHash, TaprootBuilder};
use bitcoin::{
    ecdsa, taproot, transaction, Amount, NetworkKind, OutPoint, PrivateKey, PublicKey, ScriptBuf, Sequence,
    TapSighashType, Transaction, TxIn, TxOut, Witness,
};
use miniscript::{BareCtx, Legacy, Miniscript, Segwitv0, Tap};
use psbt_v2::{v0, v2};

use crate::gen::{self, secp};
use crate::rng::Rng;
use crate::sighash;

pub struct Key {
    pub sk: SecretKey,
    pub pk: secp256k1::PublicKey,
    pub x: XOnlyPublicKey,
    pub master: usize,
    pub source: KeySource,
}
impl Key {
    pub fn pubkey(&self) -> PublicKey { PublicKey::new(self.pk) }
    pub fn privkey(&self) -> PrivateKey { PrivateKey::new(self.sk, bitcoin::Network::Bitcoin) }
}

pub struct Keys {
    pub masters: Vec<Xpriv>,
    pub keys: Vec<Key>,
    pub preimages: Vec<[u8; 32]>,
}

/// 4 masters, 32 keys.
pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| {
        let mut r = Rng::new(0xFEED);
        let masters: Vec<Xpriv> =
            (0..4).map(|_| Xpriv::new_master(NetworkKind::Main, &r.arr::<32>()).unwrap()).collect();
        let mut ks = vec![];
        for i in 0..32 {
            let master = i % 4;
            let n = (i / 4) % 5;
            let path: DerivationPath = (0..n)
                .map(|_| ChildNumber::from(gen::edge_u32(&mut r)))
                .collect::<Vec<_>>()
                .into();
            // Every key only once.
            let taken = |p: &DerivationPath| ks.iter().any(|k: &Key| k.master == master && k.source.1 == *p);
            let path = if taken(&path) { path.child(ChildNumber::from(i as u32)) } else { path };
            let sk = masters[master].derive_priv(secp(), &path).unwrap().private_key;
            ks.push(Key {
                sk,
                pk: sk.public_key(secp()),
                x: sk.x_only_public_key(secp()).0,
                master,
                source: (masters[master].fingerprint(secp()), path),
            });
        }
        // The last is all zeros, as is the standard dissatisfaction of a hash: policies may only require it.
        let preimages = (0..8).map(|i| if i == 7 { [0; 32] } else { r.arr() }).collect();
        Keys { masters, keys: ks, preimages }
    })
}

#[derive(Clone, Debug)]
pub enum Pol {
    Pk(usize),
    Pkh(usize),
    Multi(usize, Vec<usize>),
    After(u32),
    Older(u32),
    /// 0: sha256, 1: hash256, 2: ripemd160, 3: hash160.
    Hash(usize, usize),
    AndV(Box<Pol>, Box<Pol>),
    AndB(Box<Pol>, Box<Pol>),
    OrB(Box<Pol>, Box<Pol>),
    OrD(Box<Pol>, Box<Pol>),
    OrI(Box<Pol>, Box<Pol>),
    AndOr(Box<Pol>, Box<Pol>, Box<Pol>),
    Thresh(usize, Vec<Pol>),
}
use Pol::*;

fn wrap(c: &str, s: String) -> String {
    match s.find(':') {
        Some(i) if s[..i].chars().all(|c| c.is_ascii_lowercase()) => format!("{}{}", c, s),
        _ => format!("{}:{}", c, s),
    }
}

impl Pol {
    pub fn ms(&self, tap: bool) -> String {
        self.ms_with(tap, &|i| {
            let k = &keys().keys[i];
            if tap {
                k.x.to_string()
            } else {
                k.pk.to_string()
            }
        })
    }
    /// With keys written another way.
    pub fn ms_with(&self, tap: bool, kf: &dyn Fn(usize) -> String) -> String {
        let k = |i: &usize| kf(*i);
        // As a W expression: something that leaves the element below it alone.
        let w = |p: &Pol| match p {
            Pk(_) => wrap("s", p.ms_with(tap, kf)),
            After(_) | Older(_) => wrap("sln", p.ms_with(tap, kf)),
            _ => wrap("a", p.ms_with(tap, kf)),
        };
        match self {
            Pk(i) => format!("pk({})", k(i)),
            Pkh(i) => format!("pkh({})", k(i)),
            Multi(m, v) => format!(
                "{}({},{})",
                if tap { "multi_a" } else { "multi" },
                m,
                v.iter().map(k).collect::<Vec<_>>().join(",")
            ),
            After(n) => format!("after({})", n),
            Older(n) => format!("older({})", n),
            Hash(t, i) => {
                let p = &keys().preimages[*i];
                match t {
                    0 => format!("sha256({})", sha256::Hash::hash(p)),
                    1 => format!("hash256({})", crate::raw::hex(&sha256d::Hash::hash(p).to_byte_array())),
                    2 => format!("ripemd160({})", ripemd160::Hash::hash(p)),
                    _ => format!("hash160({})", hash160::Hash::hash(p)),
                }
            }
            AndV(a, b) => format!("and_v({},{})", wrap("v", a.ms_with(tap, kf)), b.ms_with(tap, kf)),
            AndB(a, b) => format!("and_b({},{})", a.ms_with(tap, kf), w(b)),
            OrB(a, b) => format!("or_b({},{})", a.ms_with(tap, kf), w(b)),
            OrD(a, b) => format!("or_d({},{})", a.ms_with(tap, kf), b.ms_with(tap, kf)),
            OrI(a, b) => format!("or_i({},{})", a.ms_with(tap, kf), b.ms_with(tap, kf)),
            AndOr(a, b, c) => format!("andor({},{},{})", a.ms_with(tap, kf), b.ms_with(tap, kf), c.ms_with(tap, kf)),
            Thresh(m, v) => {
                let mut s = format!("thresh({},{}", m, v[0].ms_with(tap, kf));
                for p in &v[1..] {
                    s += ",";
                    s += &w(p);
                }
                s + ")"
            }
        }
    }

    pub fn keys(&self, out: &mut Vec<usize>) {
        match self {
            Pk(i) | Pkh(i) => out.push(*i),
            Multi(_, v) => out.extend(v),
            After(_) | Older(_) | Hash(..) => {}
            AndV(a, b) | AndB(a, b) | OrB(a, b) | OrD(a, b) | OrI(a, b) => {
                a.keys(out);
                b.keys(out)
            }
            AndOr(a, b, c) => {
                a.keys(out);
                b.keys(out);
                c.keys(out)
            }
            Thresh(_, v) => v.iter().for_each(|p| p.keys(out)),
        }
    }
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a Pol>) {
        match self {
            AndV(a, b) | AndB(a, b) | OrB(a, b) | OrD(a, b) | OrI(a, b) => {
                a.leaves(out);
                b.leaves(out)
            }
            AndOr(a, b, c) => {
                a.leaves(out);
                b.leaves(out);
                c.leaves(out)
            }
            Thresh(_, v) => v.iter().for_each(|p| p.leaves(out)),
            _ => out.push(self),
        }
    }

    /// Can it be satisfied if exactly the leaves for which `f` says so are available?
    pub fn sat(&self, f: &impl Fn(&Pol) -> bool, has: &impl Fn(usize) -> bool) -> bool {
        match self {
            Pk(i) | Pkh(i) => has(*i),
            Multi(m, v) => v.iter().filter(|i| has(**i)).count() >= *m,
            After(_) | Older(_) | Hash(..) => f(self),
            AndV(a, b) | AndB(a, b) => a.sat(f, has) && b.sat(f, has),
            OrB(a, b) | OrD(a, b) | OrI(a, b) => a.sat(f, has) || b.sat(f, has),
            AndOr(a, b, c) => (a.sat(f, has) && b.sat(f, has)) || c.sat(f, has),
            Thresh(m, v) => v.iter().filter(|p| p.sat(f, has)).count() >= *m,
        }
    }
}

/// How absolute time locks in a policy look like.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Unit {
    Height,
    Time,
}

pub struct PolGen {
    next: Vec<usize>,
    pub unit: Unit,
    pub rel_time: bool,
    pub locks: bool,
}
impl PolGen {
    pub fn new(r: &mut Rng, locks: bool) -> Self {
        let mut next: Vec<usize> = (0..32).collect();
        r.shuffle(&mut next);
        PolGen { next, unit: if r.bool() { Unit::Height } else { Unit::Time }, rel_time: r.bool(), locks }
    }
    pub fn key(&mut self) -> usize { self.next.pop().unwrap_or(0) }
    fn multi(&mut self, r: &mut Rng) -> Pol {
        let n = r.range(1, 4);
        let m = r.range(1, n);
        Multi(m, (0..n).map(|_| self.key()).collect())
    }
    /// Dissatisfiable and unit.
    fn du(&mut self, r: &mut Rng, d: usize) -> Pol {
        match r.below(if d == 0 { 6 } else { 9 }) {
            0..=2 => Pk(self.key()),
            3 => Pkh(self.key()),
            4 => self.multi(r),
            5 => Hash(r.below(4), r.below(7)),
            6 => OrB(Box::new(self.du(r, d - 1)), Box::new(self.w(r))),
            7 => AndB(Box::new(self.du(r, d - 1)), Box::new(self.w(r))),
            _ => {
                let n = r.range(2, 4);
                let v: Vec<_> = (0..n).map(|i| if i == 0 { self.du(r, 0) } else { self.w(r) }).collect();
                Thresh(r.range(1, n), v)
            }
        }
    }
    /// What can stand as a W expression.
    fn w(&mut self, r: &mut Rng) -> Pol {
        match r.below(8) {
            0 if self.locks => self.lock(r),
            1 => Hash(r.below(4), r.below(7)),
            2 => Pkh(self.key()),
            3 => self.multi(r),
            _ => Pk(self.key()),
        }
    }
    fn lock(&mut self, r: &mut Rng) -> Pol {
        if r.bool() {
            After(match self.unit {
                Unit::Height => 1 + r.below(1000) as u32 * 499_999,
                Unit::Time => 500_000_000 + r.below(1000) as u32 * 1_640_000,
            })
        } else {
            let top = *r.pick(&[5usize, 100, 65535]);
            let v = 1 + r.below(top) as u32;
            Older(if self.rel_time { v | 1 << 22 } else { v })
        }
    }
    /// Any base expression.
    pub fn any(&mut self, r: &mut Rng, d: usize) -> Pol {
        if d == 0 {
            return self.du(r, 0);
        }
        match r.below(8) {
            0 | 1 => {
                let a = self.du(r, d - 1);
                let b = if self.locks && r.bool() { self.lock(r) } else { self.any(r, d - 1) };
                AndV(Box::new(a), Box::new(b))
            }
            2 => OrD(Box::new(self.du(r, d - 1)), Box::new(self.any(r, d - 1))),
            3 => OrI(Box::new(self.any(r, d - 1)), Box::new(self.any(r, d - 1))),
            4 => AndOr(Box::new(self.du(r, d - 1)), Box::new(self.any(r, d - 1)), Box::new(self.any(r, d - 1))),
            5 => AndV(Box::new(Hash(r.below(4), r.below(8))), Box::new(self.any(r, d - 1))),
            _ => self.du(r, d),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Pk,
    Pkh,
    PkhUncompressed,
    BareMulti,
    Sh,
    Wpkh,
    ShWpkh,
    Wsh,
    ShWsh,
    TrKey,
    TrScript,
}
pub const ECDSA_KINDS: [Kind; 8] =
    [Kind::Pk, Kind::Pkh, Kind::BareMulti, Kind::Sh, Kind::Wpkh, Kind::ShWpkh, Kind::Wsh, Kind::ShWsh];
impl Kind {
    pub fn segwit(self) -> bool {
        !matches!(self, Kind::Pk | Kind::Pkh | Kind::PkhUncompressed | Kind::BareMulti | Kind::Sh)
    }
    pub fn tap(self) -> bool { matches!(self, Kind::TrKey | Kind::TrScript) }
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub pol: Pol,
    pub script: ScriptBuf,
    pub cb: ControlBlock,
    pub hash: TapLeafHash,
}

#[derive(Clone, Debug)]
pub struct Tr {
    pub internal: usize,
    pub root: Option<TapNodeHash>,
    pub leaves: Vec<Leaf>,
}

#[derive(Clone, Debug)]
pub struct Inp {
    pub kind: Kind,
    pub pol: Pol,
    pub spk: ScriptBuf,
    pub redeem: Option<ScriptBuf>,
    pub wscript: Option<ScriptBuf>,
    pub tr: Option<Tr>,
    pub prev: Transaction,
    pub vout: u32,
    pub nwu: bool,
    pub wu: bool,
    pub seq: Option<Sequence>,
    pub min_height: Option<u32>,
    pub min_time: Option<u32>,
    pub sighash: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub version: i32,
    pub fallback: Option<LockTime>,
    pub ins: Vec<Inp>,
    pub outs: Vec<TxOut>,
}

impl Inp {
    pub fn txout(&self) -> &TxOut { &self.prev.output[self.vout as usize] }
    pub fn outpoint(&self) -> OutPoint { OutPoint { txid: self.prev.compute_txid(), vout: self.vout } }
    pub fn key_ids(&self) -> Vec<usize> {
        let mut v = vec![];
        match &self.tr {
            Some(t) => {
                v.push(t.internal);
                t.leaves.iter().for_each(|l| l.pol.keys(&mut v));
            }
            None => self.pol.keys(&mut v),
        }
        v.sort();
        v.dedup();
        v
    }
    /// The script an ECDSA signature commits to.
    pub fn code(&self) -> Vec<u8> {
        match self.kind {
            Kind::Wpkh => sighash::wpkh_code(&self.spk.as_bytes()[2..]),
            Kind::ShWpkh => sighash::wpkh_code(&self.redeem.as_ref().unwrap().as_bytes()[2..]),
            Kind::Wsh | Kind::ShWsh => self.wscript.as_ref().unwrap().to_bytes(),
            Kind::Sh => self.redeem.as_ref().unwrap().to_bytes(),
            _ => self.spk.to_bytes(),
        }
    }
    pub fn pubkey(&self, k: usize) -> PublicKey {
        let k = &keys().keys[k];
        if self.kind == Kind::PkhUncompressed {
            PublicKey::new_uncompressed(k.pk)
        } else {
            k.pubkey()
        }
    }
}

pub fn ecdsa_hash(tx: &Transaction, i: usize, inp: &Inp, ty: u32) -> [u8; 32] {
    if inp.kind.segwit() {
        sighash::segwit_v0(tx, i, &inp.code(), inp.txout().value.to_sat(), ty)
    } else {
        sighash::legacy(tx, i, &inp.code(), ty)
    }
}

pub fn sign_ecdsa(tx: &Transaction, i: usize, inp: &Inp, k: usize, ty: EcdsaSighashType) -> ecdsa::Signature {
    let m = Message::from_digest(ecdsa_hash(tx, i, inp, ty as u32));
    ecdsa::Signature { signature: secp().sign_ecdsa(&m, &keys().keys[k].sk), sighash_type: ty }
}

/// Schnorr signature; key path (tweaked) if `leaf` is none.
pub fn sign_tap(
    tx: &Transaction,
    i: usize,
    prevouts: &[TxOut],
    t: &Tr,
    k: usize,
    leaf: Option<&Leaf>,
    ty: TapSighashType,
) -> Option<taproot::Signature> {
    let h = sighash::taproot(tx, i, prevouts, ty as u8, leaf.map(|l| l.hash.to_byte_array()))?;
    let mut kp = keys().keys[k].sk.keypair(secp());
    if leaf.is_none() {
        use bitcoin::key::TapTweak;
        kp = kp.tap_tweak(secp(), t.root).to_keypair();
    }
    Some(taproot::Signature {
        signature: secp().sign_schnorr_no_aux_rand(&Message::from_digest(h), &kp),
        sighash_type: ty,
    })
}

/// Parses leniently, so that every consistent policy is usable, sane or not.
fn script_of(pol: &Pol, kind: Kind) -> Option<ScriptBuf> {
    let s = pol.ms(kind.tap());
    let x = match kind {
        Kind::Sh => Miniscript::<PublicKey, Legacy>::from_str_insane(&s).map(|m| m.encode()),
        Kind::TrScript => Miniscript::<XOnlyPublicKey, Tap>::from_str_insane(&s).map(|m| m.encode()),
        Kind::BareMulti => Miniscript::<PublicKey, BareCtx>::from_str_insane(&s).map(|m| m.encode()),
        _ => Miniscript::<PublicKey, Segwitv0>::from_str_insane(&s).map(|m| m.encode()),
    };
    match x {
        Ok(s) => Some(s),
        Err(e) => {
            if std::env::var("MON_DEBUG").is_ok() {
                eprintln!("policy {} not usable: {}", s, e);
            }
            None
        }
    }
}

pub fn input(r: &mut Rng, kind: Kind, locks: bool) -> Inp { input_of(r, kind, locks, None) }

/// With a given policy instead of a random one.
pub fn input_of(r: &mut Rng, kind: Kind, locks: bool, fixed: Option<&Pol>) -> Inp {
    loop {
        let mut g = PolGen::new(r, locks);
        let d = *r.pick(&[0usize, 1, 1, 2, 2, 3]);
        let pol = match kind {
            Kind::Pk => Pk(g.key()),
            Kind::Pkh | Kind::PkhUncompressed | Kind::Wpkh | Kind::ShWpkh | Kind::TrKey => Pkh(g.key()),
            Kind::BareMulti => {
                let n = r.range(1, 3);
                Multi(r.range(1, n), (0..n).map(|_| g.key()).collect())
            }
            Kind::TrScript => Pk(g.key()),
            _ => g.any(r, d),
        };
        let pol = fixed.cloned().unwrap_or(pol);
        let mut redeem = None;
        let mut wscript = None;
        let mut tr = None;
        let k0 = {
            let mut v = vec![];
            pol.keys(&mut v);
            v.first().map(|k| &keys().keys[*k])
        };
        let spk = match kind {
            Kind::Pk => ScriptBuf::new_p2pk(&k0.unwrap().pubkey()),
            Kind::Pkh => ScriptBuf::new_p2pkh(&k0.unwrap().pubkey().pubkey_hash()),
            Kind::PkhUncompressed =>
                ScriptBuf::new_p2pkh(&PublicKey::new_uncompressed(k0.unwrap().pk).pubkey_hash()),
            Kind::BareMulti => match script_of(&pol, kind) {
                Some(s) => s,
                None => continue,
            },
            Kind::Wpkh => ScriptBuf::new_p2wpkh(&k0.unwrap().pubkey().wpubkey_hash().unwrap()),
            Kind::ShWpkh => {
                let x = ScriptBuf::new_p2wpkh(&k0.unwrap().pubkey().wpubkey_hash().unwrap());
                redeem = Some(x.clone());
                x.to_p2sh()
            }
            Kind::Sh => {
                let Some(s) = script_of(&pol, kind) else { continue };
                if s.len() > 500 || s.is_p2wsh() || s.is_p2wpkh() {
                    continue;
                }
                redeem = Some(s.clone());
                s.to_p2sh()
            }
            Kind::Wsh | Kind::ShWsh => {
                let Some(s) = script_of(&pol, kind) else { continue };
                if s.len() > 3500 {
                    continue;
                }
                wscript = Some(s.clone());
                if kind == Kind::Wsh {
                    s.to_p2wsh()
                } else {
                    redeem = Some(s.to_p2wsh());
                    s.to_p2wsh().to_p2sh()
                }
            }
            Kind::TrKey | Kind::TrScript => {
                let internal = g.key();
                let n = match kind {
                    Kind::TrKey if r.bool() => 0,
                    _ => r.range(1, 4),
                };
                let mut b = TaprootBuilder::new();
                let mut ls = vec![];
                if n > 0 {
                    for (d, _) in gen::tree_shape(r, n) {
                        let (p, s) = loop {
                            let dd = *r.pick(&[0usize, 1, 1, 2]);
                            let p = g.any(r, dd);
                            if let Some(s) = script_of(&p, Kind::TrScript) {
                                break (p, s);
                            }
                            g = PolGen::new(r, locks);
                            g.next.retain(|k| *k != internal);
                        };
                        b = b.add_leaf(d, s.clone()).unwrap();
                        ls.push((p, s));
                    }
                }
                let info = b.finalize(secp(), keys().keys[internal].x).unwrap();
                let leaves = ls
                    .into_iter()
                    .map(|(pol, script)| Leaf {
                        cb: info.control_block(&(script.clone(), LeafVersion::TapScript)).unwrap(),
                        hash: TapLeafHash::from_script(&script, LeafVersion::TapScript),
                        pol,
                        script,
                    })
                    .collect();
                tr = Some(Tr { internal, root: info.merkle_root(), leaves });
                ScriptBuf::new_p2tr_tweaked(info.output_key())
            }
        };
        let no = r.range(1, 4);
        let vout = r.below(no) as u32;
        let mut prev = gen::tx(r);
        prev.output = (0..no).map(|_| gen::txout(r)).collect();
        prev.output[vout as usize] = TxOut { value: Amount::from_sat(1_000_000 + r.below(1 << 40) as u64), script_pubkey: spk.clone() };
        // A transaction serialized without witnesses must not look like one with them.
        if prev.input.iter().all(|i| i.witness.is_empty()) && prev.input.is_empty() {
            prev.input.push(TxIn::default());
        }
        let (nwu, wu) = if kind.segwit() {
            *r.pick(&[(false, true), (true, true), (true, false), (false, true)])
        } else {
            (true, false)
        };
        return Inp {
            kind,
            pol,
            spk,
            redeem,
            wscript,
            tr,
            prev,
            vout,
            nwu,
            wu,
            seq: None,
            min_height: None,
            min_time: None,
            sighash: None,
        };
    }
}

/// Sets sequence and required lock times so that every lock in the policy that can be met is met.
pub fn meet_locks(r: &mut Rng, i: &mut Inp) {
    let mut ls = vec![];
    match &i.tr {
        Some(t) => t.leaves.iter().for_each(|l| l.pol.leaves(&mut ls)),
        None => i.pol.leaves(&mut ls),
    }
    let (mut h, mut t, mut rel_b, mut rel_t) = (0u32, 0u32, 0u32, 0u32);
    for l in ls {
        match l {
            After(n) if *n < 500_000_000 => h = h.max(*n),
            After(n) => t = t.max(*n),
            Older(n) if n & (1 << 22) == 0 => rel_b = rel_b.max(*n),
            Older(n) => rel_t = rel_t.max(*n & 0xffff),
            _ => {}
        }
    }
    if h > 0 {
        i.min_height = Some((h + r.below(3) as u32).min(499_999_999));
    }
    if t > 0 {
        i.min_time = Some(t.saturating_add(r.below(3) as u32));
    }
    let slack = r.below(2) as u32;
    if rel_b > 0 {
        i.seq = Some(Sequence((rel_b + slack).min(0xffff)));
    } else if rel_t > 0 {
        i.seq = Some(Sequence((rel_t + slack).min(0xffff) | 1 << 22));
    } else if h > 0 || t > 0 {
        i.seq = Some(*r.pick(&[Sequence(u32::MAX - 1), Sequence(0), Sequence(u32::MAX - 2)]));
    } else {
        i.seq = gen::opt(r, 5, gen::sequence);
    }
}

impl Scen {
    pub fn prevouts(&self) -> Vec<TxOut> { self.ins.iter().map(|i| i.txout().clone()).collect() }

    /// The transaction every signature has to commit to, by BIP-370.
    pub fn tx(&self) -> Option<Transaction> {
        let reqs: Vec<_> = self.ins.iter().map(|i| (i.min_time, i.min_height)).collect();
        let lt = crate::model::lock_time_of(self.fallback.map(|l| l.to_consensus_u32()), &reqs).ok()?;
        Some(Transaction {
            version: transaction::Version(self.version),
            lock_time: LockTime::from_consensus(lt),
            input: self
                .ins
                .iter()
                .map(|i| TxIn {
                    previous_output: i.outpoint(),
                    script_sig: ScriptBuf::new(),
                    sequence: i.seq.unwrap_or(Sequence::MAX),
                    witness: Witness::new(),
                })
                .collect(),
            output: self.outs.clone(),
        })
    }

    /// Built the way a user does, through the roles.
    pub fn v2(&self) -> v2::Psbt {
        let mut c = v2::Creator::new();
        if let Some(f) = self.fallback {
            c = c.fallback_lock_time(f);
        }
        let mut c = c
            .transaction_version(transaction::Version(self.version))
            .constructor_modifiable();
        for i in &self.ins {
            let mut x = v2::Input::new(&i.outpoint());
            x.sequence = i.seq;
            x.min_height = i.min_height.map(|h| Height::from_consensus(h).unwrap());
            x.min_time = i.min_time.map(|t| Time::from_consensus(t).unwrap());
            if i.nwu {
                x.non_witness_utxo = Some(i.prev.clone());
            }
            if i.wu {
                x.witness_utxo = Some(i.txout().clone());
            }
            x.sighash_type = i.sighash.map(psbt_v2::PsbtSighashType::from_u32);
            x.redeem_script = i.redeem.clone();
            x.witness_script = i.wscript.clone();
            for k in i.key_ids() {
                let k = &keys().keys[k];
                if !i.kind.tap() {
                    x.bip32_derivations.insert(k.pk, k.source.clone());
                }
            }
            if let Some(t) = &i.tr {
                x.tap_internal_key = Some(keys().keys[t.internal].x);
                x.tap_merkle_root = t.root;
                x.tap_key_origins = origins(t);
                for l in &t.leaves {
                    x.tap_scripts.insert(l.cb.clone(), (l.script.clone(), LeafVersion::TapScript));
                }
            }
            c = c.input(x);
        }
        for o in &self.outs {
            c = c.output(v2::Output::new(o.clone()));
        }
        c.psbt().expect("lock time exists")
    }

    pub fn v0(&self) -> v0::bitcoin::Psbt {
        let mut p = v0::bitcoin::Psbt::from_unsigned_tx(self.tx().unwrap()).unwrap();
        for (i, x) in self.ins.iter().zip(p.inputs.iter_mut()) {
            if i.nwu {
                x.non_witness_utxo = Some(i.prev.clone());
            }
            if i.wu {
                x.witness_utxo = Some(i.txout().clone());
            }
            x.sighash_type = i.sighash.map(psbt_v2::PsbtSighashType::from_u32);
            x.redeem_script = i.redeem.clone();
            x.witness_script = i.wscript.clone();
            for k in i.key_ids() {
                let k = &keys().keys[k];
                if !i.kind.tap() {
                    x.bip32_derivation.insert(k.pk, k.source.clone());
                }
            }
            if let Some(t) = &i.tr {
                x.tap_internal_key = Some(keys().keys[t.internal].x);
                x.tap_merkle_root = t.root;
                x.tap_key_origins = origins(t);
                for l in &t.leaves {
                    x.tap_scripts.insert(l.cb.clone(), (l.script.clone(), LeafVersion::TapScript));
                }
            }
        }
        p
    }
}

fn origins(t: &Tr) -> std::collections::BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)> {
    let mut m = std::collections::BTreeMap::new();
    let k = &keys().keys[t.internal];
    m.insert(k.x, (vec![], k.source.clone()));
    for l in &t.leaves {
        let mut v = vec![];
        l.pol.keys(&mut v);
        for k in v {
            let k = &keys().keys[k];
            let e = m.entry(k.x).or_insert((vec![], k.source.clone()));
            if !e.0.contains(&l.hash) {
                e.0.push(l.hash);
            }
        }
    }
    m
}

pub fn fp(i: usize) -> Fingerprint { keys().masters[i].fingerprint(secp()) }

/// A scenario with satisfiable lock times.
pub fn scen(r: &mut Rng, kinds: &[Kind], locks: bool) -> Scen {
    loop {
        let n = match r.below(10) {
            // More inputs than one byte can index.
            0 if r.chance(1, 60) => {
                if r.bool() {
                    r.range(20, 120)
                } else {
                    r.range(257, 300)
                }
            }
            0 => r.range(4, 6),
            _ => r.range(1, 3),
        };
        let mut ins: Vec<Inp> = (0..n)
            .map(|_| {
                let k = *r.pick(kinds);
                // Many would hardly ever agree on a kind of lock.
                input(r, k, locks && n < 20)
            })
            .collect();
        for i in ins.iter_mut() {
            meet_locks(r, i);
            if i.min_height.is_none() && i.min_time.is_none() && r.chance(1, 5) {
                if n >= 20 || r.bool() {
                    i.min_height = Some(gen::height(r).to_consensus_u32());
                } else {
                    i.min_time = Some(gen::time(r).to_consensus_u32());
                }
            } else if i.min_height.is_some() && i.min_time.is_none() && r.chance(1, 4) {
                i.min_time = Some(gen::time(r).to_consensus_u32());
            } else if i.min_time.is_some() && i.min_height.is_none() && r.chance(1, 4) {
                i.min_height = Some(gen::height(r).to_consensus_u32());
            }
        }
        let no = match r.below(24) {
            0..=2 => r.range(5, 8),
            3 => 0,
            _ => r.range(1, 3),
        };
        let outs = (0..no)
            .map(|_| TxOut { value: Amount::from_sat(r.below(100_000) as u64), script_pubkey: gen::script_nonempty(r) })
            .collect();
        let s = Scen {
            version: *r.pick(&[2, 2, 2, 3]),
            fallback: gen::opt(r, 5, gen::lock_time),
            ins,
            outs,
        };
        if s.tx().is_some() {
            return s;
        }
    }
}
