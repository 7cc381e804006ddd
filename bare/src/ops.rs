//! What a build with any features can do with a PSBT. Compiled into the monitors and into builds with fewer features.
use std::collections::BTreeMap;

use bitcoin::bip32::Xpriv;
use bitcoin::secp256k1::{All, Secp256k1};
use bitcoin::sighash::SighashCache;
use bitcoin::{PrivateKey, PublicKey};
use psbt_v2::{v0, v2};

pub struct Env {
    pub secp: Secp256k1<All>,
    pub keys: BTreeMap<PublicKey, PrivateKey>,
    pub xprivs: Vec<Xpriv>,
}

pub type Answers = Vec<(&'static str, String)>;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn put<T, E: std::fmt::Debug>(a: &mut Answers, name: &'static str, r: Result<T, E>, f: impl FnOnce(&T) -> String) -> Option<T> {
    match r {
        Ok(t) => {
            a.push((name, f(&t)));
            Some(t)
        }
        Err(e) => {
            a.push((name, format!("error {:?}", e)));
            None
        }
    }
}

pub fn v2_ops(env: &Env, bytes: &[u8], other: &[u8], which: usize) -> Answers {
    let mut a = vec![];
    let Some(p) = put(&mut a, "v2 deserialize", v2::Psbt::deserialize(bytes), |p| hex(&p.serialize())) else { return a };
    put(&mut a, "v2 lock time", p.determine_lock_time(), |t| t.to_string());
    put(&mut a, "v2 fee", p.fee(), |t| t.to_string());
    a.push(("v2 is_finalized", p.is_finalized().to_string()));
    for u in p.iter_funding_utxos() {
        put(&mut a, "v2 funding utxo", u, |u| format!("{:?}", u));
    }
    if let Ok(q) = v2::Psbt::deserialize(other) {
        put(&mut a, "v2 combine", p.clone().combine_with(q.clone()), |p| hex(&p.serialize()));
        put(&mut a, "v2 combine back", v2::combine(q, p.clone()), |p| hex(&p.serialize()));
    }
    put(&mut a, "v2 constructor", v2::Constructor::<v2::Modifiable>::new(p.clone()).map(|c| c.psbt().map(|p| hex(&p.serialize()))), |s| format!("{:?}", s));
    put(&mut a, "v2 constructor in", v2::Constructor::<v2::InputsOnlyModifiable>::new(p.clone()).map(|c| c.no_more_inputs().psbt().map(|p| hex(&p.serialize()))), |s| format!("{:?}", s));
    put(&mut a, "v2 constructor out", v2::Constructor::<v2::OutputsOnlyModifiable>::new(p.clone()).map(|c| c.no_more_outputs().psbt().map(|p| hex(&p.serialize()))), |s| format!("{:?}", s));
    if let Some(u) = put(&mut a, "v2 updater", v2::Updater::new(p.clone()), |u| u.id().to_string()) {
        put(&mut a, "v2 set_sequence", u.set_sequence(bitcoin::Sequence(which as u32), which % 3), |u| u.id().to_string());
    }
    if let Some(s) = put(&mut a, "v2 signer", v2::Signer::new(p.clone()), |s| format!("{:?}", s.id())) {
        let tx = s.unsigned_tx();
        a.push(("v2 unsigned_tx", bitcoin::consensus::encode::serialize_hex(&tx)));
        let mut cache = SighashCache::new(&tx);
        for i in 0..=p.inputs.len() {
            put(&mut a, "v2 sighash", p.sighash_ecdsa(i, &mut cache), |m| format!("{:?}", m));
        }
        let show = |(p, k): &(v2::Psbt, v2::SigningKeys)| format!("{} {:?}", hex(&p.serialize()), k);
        match env.xprivs.get(which) {
            Some(x) => put(&mut a, "v2 sign", s.sign(x, &env.secp), show),
            None => put(&mut a, "v2 sign", s.sign(&env.keys, &env.secp), show),
        };
    }
    if let Some(e) = put(&mut a, "v2 extractor", v2::Extractor::new(p.clone()), |e| e.id().to_string()) {
        put(&mut a, "v2 extract_tx", e.extract_tx(), bitcoin::consensus::encode::serialize_hex);
        put(&mut a, "v2 extract unchecked", e.extract_tx_unchecked_fee_rate(), bitcoin::consensus::encode::serialize_hex);
    }
    a
}

/// Schnorr signatures may be made with randomness: they are returned in the signed PSBT only.
pub fn v0_ops(env: &Env, bytes: &[u8], other: &[u8], which: usize) -> (Answers, Option<Vec<u8>>) {
    let mut a = vec![];
    let Some(p) = put(&mut a, "v0 deserialize", v0::bitcoin::Psbt::deserialize(bytes), |p| hex(&p.serialize())) else { return (a, None) };
    put(&mut a, "v0 fee", p.fee(), |t| t.to_string());
    for u in p.iter_funding_utxos() {
        put(&mut a, "v0 funding utxo", u, |u| format!("{:?}", u));
    }
    if let Ok(q) = v0::bitcoin::Psbt::deserialize(other) {
        let mut x = p.clone();
        put(&mut a, "v0 combine", x.combine(q.clone()), |_| String::new());
        a.push(("v0 combined", hex(&x.serialize())));
    }
    put(&mut a, "v0 extract_tx", p.clone().extract_tx(), bitcoin::consensus::encode::serialize_hex);
    a.push(("v0 extract unchecked", bitcoin::consensus::encode::serialize_hex(&p.clone().extract_tx_unchecked_fee_rate())));
    put(&mut a, "v0 from tx", v0::bitcoin::Psbt::from_unsigned_tx(p.unsigned_tx.clone()), |p| hex(&p.serialize()));
    let tx = p.unsigned_tx.clone();
    let mut cache = SighashCache::new(&tx);
    for i in 0..=p.inputs.len() {
        put(&mut a, "v0 sighash", p.sighash_ecdsa(i, &mut cache), |m| format!("{:?}", m));
    }
    let mut s = p.clone();
    let r = match env.xprivs.get(which) {
        Some(x) => s.sign(x, &env.secp),
        None => s.sign(&env.keys, &env.secp),
    };
    put(&mut a, "v0 sign", r, |k| format!("{:?}", k));
    let mut bare = s.clone();
    for i in bare.inputs.iter_mut() {
        i.tap_key_sig = None;
        for v in i.tap_script_sigs.values_mut() {
            v.signature = bitcoin::secp256k1::schnorr::Signature::from_slice(&[1; 64]).unwrap();
        }
    }
    a.push(("v0 signed", hex(&bare.serialize())));
    a.push(("v0 tap keys signed", s.inputs.iter().map(|i| if i.tap_key_sig.is_some() { '1' } else { '0' }).collect()));
    (a, Some(s.serialize()))
}

/// `k SECRET`, `x XPRIV`, then a line per case: version, which key, PSBT, another PSBT. Answers with a line per case.
pub fn run_file(text: &str) -> String {
    let secp = Secp256k1::new();
    let mut env = Env { keys: BTreeMap::new(), xprivs: vec![], secp };
    let unhex = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let mut out = String::new();
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "k" => {
                let k = PrivateKey::from_slice(&unhex(f[1]), bitcoin::Network::Bitcoin).unwrap();
                env.keys.insert(k.public_key(&env.secp), k);
            }
            "x" => env.xprivs.push(f[1].parse().unwrap()),
            _ => {
                let (b, o, which) = (unhex(f[2]), unhex(f[3]), f[1].parse().unwrap());
                let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if f[0] == "2" {
                        (v2_ops(&env, &b, &o, which), None)
                    } else {
                        v0_ops(&env, &b, &o, which)
                    }
                }));
                let (a, s) = got.unwrap_or_else(|_| (vec![("panic", String::new())], None));
                let a: Vec<String> = a.iter().map(|(n, t)| format!("{}\x1f{}", n, t.replace('\n', " "))).collect();
                out.push_str(&format!("{}\x1e{}\n", a.join("\x1d"), s.map(|s| hex(&s)).unwrap_or_default()));
            }
        }
    }
    out
}
