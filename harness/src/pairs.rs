//! Independent statement of where each field lives on the wire (BIP-174, BIP-370, BIP-371, BIP-375).
//! Value encodings are written out here by hand wherever they belong to the PSBT format itself;
//! transactions, scripts, keys and signatures use rust-bitcoin's consensus encodings.

use bitcoin::bip32::KeySource;
use bitcoin::consensus::serialize;
use bitcoin::hashes::Hash;
use bitcoin::taproot::TapTree;
use bitcoin::{taproot, PublicKey, TxOut, Witness};
use psbt_v2::v0;
use psbt_v2::v2::{Global, Input, Output, Psbt};

use crate::raw::{compact, Map, Raw, KV};

fn ks(k: &KeySource) -> Vec<u8> {
    let mut v = k.0.to_bytes().to_vec();
    for c in k.1.into_iter() {
        v.extend(u32::from(*c).to_le_bytes());
    }
    v
}
fn txout(t: &TxOut) -> Vec<u8> {
    let mut v = t.value.to_sat().to_le_bytes().to_vec();
    v.extend(compact(t.script_pubkey.len() as u64));
    v.extend(t.script_pubkey.as_bytes());
    v
}
fn wit(w: &Witness) -> Vec<u8> {
    let mut v = compact(w.len() as u64);
    for e in w.iter() {
        v.extend(compact(e.len() as u64));
        v.extend(e);
    }
    v
}
pub fn pubkey(p: &PublicKey) -> Vec<u8> {
    if p.compressed {
        p.inner.serialize().to_vec()
    } else {
        p.inner.serialize_uncompressed().to_vec()
    }
}
fn esig(s: &bitcoin::ecdsa::Signature) -> Vec<u8> {
    let mut v = s.signature.serialize_der().to_vec();
    v.push(s.sighash_type as u8);
    v
}
fn tsig(s: &taproot::Signature) -> Vec<u8> {
    let mut v = s.signature.as_ref().to_vec();
    if s.sighash_type as u8 != 0 {
        v.push(s.sighash_type as u8);
    }
    v
}
fn tap_origin(lh: &[taproot::TapLeafHash], k: &KeySource) -> Vec<u8> {
    let mut v = compact(lh.len() as u64);
    for l in lh {
        v.extend(l.as_byte_array());
    }
    v.extend(ks(k));
    v
}
pub fn tap_tree(t: &TapTree) -> Vec<u8> {
    let mut v = vec![];
    for l in t.script_leaves() {
        v.push(l.merkle_branch().len() as u8);
        v.push(l.version().to_consensus());
        v.extend(compact(l.script().len() as u64));
        v.extend(l.script().as_bytes());
    }
    v
}
fn prop(prefix: &[u8], subtype: u8, key: &[u8]) -> Vec<u8> {
    let mut v = compact(prefix.len() as u64);
    v.extend(prefix);
    v.push(subtype);
    v.extend(key);
    v
}

pub fn v2_global(g: &Global) -> Map {
    let mut m = vec![];
    m.push(KV::new(0xfb, [], u32::from(g.version).to_le_bytes()));
    m.push(KV::new(0x02, [], g.tx_version.0.to_le_bytes()));
    if let Some(l) = g.fallback_lock_time {
        m.push(KV::new(0x03, [], l.to_consensus_u32().to_le_bytes()));
    }
    m.push(KV::new(0x04, [], compact(g.input_count as u64)));
    m.push(KV::new(0x05, [], compact(g.output_count as u64)));
    m.push(KV::new(0x06, [], [g.tx_modifiable_flags]));
    for (x, k) in &g.xpubs {
        m.push(KV::new(0x01, x.encode(), ks(k)));
    }
    #[cfg(feature = "sp")]
    {
        for (k, v) in &g.sp_ecdh_shares {
            m.push(KV::new(0x07, k.to_bytes(), v.to_bytes()));
        }
        for (k, v) in &g.sp_dleq_proofs {
            m.push(KV::new(0x08, k.to_bytes(), v.0));
        }
    }
    for (k, v) in &g.proprietaries {
        m.push(KV::new(0xfc, prop(&k.prefix, k.subtype, &k.key), v.clone()));
    }
    for (k, v) in &g.unknowns {
        m.push(KV::new(k.type_value, k.key.clone(), v.clone()));
    }
    m
}

macro_rules! common_input {
    ($m:ident, $i:ident, $bip32:ident, $prop:ident, $unk:ident) => {
        if let Some(t) = &$i.non_witness_utxo {
            $m.push(KV::new(0x00, [], serialize(t)));
        }
        if let Some(t) = &$i.witness_utxo {
            $m.push(KV::new(0x01, [], txout(t)));
        }
        for (k, s) in &$i.partial_sigs {
            $m.push(KV::new(0x02, pubkey(k), esig(s)));
        }
        if let Some(s) = $i.sighash_type {
            $m.push(KV::new(0x03, [], s.to_u32().to_le_bytes()));
        }
        if let Some(s) = &$i.redeem_script {
            $m.push(KV::new(0x04, [], s.as_bytes()));
        }
        if let Some(s) = &$i.witness_script {
            $m.push(KV::new(0x05, [], s.as_bytes()));
        }
        for (k, s) in &$i.$bip32 {
            $m.push(KV::new(0x06, k.serialize(), ks(s)));
        }
        if let Some(s) = &$i.final_script_sig {
            $m.push(KV::new(0x07, [], s.as_bytes()));
        }
        if let Some(s) = &$i.final_script_witness {
            $m.push(KV::new(0x08, [], wit(s)));
        }
        for (k, s) in &$i.ripemd160_preimages {
            $m.push(KV::new(0x0a, k.as_byte_array().to_vec(), s.clone()));
        }
        for (k, s) in &$i.sha256_preimages {
            $m.push(KV::new(0x0b, k.as_byte_array().to_vec(), s.clone()));
        }
        for (k, s) in &$i.hash160_preimages {
            $m.push(KV::new(0x0c, k.as_byte_array().to_vec(), s.clone()));
        }
        for (k, s) in &$i.hash256_preimages {
            $m.push(KV::new(0x0d, k.as_byte_array().to_vec(), s.clone()));
        }
        if let Some(s) = &$i.tap_key_sig {
            $m.push(KV::new(0x13, [], tsig(s)));
        }
        for ((x, l), s) in &$i.tap_script_sigs {
            let mut k = x.serialize().to_vec();
            k.extend(l.as_byte_array());
            $m.push(KV::new(0x14, k, tsig(s)));
        }
        for (cb, (s, v)) in &$i.tap_scripts {
            let mut b = s.to_bytes();
            b.push(v.to_consensus());
            $m.push(KV::new(0x15, cb.serialize(), b));
        }
        for (x, (lh, k)) in &$i.tap_key_origins {
            $m.push(KV::new(0x16, x.serialize(), tap_origin(lh, k)));
        }
        if let Some(x) = &$i.tap_internal_key {
            $m.push(KV::new(0x17, [], x.serialize()));
        }
        if let Some(x) = &$i.tap_merkle_root {
            $m.push(KV::new(0x18, [], *x.as_byte_array()));
        }
        for (k, v) in &$i.$prop {
            $m.push(KV::new(0xfc, prop(&k.prefix, k.subtype, &k.key), v.clone()));
        }
        for (k, v) in &$i.$unk {
            $m.push(KV::new(k.type_value, k.key.clone(), v.clone()));
        }
    };
}
macro_rules! common_output {
    ($m:ident, $o:ident, $bip32:ident, $prop:ident, $unk:ident) => {
        if let Some(s) = &$o.redeem_script {
            $m.push(KV::new(0x00, [], s.as_bytes()));
        }
        if let Some(s) = &$o.witness_script {
            $m.push(KV::new(0x01, [], s.as_bytes()));
        }
        for (k, s) in &$o.$bip32 {
            $m.push(KV::new(0x02, k.serialize(), ks(s)));
        }
        if let Some(x) = &$o.tap_internal_key {
            $m.push(KV::new(0x05, [], x.serialize()));
        }
        if let Some(t) = &$o.tap_tree {
            $m.push(KV::new(0x06, [], tap_tree(t)));
        }
        for (x, (lh, k)) in &$o.tap_key_origins {
            $m.push(KV::new(0x07, x.serialize(), tap_origin(lh, k)));
        }
        for (k, v) in &$o.$prop {
            $m.push(KV::new(0xfc, prop(&k.prefix, k.subtype, &k.key), v.clone()));
        }
        for (k, v) in &$o.$unk {
            $m.push(KV::new(k.type_value, k.key.clone(), v.clone()));
        }
    };
}

pub fn v2_input(i: &Input) -> Map {
    let mut m = vec![];
    m.push(KV::new(0x0e, [], *i.previous_txid.as_byte_array()));
    m.push(KV::new(0x0f, [], i.spent_output_index.to_le_bytes()));
    if let Some(s) = i.sequence {
        m.push(KV::new(0x10, [], s.0.to_le_bytes()));
    }
    if let Some(t) = i.min_time {
        m.push(KV::new(0x11, [], t.to_consensus_u32().to_le_bytes()));
    }
    if let Some(t) = i.min_height {
        m.push(KV::new(0x12, [], t.to_consensus_u32().to_le_bytes()));
    }
    #[cfg(feature = "sp")]
    {
        for (k, v) in &i.sp_ecdh_shares {
            m.push(KV::new(0x1d, k.to_bytes(), v.to_bytes()));
        }
        for (k, v) in &i.sp_dleq_proofs {
            m.push(KV::new(0x1e, k.to_bytes(), v.0));
        }
    }
    common_input!(m, i, bip32_derivations, proprietaries, unknowns);
    m
}

pub fn v2_output(o: &Output) -> Map {
    let mut m = vec![];
    m.push(KV::new(0x03, [], o.amount.to_sat().to_le_bytes()));
    #[cfg(feature = "sp")]
    {
        if !(o.sp_v0_info.is_some() && o.script_pubkey.is_empty()) {
            m.push(KV::new(0x04, [], o.script_pubkey.as_bytes()));
        }
        if let Some(i) = &o.sp_v0_info {
            m.push(KV::new(0x09, [], i.clone()));
        }
        if let Some(i) = &o.sp_v0_label {
            m.push(KV::new(0x0a, [], i.to_le_bytes()));
        }
    }
    #[cfg(not(feature = "sp"))]
    m.push(KV::new(0x04, [], o.script_pubkey.as_bytes()));
    common_output!(m, o, bip32_derivations, proprietaries, unknowns);
    m
}

pub fn v2(p: &Psbt) -> Raw {
    let mut maps = vec![v2_global(&p.global)];
    maps.extend(p.inputs.iter().map(v2_input));
    maps.extend(p.outputs.iter().map(v2_output));
    Raw { maps, trailing: vec![] }
}

pub fn v0(p: &v0::bitcoin::Psbt) -> Raw {
    let mut g = vec![];
    // The unsigned transaction is always in the non-witness encoding.
    let t = &p.unsigned_tx;
    let mut b = t.version.0.to_le_bytes().to_vec();
    b.extend(compact(t.input.len() as u64));
    for i in &t.input {
        b.extend(i.previous_output.txid.as_byte_array());
        b.extend(i.previous_output.vout.to_le_bytes());
        b.push(0);
        b.extend(i.sequence.0.to_le_bytes());
    }
    b.extend(compact(t.output.len() as u64));
    for o in &t.output {
        b.extend(txout(o));
    }
    b.extend(t.lock_time.to_consensus_u32().to_le_bytes());
    g.push(KV::new(0x00, [], b));
    for (x, k) in &p.xpub {
        g.push(KV::new(0x01, x.encode(), ks(k)));
    }
    if p.version > 0 {
        g.push(KV::new(0xfb, [], p.version.to_le_bytes()));
    }
    for (k, v) in &p.proprietary {
        g.push(KV::new(0xfc, prop(&k.prefix, k.subtype, &k.key), v.clone()));
    }
    for (k, v) in &p.unknown {
        g.push(KV::new(k.type_value, k.key.clone(), v.clone()));
    }
    let mut maps = vec![g];
    for i in &p.inputs {
        let mut m = vec![];
        common_input!(m, i, bip32_derivation, proprietary, unknown);
        maps.push(m);
    }
    for o in &p.outputs {
        let mut m = vec![];
        common_output!(m, o, bip32_derivation, proprietary, unknown);
        maps.push(m);
    }
    Raw { maps, trailing: vec![] }
}
