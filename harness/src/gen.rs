//! Random, well-formed values for every field of a PSBT.

use std::collections::BTreeMap;
use std::sync::OnceLock;

use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv, Xpub};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::secp256k1::{self, All, Keypair, Message, Secp256k1, SecretKey};
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use bitcoin::taproot::{
    ControlBlock, LeafVersion, TapLeafHash, TapNodeHash, TapTree, TaprootBuilder,
};
use bitcoin::{
    ecdsa, taproot, transaction, Amount, NetworkKind, OutPoint, PublicKey, ScriptBuf, Sequence,
    Transaction, TxIn, TxOut, Txid, Witness,
};
use psbt_v2::raw;
use psbt_v2::v0;
use psbt_v2::v2::{Global, Input, Output, Psbt};
use psbt_v2::PsbtSighashType;

use crate::rng::Rng;

pub fn secp() -> &'static Secp256k1<All> {
    static S: OnceLock<Secp256k1<All>> = OnceLock::new();
    S.get_or_init(Secp256k1::new)
}

pub struct Pool {
    pub sks: Vec<SecretKey>,
    pub pks: Vec<secp256k1::PublicKey>,
    pub xonly: Vec<XOnlyPublicKey>,
    pub kps: Vec<Keypair>,
    pub xprivs: Vec<Xpriv>,
    pub xpubs: Vec<Xpub>,
    pub ecdsa_sigs: Vec<secp256k1::ecdsa::Signature>,
    pub schnorr_sigs: Vec<secp256k1::schnorr::Signature>,
    pub control_blocks: Vec<(ControlBlock, ScriptBuf)>,
    pub tap_trees: Vec<TapTree>,
}

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut r = Rng::new(0xC0FFEE);
        let secp = secp();
        let sks: Vec<SecretKey> =
            (0..48).map(|_| SecretKey::from_slice(&r.arr::<32>()).unwrap()).collect();
        let pks = sks.iter().map(|s| s.public_key(secp)).collect::<Vec<_>>();
        let kps = sks.iter().map(|s| s.keypair(secp)).collect::<Vec<_>>();
        let xonly = kps.iter().map(|k| k.x_only_public_key().0).collect::<Vec<_>>();
        let mut xprivs = vec![];
        let mut xpubs = vec![];
        for i in 0..16 {
            let net = if i % 2 == 0 { NetworkKind::Main } else { NetworkKind::Test };
            let m = Xpriv::new_master(net, &r.arr::<32>()).unwrap();
            let x = if i % 3 == 0 {
                m
            } else {
                let p: Vec<ChildNumber> = (0..i % 4).map(|_| ChildNumber::from(r.u32())).collect();
                m.derive_priv(secp, &DerivationPath::from(p)).unwrap()
            };
            xprivs.push(x);
            xpubs.push(Xpub::from_priv(secp, &x));
        }
        let mut ecdsa_sigs = vec![];
        let mut schnorr_sigs = vec![];
        for i in 0..64 {
            let m = Message::from_digest(r.arr::<32>());
            ecdsa_sigs.push(secp.sign_ecdsa(&m, &sks[i % 48]));
            schnorr_sigs.push(secp.sign_schnorr_no_aux_rand(&m, &kps[i % 48]));
        }
        let mut control_blocks = vec![];
        let mut tap_trees = vec![];
        for i in 0..44 {
            let n = match i {
                40 => 129, // a chain of the greatest depth allowed
                41 => 40,
                42 => 300,
                43 => 2,
                _ => 1 + i % 6,
            };
            let mut b = TaprootBuilder::new();
            // A random shape: start from depth list of a random binary tree.
            let shape = match i {
                40 => (1..=128u8).chain([128]).enumerate().map(|(i, d)| (d, i)).collect(),
                _ => tree_shape(&mut r, n),
            };
            for (d, _) in shape {
                let l = match r.below(10) {
                    // Longer than two bytes can tell.
                    _ if i == 43 => 65_500 + 40 * d as usize + r.below(20),
                    0 => r.range(250, 260),
                    1 => 0,
                    _ => r.below(40),
                };
                let s = ScriptBuf::from(r.bytes(l));
                let v = if r.chance(1, 4) {
                    let other = [0x66u8, 0x7e, 0x80, 0x84, 0x96, 0x98, 0xba, 0xbc, 0xbe, 0xc2, 0xc8, 0xfe];
                    LeafVersion::from_consensus(*r.pick(&other)).unwrap()
                } else {
                    LeafVersion::TapScript
                };
                b = b.add_leaf_with_ver(d, s, v).unwrap();
            }
            let tree = TapTree::try_from(b.clone()).unwrap();
            tap_trees.push(tree);
            let info = b.finalize(secp, xonly[i % 48]).unwrap();
            for ((s, v), _) in info.script_map() {
                if let Some(cb) = info.control_block(&(s.clone(), *v)) {
                    if i != 43 && (n < 40 || r.chance(1, 10)) {
                        control_blocks.push((cb, s.clone()));
                    }
                }
            }
        }
        Pool { sks, pks, xonly, kps, xprivs, xpubs, ecdsa_sigs, schnorr_sigs, control_blocks, tap_trees }
    })
}

/// Depths (in DFS order) of the leaves of a random full binary tree with n leaves.
pub fn tree_shape(r: &mut Rng, n: usize) -> Vec<(u8, usize)> {
    fn go(r: &mut Rng, n: usize, d: u8, out: &mut Vec<(u8, usize)>) {
        if n == 1 {
            let i = out.len();
            out.push((d, i));
            return;
        }
        let l = r.range(1, n - 1);
        go(r, l, d + 1, out);
        go(r, n - l, d + 1, out);
    }
    let mut v = vec![];
    go(r, n, 0, &mut v);
    v
}

pub fn opt<T>(r: &mut Rng, num: usize, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(num, 10) {
        Some(f(r))
    } else {
        None
    }
}

pub fn map_of<K: Ord, V>(
    r: &mut Rng,
    num: usize,
    max: usize,
    mut f: impl FnMut(&mut Rng) -> (K, V),
) -> BTreeMap<K, V> {
    if !r.chance(num, 10) {
        return BTreeMap::new();
    }
    let n = r.range(1, max);
    (0..n).map(|_| f(r)).collect()
}

/// Integers with the edges of every plausible encoding in them.
pub fn edge_u32(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 0x7fff_ffff,
        3 => 0x8000_0000,
        4 => u32::MAX,
        5 => r.below(256) as u32,
        6 => r.below(256) as u32 | 0x8000_0000,
        7 => 1 << r.below(32),
        _ => r.u32(),
    }
}

pub fn pk(r: &mut Rng) -> secp256k1::PublicKey { *r.pick(&pool().pks) }
pub fn xonly(r: &mut Rng) -> XOnlyPublicKey { *r.pick(&pool().xonly) }
pub fn xpub(r: &mut Rng) -> Xpub { *r.pick(&pool().xpubs) }

pub fn key_source(r: &mut Rng) -> KeySource {
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(5, 12),
        2 if r.chance(1, 12) => *r.pick(&[62usize, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300]),
        _ => r.range(1, 4),
    };
    let p: Vec<ChildNumber> = (0..n).map(|_| ChildNumber::from(edge_u32(r))).collect();
    (Fingerprint::from(if r.chance(1, 8) { [0; 4] } else { r.arr::<4>() }), DerivationPath::from(p))
}

pub fn script(r: &mut Rng) -> ScriptBuf {
    match r.below(10) {
        0 => ScriptBuf::new(),
        1 => {
            let n = match r.below(20) {
                0 => r.range(65530, 65540),
                1..=9 => r.range(250, 256),
                _ => r.range(253, 600),
            };
            ScriptBuf::from(r.bytes(n))
        }
        2 => ScriptBuf::new_p2wpkh(&bitcoin::CompressedPublicKey(pk(r)).wpubkey_hash()),
        3 => ScriptBuf::new_p2pkh(&PublicKey::new(pk(r)).pubkey_hash()),
        4 => ScriptBuf::new_p2wsh(&ScriptBuf::from(r.bytes(10)).wscript_hash()),
        5 => ScriptBuf::new_p2sh(&ScriptBuf::from(r.bytes(10)).script_hash()),
        6 => ScriptBuf::new_p2tr(secp(), xonly(r), None),
        _ => {
            let n = r.range(1, 60);
            ScriptBuf::from(r.bytes(n))
        }
    }
}

/// One of the pool; seldom the one with the long scripts.
pub fn tap_tree(r: &mut Rng) -> TapTree {
    let n = pool().tap_trees.len();
    let at = if r.chance(1, 400) { n - 1 } else { r.below(n - 1) };
    pool().tap_trees[at].clone()
}

pub fn script_nonempty(r: &mut Rng) -> ScriptBuf {
    loop {
        let s = script(r);
        if !s.is_empty() {
            return s;
        }
    }
}

pub fn amount(r: &mut Rng) -> Amount {
    Amount::from_sat(match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 21_000_000 * 100_000_000,
        3 => r.u32() as u64,
        4 => 546,
        5 => 1u64 << r.below(51),
        6 if r.chance(1, 4) => *r.pick(&[u64::MAX, i64::MAX as u64, 1 << 63, 21_000_000 * 100_000_000 + 1]),
        _ => (r.u64() % 2_100_000_000_000_000) + 1,
    })
}

pub fn txout(r: &mut Rng) -> TxOut { TxOut { value: amount(r), script_pubkey: script(r) } }

pub fn witness(r: &mut Rng) -> Witness {
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(5, 12),
        2 if r.chance(1, 8) => r.range(250, 256),
        _ => r.range(1, 4),
    };
    let v: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let l = match r.below(5) {
                0 => 0,
                1 => r.range(200, 520),
                _ => r.range(1, 80),
            };
            r.bytes(l)
        })
        .collect();
    Witness::from_slice(&v)
}

pub fn txid(r: &mut Rng) -> Txid {
    Txid::from_byte_array(if r.chance(1, 12) { [0xff; 32] } else { r.arr() })
}

pub fn outpoint(r: &mut Rng) -> OutPoint {
    OutPoint {
        txid: txid(r),
        vout: match r.below(6) {
            0 => 0,
            1 => r.u32(),
            2 => u32::MAX - 1,
            _ => r.below(10) as u32,
        },
    }
}

pub fn sequence(r: &mut Rng) -> Sequence {
    Sequence(match r.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 => u32::MAX - 1,
        3 => u32::MAX - 2,
        4 => r.below(70000) as u32,
        5 => (1 << 22) | (r.below(65536) as u32),
        _ => r.u32(),
    })
}

pub fn lock_time(r: &mut Rng) -> LockTime {
    LockTime::from_consensus(match r.below(8) {
        0 => 0,
        1 => 499_999_999,
        2 => 500_000_000,
        3 => u32::MAX,
        4 => r.below(1_000_000) as u32,
        5 => 1_600_000_000 + r.below(1000) as u32,
        _ => r.u32(),
    })
}

pub fn time(r: &mut Rng) -> Time {
    Time::from_consensus(match r.below(4) {
        0 => 500_000_000,
        1 => u32::MAX,
        _ => 500_000_000 + (r.u32() % 3_700_000_000),
    })
    .unwrap()
}
pub fn height(r: &mut Rng) -> Height {
    Height::from_consensus(match r.below(4) {
        0 => 1,
        1 => 499_999_999,
        _ => 1 + (r.u32() % 499_999_998),
    })
    .unwrap()
}

/// A random transaction, with or without witnesses. Never zero inputs (ambiguous encoding).
pub fn tx(r: &mut Rng) -> Transaction {
    let ni = r.range(1, 3);
    let no = r.range(1, 4);
    let segwit = r.bool();
    Transaction {
        version: transaction::Version(match r.below(6) {
            0 => 1,
            1 => 3,
            2 => edge_u32(r) as i32,
            _ => 2,
        }),
        lock_time: lock_time(r),
        input: (0..ni)
            .map(|_| TxIn {
                previous_output: outpoint(r),
                script_sig: if r.bool() { ScriptBuf::new() } else { script(r) },
                sequence: sequence(r),
                witness: if segwit { witness(r) } else { Witness::new() },
            })
            .collect(),
        output: (0..no).map(|_| txout(r)).collect(),
    }
}

pub fn unsigned_tx(r: &mut Rng) -> Transaction {
    let mut t = tx(r);
    for i in t.input.iter_mut() {
        i.script_sig = ScriptBuf::new();
        i.witness = Witness::new();
    }
    if r.chance(1, 12) {
        t.output.clear();
    }
    // A transaction that nothing has been added to yet; written without the witness marker.
    if r.chance(1, 20) {
        t.input.clear();
    }
    t
}

pub const ECDSA_TYPES: [EcdsaSighashType; 6] = [
    EcdsaSighashType::All,
    EcdsaSighashType::None,
    EcdsaSighashType::Single,
    EcdsaSighashType::AllPlusAnyoneCanPay,
    EcdsaSighashType::NonePlusAnyoneCanPay,
    EcdsaSighashType::SinglePlusAnyoneCanPay,
];
pub const TAP_TYPES: [TapSighashType; 7] = [
    TapSighashType::Default,
    TapSighashType::All,
    TapSighashType::None,
    TapSighashType::Single,
    TapSighashType::AllPlusAnyoneCanPay,
    TapSighashType::NonePlusAnyoneCanPay,
    TapSighashType::SinglePlusAnyoneCanPay,
];

pub fn ecdsa_sig(r: &mut Rng) -> ecdsa::Signature {
    ecdsa::Signature { signature: *r.pick(&pool().ecdsa_sigs), sighash_type: *r.pick(&ECDSA_TYPES) }
}
pub fn tap_sig(r: &mut Rng) -> taproot::Signature {
    taproot::Signature { signature: *r.pick(&pool().schnorr_sigs), sighash_type: *r.pick(&TAP_TYPES) }
}
pub fn pubkey(r: &mut Rng) -> PublicKey {
    let k = pk(r);
    if r.chance(1, 4) {
        PublicKey::new_uncompressed(k)
    } else {
        PublicKey::new(k)
    }
}
pub fn sighash_type(r: &mut Rng) -> PsbtSighashType {
    match r.below(6) {
        0 => PsbtSighashType::from_u32(edge_u32(r)),
        1 => (*r.pick(&TAP_TYPES)).into(),
        _ => (*r.pick(&ECDSA_TYPES)).into(),
    }
}
pub fn leaf_hash(r: &mut Rng) -> TapLeafHash { TapLeafHash::from_byte_array(r.arr()) }

/// Unknown-key types which no map of either version defines.
/// A key type that no version assigns to any map: 0x21..=0xff less the version (0xfb) and the
/// proprietary type (0xfc).
pub fn unknown_type(r: &mut Rng) -> u8 {
    match r.below(3) {
        0 => *r.pick(&[0x30u8, 0x40, 0x55, 0x7f, 0x80, 0xa0, 0xf0]),
        1 => *r.pick(&[0x21u8, 0xfa, 0xfd, 0xfe, 0xff]),
        _ => r.range(0x21, 0xfa) as u8,
    }
}

/// A length at which an encoding changes.
pub fn edge_len(r: &mut Rng) -> usize {
    match r.below(24) {
        0 => *r.pick(&[65533usize, 65534, 65535, 65536, 65537, 70_000]),
        1..=4 => r.range(505, 530),
        _ => r.range(250, 257),
    }
}

pub fn unknown(r: &mut Rng) -> (raw::Key, Vec<u8>) {
    let n = match r.below(20) {
        0..=3 => 0,
        4 => edge_len(r),
        _ => r.range(1, 40),
    };
    let m = match r.below(8) {
        0 => 0,
        1 => edge_len(r),
        _ => r.range(1, 40),
    };
    (raw::Key { type_value: unknown_type(r), key: r.bytes(n) }, r.bytes(m))
}
pub fn proprietary(r: &mut Rng) -> (raw::ProprietaryKey, Vec<u8>) {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(250, 300),
        _ => r.range(1, 10),
    };
    let k = match r.below(12) {
        0 | 1 => 0,
        2 => r.range(100, 900),
        3 => *r.pick(&[252usize, 253, 255, 256, 1022, 1023, 1024]),
        _ => r.range(1, 30),
    };
    let m = if r.chance(1, 10) { edge_len(r) } else { r.below(40) };
    (raw::ProprietaryKey { prefix: r.bytes(n), subtype: r.u8(), key: r.bytes(k) }, r.bytes(m))
}
pub fn preimage(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => edge_len(r),
        1 | 2 => r.below(70),
        _ => 32,
    };
    r.bytes(n)
}

pub fn v2_input(r: &mut Rng, d: usize) -> Input {
    let mut i = Input::new(&outpoint(r));
    i.sequence = opt(r, d, sequence);
    i.min_time = opt(r, d, time);
    i.min_height = opt(r, d, height);
    i.non_witness_utxo = opt(r, d, tx);
    i.witness_utxo = opt(r, d, txout);
    i.partial_sigs = map_of(r, d, 3, |r| (pubkey(r), ecdsa_sig(r)));
    i.sighash_type = opt(r, d, sighash_type);
    i.redeem_script = opt(r, d, script);
    i.witness_script = opt(r, d, script);
    i.bip32_derivations = map_of(r, d, 3, |r| (pk(r), key_source(r)));
    i.final_script_sig = opt(r, d, script);
    i.final_script_witness = opt(r, d, witness);
    i.ripemd160_preimages = map_of(r, d, 2, |r| {
        let p = preimage(r);
        (ripemd160::Hash::hash(&p), p)
    });
    i.sha256_preimages = map_of(r, d, 2, |r| {
        let p = preimage(r);
        (sha256::Hash::hash(&p), p)
    });
    i.hash160_preimages = map_of(r, d, 2, |r| {
        let p = preimage(r);
        (hash160::Hash::hash(&p), p)
    });
    i.hash256_preimages = map_of(r, d, 2, |r| {
        let p = preimage(r);
        (sha256d::Hash::hash(&p), p)
    });
    i.tap_key_sig = opt(r, d, tap_sig);
    i.tap_script_sigs = map_of(r, d, 3, |r| ((xonly(r), leaf_hash(r)), tap_sig(r)));
    i.tap_scripts = map_of(r, d, 3, |r| {
        let (cb, s) = r.pick(&pool().control_blocks).clone();
        let v = cb.leaf_version;
        (cb, (s, v))
    });
    i.tap_key_origins = map_of(r, d, 3, |r| {
        let n = if r.chance(1, 20) { r.range(250, 256) } else { r.below(4) };
        (xonly(r), ((0..n).map(|_| leaf_hash(r)).collect(), key_source(r)))
    });
    i.tap_internal_key = opt(r, d, xonly);
    i.tap_merkle_root = opt(r, d, |r| TapNodeHash::from_byte_array(r.arr()));
    #[cfg(feature = "sp")]
    if !is_plain() {
        (i.sp_ecdh_shares, i.sp_dleq_proofs) = sp_maps(r, d);
    }
    i.proprietaries = map_of(r, d, 3, proprietary);
    i.unknowns = map_of(r, d, 3, unknown);
    i
}

#[cfg(feature = "sp")]
pub type SpMaps = (
    BTreeMap<bitcoin::CompressedPublicKey, bitcoin::CompressedPublicKey>,
    BTreeMap<bitcoin::CompressedPublicKey, psbt_v2::v2::DleqProof>,
);
#[cfg(feature = "sp")]
pub fn sp_maps(r: &mut Rng, d: usize) -> SpMaps {
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    if r.chance(d, 10) {
        for _ in 0..r.range(1, 3) {
            let k = bitcoin::CompressedPublicKey(pk(r));
            a.insert(k, bitcoin::CompressedPublicKey(pk(r)));
            b.insert(k, psbt_v2::v2::DleqProof(if r.chance(1, 10) { [0; 64] } else { r.arr() }));
        }
    }
    (a, b)
}

pub fn v2_output(r: &mut Rng, d: usize) -> Output {
    let mut o = Output::new(TxOut { value: amount(r), script_pubkey: script_nonempty(r) });
    o.redeem_script = opt(r, d, script);
    o.witness_script = opt(r, d, script);
    o.bip32_derivations = map_of(r, d, 3, |r| (pk(r), key_source(r)));
    o.tap_internal_key = opt(r, d, xonly);
    o.tap_tree = opt(r, d, tap_tree);
    o.tap_key_origins = map_of(r, d, 3, |r| {
        let n = if r.chance(1, 20) { r.range(250, 256) } else { r.below(4) };
        (xonly(r), ((0..n).map(|_| leaf_hash(r)).collect(), key_source(r)))
    });
    #[cfg(feature = "sp")]
    if !is_plain() {
        if r.chance(d, 20) {
            let mut v = pk(r).serialize().to_vec();
            v.extend(pk(r).serialize());
            o.sp_v0_info = Some(v);
            o.sp_v0_label = opt(r, 5, edge_u32);
            if r.bool() {
                o.script_pubkey = ScriptBuf::new();
            }
        }
    }
    o.proprietaries = map_of(r, d, 3, proprietary);
    o.unknowns = map_of(r, d, 3, unknown);
    o
}

pub fn v2_global(r: &mut Rng, d: usize, ni: usize, no: usize) -> Global {
    let mut g = Global::default();
    g.tx_version = transaction::Version(*r.pick(&[2, 2, 2, 2, 3, 4, 256, i32::MAX]));
    g.fallback_lock_time = opt(r, d, lock_time);
    g.tx_modifiable_flags = if r.chance(1, 6) { r.u8() } else { r.below(8) as u8 };
    g.input_count = ni;
    g.output_count = no;
    g.xpubs = map_of(r, d, 3, |r| (xpub(r), key_source(r)));
    #[cfg(feature = "sp")]
    if !is_plain() {
        (g.sp_ecdh_shares, g.sp_dleq_proofs) = sp_maps(r, d);
    }
    g.proprietaries = map_of(r, d, 3, proprietary);
    g.unknowns = map_of(r, d, 3, unknown);
    g
}

/// Number of inputs or outputs; occasionally zero or large.
pub fn count(r: &mut Rng, big: bool) -> usize {
    match r.below(40) {
        0 | 1 => 0,
        2 if big => match r.below(8) {
            0 => r.range(300, 1100),
            _ => r.range(253, 300),
        },
        3 => r.range(5, 12),
        _ => r.range(1, 4),
    }
}

/// An index that is not one of `n` items, often one that would be if it lost its upper bits.
pub fn beyond(r: &mut Rng, n: usize) -> usize {
    let low = r.below(n.max(1));
    let at = match r.below(6) {
        0 => n,
        1 => n + 1 + r.below(7),
        2 => usize::MAX - r.below(100),
        _ => (1usize << *r.pick(&[8, 8, 16, 31, 32, 63])) + low,
    };
    at.max(n)
}

pub fn v2_psbt(r: &mut Rng, big: bool) -> Psbt {
    let (ni, no) = (count(r, big), count(r, big));
    let d = *r.pick(&[1usize, 2, 4, 8]);
    let d = if ni + no > 40 { 0 } else { d };
    Psbt {
        global: v2_global(r, d, ni, no),
        inputs: (0..ni).map(|_| v2_input(r, d)).collect(),
        outputs: (0..no).map(|_| v2_output(r, d)).collect(),
    }
}

// ---------------------------------------------------------------- v0

pub fn v0_unknown(r: &mut Rng) -> (v0::bitcoin::raw::Key, Vec<u8>) {
    let (k, v) = unknown(r);
    (v0::bitcoin::raw::Key { type_value: k.type_value, key: k.key }, v)
}
pub fn v0_proprietary(r: &mut Rng) -> (v0::bitcoin::raw::ProprietaryKey, Vec<u8>) {
    let (k, v) = proprietary(r);
    (v0::bitcoin::raw::ProprietaryKey { prefix: k.prefix, subtype: k.subtype, key: k.key }, v)
}

pub fn v0_input(r: &mut Rng, d: usize, prev: &OutPoint) -> v0::bitcoin::Input {
    let i = v2_input(r, d);
    let non_witness_utxo = i.non_witness_utxo;
    let _ = prev;
    v0::bitcoin::Input {
        non_witness_utxo,
        witness_utxo: i.witness_utxo,
        partial_sigs: i.partial_sigs,
        sighash_type: i.sighash_type,
        redeem_script: i.redeem_script,
        witness_script: i.witness_script,
        bip32_derivation: i.bip32_derivations,
        final_script_sig: i.final_script_sig,
        final_script_witness: i.final_script_witness,
        ripemd160_preimages: i.ripemd160_preimages,
        sha256_preimages: i.sha256_preimages,
        hash160_preimages: i.hash160_preimages,
        hash256_preimages: i.hash256_preimages,
        tap_key_sig: i.tap_key_sig,
        tap_script_sigs: i.tap_script_sigs,
        tap_scripts: i.tap_scripts,
        tap_key_origins: i.tap_key_origins,
        tap_internal_key: i.tap_internal_key,
        tap_merkle_root: i.tap_merkle_root,
        proprietary: map_of(r, d, 3, v0_proprietary),
        unknown: map_of(r, d, 3, v0_unknown),
    }
}

pub fn v0_output(r: &mut Rng, d: usize) -> v0::bitcoin::Output {
    let o = v2_output(r, d);
    v0::bitcoin::Output {
        redeem_script: o.redeem_script,
        witness_script: o.witness_script,
        bip32_derivation: o.bip32_derivations,
        tap_internal_key: o.tap_internal_key,
        tap_tree: o.tap_tree,
        tap_key_origins: o.tap_key_origins,
        proprietary: map_of(r, d, 3, v0_proprietary),
        unknown: map_of(r, d, 3, v0_unknown),
    }
}

pub fn v0_psbt(r: &mut Rng) -> v0::bitcoin::Psbt { v0_psbt_of(r, false) }

pub fn v0_psbt_of(r: &mut Rng, big: bool) -> v0::bitcoin::Psbt {
    let d = *r.pick(&[1usize, 2, 4, 8]);
    let mut t = unsigned_tx(r);
    if big {
        for _ in t.input.len()..count(r, true) {
            t.input.push(TxIn { previous_output: outpoint(r), sequence: sequence(r), ..Default::default() });
        }
        for _ in t.output.len()..count(r, true) {
            t.output.push(txout(r));
        }
    }
    let d = if t.input.len() + t.output.len() > 40 { 0 } else { d };
    let inputs = t.input.iter().map(|i| v0_input(r, d, &i.previous_output)).collect();
    let outputs = t.output.iter().map(|_| v0_output(r, d)).collect();
    v0::bitcoin::Psbt {
        unsigned_tx: t,
        version: 0,
        xpub: map_of(r, d, 3, |r| (xpub(r), key_source(r))),
        proprietary: map_of(r, d, 3, v0_proprietary),
        unknown: map_of(r, d, 3, v0_unknown),
        inputs,
        outputs,
    }
}

static PLAIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Leaves out what a build without the silent payments feature cannot make, so that every build makes the same.
pub fn set_plain() { PLAIN.store(true, std::sync::atomic::Ordering::Relaxed) }
pub fn is_plain() -> bool { PLAIN.load(std::sync::atomic::Ordering::Relaxed) }
