//! Signature hashes, written from BIP-143, BIP-341/342 and the original algorithm. Independent of rust-bitcoin's
//! `SighashCache`; only its data types are used.
use bitcoin::hashes::{sha256, sha256d, Hash};
use bitcoin::{Transaction, TxOut};

use crate::raw::compact;

fn outpoint(tx: &Transaction, i: usize) -> Vec<u8> {
    let o = &tx.input[i].previous_output;
    let mut v = o.txid.to_byte_array().to_vec();
    v.extend(o.vout.to_le_bytes());
    v
}
fn txout(o: &TxOut) -> Vec<u8> {
    let mut v = o.value.to_sat().to_le_bytes().to_vec();
    v.extend(var(o.script_pubkey.as_bytes()));
    v
}
pub fn var(b: &[u8]) -> Vec<u8> {
    let mut v = compact(b.len() as u64);
    v.extend(b);
    v
}
pub fn dsha(b: &[u8]) -> [u8; 32] { sha256d::Hash::hash(b).to_byte_array() }
pub fn sha(b: &[u8]) -> [u8; 32] { sha256::Hash::hash(b).to_byte_array() }

/// Pre-segwit signature hash. `code` must be free of OP_CODESEPARATOR.
pub fn legacy(tx: &Transaction, i: usize, code: &[u8], ty: u32) -> [u8; 32] {
    let base = ty & 0x1f;
    let acp = ty & 0x80 != 0;
    if base == 3 && i >= tx.output.len() {
        let mut one = [0u8; 32];
        one[0] = 1;
        return one;
    }
    let mut b = tx.version.0.to_le_bytes().to_vec();
    let ins: Vec<usize> = if acp { vec![i] } else { (0..tx.input.len()).collect() };
    b.extend(compact(ins.len() as u64));
    for j in ins {
        b.extend(outpoint(tx, j));
        b.extend(if j == i { var(code) } else { vec![0] });
        let seq = if j != i && (base == 2 || base == 3) { 0 } else { tx.input[j].sequence.0 };
        b.extend(seq.to_le_bytes());
    }
    match base {
        2 => b.push(0),
        3 => {
            b.extend(compact(i as u64 + 1));
            for _ in 0..i {
                b.extend([0xff; 8]);
                b.push(0);
            }
            b.extend(txout(&tx.output[i]));
        }
        _ => {
            b.extend(compact(tx.output.len() as u64));
            for o in &tx.output {
                b.extend(txout(o));
            }
        }
    }
    b.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    b.extend(ty.to_le_bytes());
    dsha(&b)
}

/// BIP-143.
pub fn segwit_v0(tx: &Transaction, i: usize, code: &[u8], value: u64, ty: u32) -> [u8; 32] {
    let base = ty & 0x1f;
    let acp = ty & 0x80 != 0;
    let zero = [0u8; 32];
    let n = tx.input.len();
    let prevouts = if acp { zero } else { dsha(&(0..n).flat_map(|j| outpoint(tx, j)).collect::<Vec<_>>()) };
    let seqs = if acp || base == 2 || base == 3 {
        zero
    } else {
        dsha(&tx.input.iter().flat_map(|x| x.sequence.0.to_le_bytes()).collect::<Vec<_>>())
    };
    let outs = if base != 2 && base != 3 {
        dsha(&tx.output.iter().flat_map(txout).collect::<Vec<_>>())
    } else if base == 3 && i < tx.output.len() {
        dsha(&txout(&tx.output[i]))
    } else {
        zero
    };
    let mut b = tx.version.0.to_le_bytes().to_vec();
    b.extend(prevouts);
    b.extend(seqs);
    b.extend(outpoint(tx, i));
    b.extend(var(code));
    b.extend(value.to_le_bytes());
    b.extend(tx.input[i].sequence.0.to_le_bytes());
    b.extend(outs);
    b.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    b.extend(ty.to_le_bytes());
    dsha(&b)
}

/// The script code of a P2WPKH program.
pub fn wpkh_code(hash: &[u8]) -> Vec<u8> {
    let mut v = vec![0x76, 0xa9, 0x14];
    v.extend(hash);
    v.extend([0x88, 0xac]);
    v
}

pub fn tagged(tag: &str, b: &[u8]) -> [u8; 32] {
    let t = sha(tag.as_bytes());
    let mut v = t.to_vec();
    v.extend(t);
    v.extend(b);
    sha(&v)
}

pub fn leaf_hash(script: &[u8], ver: u8) -> [u8; 32] {
    let mut v = vec![ver];
    v.extend(var(script));
    tagged("TapLeaf", &v)
}

/// BIP-341; `leaf`: the leaf hash in a script path spend. None if the type is not allowed, or SINGLE has no output.
pub fn taproot(
    tx: &Transaction,
    i: usize,
    prevouts: &[TxOut],
    ty: u8,
    leaf: Option<[u8; 32]>,
) -> Option<[u8; 32]> {
    if !matches!(ty, 0 | 1 | 2 | 3 | 0x81 | 0x82 | 0x83) {
        return None;
    }
    let acp = ty & 0x80 != 0;
    let base = ty & 3;
    let mut b = vec![0, ty];
    b.extend(tx.version.0.to_le_bytes());
    b.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    if !acp {
        let n = tx.input.len();
        b.extend(sha(&(0..n).flat_map(|j| outpoint(tx, j)).collect::<Vec<_>>()));
        b.extend(sha(&prevouts.iter().flat_map(|o| o.value.to_sat().to_le_bytes()).collect::<Vec<_>>()));
        b.extend(sha(&prevouts.iter().flat_map(|o| var(o.script_pubkey.as_bytes())).collect::<Vec<_>>()));
        b.extend(sha(&tx.input.iter().flat_map(|x| x.sequence.0.to_le_bytes()).collect::<Vec<_>>()));
    }
    if base < 2 {
        b.extend(sha(&tx.output.iter().flat_map(txout).collect::<Vec<_>>()));
    }
    b.push(if leaf.is_some() { 2 } else { 0 });
    if acp {
        b.extend(outpoint(tx, i));
        b.extend(txout(&prevouts[i]));
        b.extend(tx.input[i].sequence.0.to_le_bytes());
    } else {
        b.extend((i as u32).to_le_bytes());
    }
    if base == 3 {
        b.extend(sha(&txout(tx.output.get(i)?)));
    }
    if let Some(l) = leaf {
        b.extend(l);
        b.push(0);
        b.extend(u32::MAX.to_le_bytes());
    }
    Some(tagged("TapSighash", &b))
}
