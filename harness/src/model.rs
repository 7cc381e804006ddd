//! Reference computations on raw key-value maps, written from the BIPs: lock time, unsigned transaction, unique id.
use bitcoin::hashes::{sha256d, Hash};

use crate::raw::{compact, read_compact, Map, Raw};

pub fn get<'a>(m: &'a Map, ty: u8) -> Option<&'a [u8]> {
    m.iter().find(|k| k.k == [ty]).map(|k| &k.v[..])
}
pub fn u32_of(v: &[u8]) -> u32 { u32::from_le_bytes(v[..4].try_into().unwrap()) }

pub fn n_inputs(r: &Raw) -> usize { read_compact(get(&r.maps[0], 4).unwrap()).unwrap().0 as usize }

/// BIP-370 "Determining Lock Time": Err if no lock time satisfies all inputs.
pub fn lock_time(r: &Raw) -> Result<u32, ()> {
    let ni = n_inputs(r);
    lock_time_of(
        get(&r.maps[0], 3).map(u32_of),
        &r.maps[1..1 + ni]
            .iter()
            .map(|m| (get(m, 0x11).map(u32_of), get(m, 0x12).map(u32_of)))
            .collect::<Vec<_>>(),
    )
}

/// `reqs`: per input (required time, required height).
pub fn lock_time_of(fallback: Option<u32>, reqs: &[(Option<u32>, Option<u32>)]) -> Result<u32, ()> {
    let req: Vec<_> = reqs.iter().filter(|(t, h)| t.is_some() || h.is_some()).collect();
    if req.is_empty() {
        return Ok(fallback.unwrap_or(0));
    }
    // A lock time type may be chosen if every input that states a requirement states it for that type.
    if req.iter().all(|(_, h)| h.is_some()) {
        return Ok(req.iter().map(|(_, h)| h.unwrap()).max().unwrap());
    }
    if req.iter().all(|(t, _)| t.is_some()) {
        return Ok(req.iter().map(|(t, _)| t.unwrap()).max().unwrap());
    }
    Err(())
}

/// The unsigned transaction of a v2 PSBT, serialized; `seq`: None = use the PSBT's sequences.
pub fn unsigned_tx(r: &Raw, seq: Option<u32>) -> Result<Vec<u8>, ()> {
    let ni = n_inputs(r);
    let mut b = get(&r.maps[0], 2).unwrap().to_vec();
    b.extend(compact(ni as u64));
    for m in &r.maps[1..1 + ni] {
        b.extend(get(m, 0x0e).unwrap());
        b.extend(get(m, 0x0f).unwrap());
        b.push(0);
        let s = seq.unwrap_or_else(|| get(m, 0x10).map(u32_of).unwrap_or(0xffff_ffff));
        b.extend(s.to_le_bytes());
    }
    b.extend(compact((r.maps.len() - 1 - ni) as u64));
    for m in &r.maps[1 + ni..] {
        b.extend(get(m, 3).unwrap());
        let s = get(m, 4).unwrap_or(&[]);
        b.extend(compact(s.len() as u64));
        b.extend(s);
    }
    b.extend(lock_time(r)?.to_le_bytes());
    Ok(b)
}

/// The unique id of a v2 PSBT (internal byte order).
pub fn id(r: &Raw) -> Result<[u8; 32], ()> {
    Ok(sha256d::Hash::hash(&unsigned_tx(r, Some(0))?).to_byte_array())
}
