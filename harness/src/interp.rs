//! A small script interpreter: enough of the consensus rules to decide whether an input of a transaction is validly
//! spent, for every script miniscript can produce. Independent of rust-miniscript and of rust-bitcoin's sighash code.
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::secp256k1::{ecdsa, schnorr, Message, Parity, PublicKey, Scalar, XOnlyPublicKey};
use bitcoin::{Transaction, TxOut};

use crate::gen::secp;
use crate::sighash;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctx {
    Legacy,
    V0,
    Tap([u8; 32]),
}

pub type Res<T> = Result<T, String>;

struct Env<'a> {
    tx: &'a Transaction,
    i: usize,
    prevouts: &'a [TxOut],
    /// Operations seen, for the evidence.
    sigs_ok: u32,
}

fn e<T>(s: &str) -> Res<T> { Err(s.to_string()) }

fn truth(v: &[u8]) -> bool {
    for (i, b) in v.iter().enumerate() {
        if *b != 0 {
            return !(i == v.len() - 1 && *b == 0x80);
        }
    }
    false
}
fn num(v: &[u8], max: usize) -> Res<i64> {
    if v.len() > max {
        return e("script number too long");
    }
    let mut n: i64 = 0;
    for (i, b) in v.iter().enumerate() {
        n |= (*b as i64) << (8 * i);
    }
    if let Some(l) = v.last() {
        if l & 0x80 != 0 {
            n &= !(0x80i64 << (8 * (v.len() - 1)));
            n = -n;
        }
    }
    Ok(n)
}
fn enc(n: i64) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    let mut a = n.unsigned_abs();
    let mut v = vec![];
    while a > 0 {
        v.push(a as u8);
        a >>= 8;
    }
    if v.last().unwrap() & 0x80 != 0 {
        v.push(if n < 0 { 0x80 } else { 0 });
    } else if n < 0 {
        *v.last_mut().unwrap() |= 0x80;
    }
    v
}
fn b(x: bool) -> Vec<u8> { if x { vec![1] } else { vec![] } }

/// Decodes one operation: (opcode, pushed data, rest).
fn op(s: &[u8]) -> Res<(u8, Option<&[u8]>, &[u8])> {
    let o = s[0];
    let r = &s[1..];
    let (n, r) = match o {
        0 => return Ok((o, Some(&[]), r)),
        1..=75 => (o as usize, r),
        76 if !r.is_empty() => (r[0] as usize, &r[1..]),
        77 if r.len() >= 2 => (u16::from_le_bytes([r[0], r[1]]) as usize, &r[2..]),
        78 if r.len() >= 4 => (u32::from_le_bytes([r[0], r[1], r[2], r[3]]) as usize, &r[4..]),
        76..=78 => return e("truncated push"),
        _ => return Ok((o, None, r)),
    };
    if r.len() < n {
        return e("truncated push");
    }
    Ok((o, Some(&r[..n]), &r[n..]))
}

impl Env<'_> {
    fn ecdsa(&mut self, ctx: Ctx, sig: &[u8], key: &[u8], code: &[u8]) -> Res<bool> {
        if sig.is_empty() {
            return Ok(false);
        }
        let (der, ty) = (&sig[..sig.len() - 1], sig[sig.len() - 1]);
        let Ok(s) = ecdsa::Signature::from_der(der) else { return e("bad DER signature") };
        if !matches!(ty, 1 | 2 | 3 | 0x81 | 0x82 | 0x83) {
            return e("undefined hash type");
        }
        if ctx == Ctx::V0 && key.len() != 33 {
            return e("uncompressed key in witness script");
        }
        let Ok(k) = PublicKey::from_slice(key) else { return Ok(false) };
        let m = match ctx {
            Ctx::Legacy => sighash::legacy(self.tx, self.i, code, ty as u32),
            Ctx::V0 => sighash::segwit_v0(
                self.tx,
                self.i,
                code,
                self.prevouts[self.i].value.to_sat(),
                ty as u32,
            ),
            Ctx::Tap(_) => unreachable!(),
        };
        let mut n = s;
        n.normalize_s();
        if n != s {
            return e("high S");
        }
        let ok = secp().verify_ecdsa(&Message::from_digest(m), &s, &k).is_ok();
        self.sigs_ok += ok as u32;
        Ok(ok)
    }

    /// Empty: false. Anything else must verify.
    fn schnorr(&mut self, leaf: Option<[u8; 32]>, sig: &[u8], key: &[u8]) -> Res<bool> {
        if sig.is_empty() {
            return Ok(false);
        }
        let ty = match sig.len() {
            64 => 0,
            65 if sig[64] != 0 => sig[64],
            _ => return e("bad schnorr signature size"),
        };
        let Ok(k) = XOnlyPublicKey::from_slice(key) else { return e("bad x-only key") };
        let Some(m) = sighash::taproot(self.tx, self.i, self.prevouts, ty, leaf) else {
            return e("bad taproot hash type");
        };
        let s = schnorr::Signature::from_slice(&sig[..64]).map_err(|_| "bad schnorr signature")?;
        if secp().verify_schnorr(&s, &Message::from_digest(m), &k).is_err() {
            return e("schnorr signature does not verify");
        }
        self.sigs_ok += 1;
        Ok(true)
    }

    fn eval(&mut self, script: &[u8], st: &mut Vec<Vec<u8>>, ctx: Ctx) -> Res<()> {
        let tap = matches!(ctx, Ctx::Tap(_));
        if !tap && script.len() > 10_000 {
            return e("script too long");
        }
        let mut alt: Vec<Vec<u8>> = vec![];
        let mut cond: Vec<bool> = vec![];
        let mut rest = script;
        let mut nops = 0;
        macro_rules! pop {
            () => {
                match st.pop() {
                    Some(x) => x,
                    None => return e("stack empty"),
                }
            };
        }
        while !rest.is_empty() {
            let (o, data, r) = op(rest)?;
            rest = r;
            let exec = cond.iter().all(|c| *c);
            if let Some(d) = data {
                if d.len() > 520 {
                    return e("push too long");
                }
                if exec {
                    st.push(d.to_vec());
                }
                continue;
            }
            if o > 0x60 {
                nops += 1;
                if nops > 201 && !tap {
                    return e("too many operations");
                }
            }
            if !exec && !matches!(o, 0x63 | 0x64 | 0x67 | 0x68) {
                continue;
            }
            match o {
                0x4f => st.push(vec![0x81]),
                0x51..=0x60 => st.push(vec![o - 0x50]),
                0x61 => {}
                0x63 | 0x64 => {
                    let mut v = false;
                    if exec {
                        let x = pop!();
                        // Consensus in tapscript; policy for witness version 0.
                        if ctx != Ctx::Legacy && !(x.is_empty() || x == [1]) {
                            return e("non-minimal IF argument");
                        }
                        v = truth(&x) != (o == 0x64);
                    }
                    cond.push(v);
                }
                0x67 => match cond.last_mut() {
                    Some(c) => *c = !*c,
                    None => return e("unbalanced ELSE"),
                },
                0x68 => {
                    if cond.pop().is_none() {
                        return e("unbalanced ENDIF");
                    }
                }
                0x69 => {
                    if !truth(&pop!()) {
                        return e("VERIFY");
                    }
                }
                0x6b => alt.push(pop!()),
                0x6c => match alt.pop() {
                    Some(x) => st.push(x),
                    None => return e("alt stack empty"),
                },
                0x73 => {
                    let x = pop!();
                    if truth(&x) {
                        st.push(x.clone());
                    }
                    st.push(x);
                }
                0x75 => {
                    pop!();
                }
                0x76 => {
                    let x = pop!();
                    st.push(x.clone());
                    st.push(x);
                }
                0x7c => {
                    let x = pop!();
                    let y = pop!();
                    st.push(x);
                    st.push(y);
                }
                0x82 => {
                    let x = pop!();
                    let n = x.len() as i64;
                    st.push(x);
                    st.push(enc(n));
                }
                0x87 | 0x88 => {
                    let x = pop!();
                    let y = pop!();
                    if o == 0x87 {
                        st.push(b(x == y));
                    } else if x != y {
                        return e("EQUALVERIFY");
                    }
                }
                0x92 => {
                    let x = num(&pop!(), 4)?;
                    st.push(b(x != 0));
                }
                0x91 => {
                    let x = num(&pop!(), 4)?;
                    st.push(b(x == 0));
                }
                0x93 | 0x9a | 0x9b | 0x9c | 0x9d => {
                    let x = num(&pop!(), 4)?;
                    let y = num(&pop!(), 4)?;
                    match o {
                        0x93 => st.push(enc(x + y)),
                        0x9a => st.push(b(x != 0 && y != 0)),
                        0x9b => st.push(b(x != 0 || y != 0)),
                        0x9c => st.push(b(x == y)),
                        _ => {
                            if x != y {
                                return e("NUMEQUALVERIFY");
                            }
                        }
                    }
                }
                0xa6 => {
                    let x = pop!();
                    st.push(ripemd160::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xa8 => {
                    let x = pop!();
                    st.push(sha256::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xa9 => {
                    let x = pop!();
                    st.push(hash160::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xaa => {
                    let x = pop!();
                    st.push(sha256d::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xac | 0xad => {
                    let key = pop!();
                    let sig = pop!();
                    let ok = match ctx {
                        Ctx::Tap(l) => self.schnorr(Some(l), &sig, &key)?,
                        _ => self.ecdsa(ctx, &sig, &key, script)?,
                    };
                    if !ok && !sig.is_empty() {
                        return e("NULLFAIL: a signature does not verify");
                    }
                    if o == 0xac {
                        st.push(b(ok));
                    } else if !ok {
                        return e("CHECKSIGVERIFY");
                    }
                }
                0xba => {
                    let Ctx::Tap(l) = ctx else { return e("CHECKSIGADD outside tapscript") };
                    let key = pop!();
                    let n = num(&pop!(), 4)?;
                    let sig = pop!();
                    let ok = self.schnorr(Some(l), &sig, &key)?;
                    st.push(enc(n + ok as i64));
                }
                0xae | 0xaf => {
                    if tap {
                        return e("CHECKMULTISIG in tapscript");
                    }
                    let n = num(&pop!(), 4)?;
                    if !(0..=20).contains(&n) {
                        return e("key count");
                    }
                    nops += n;
                    if nops > 201 {
                        return e("too many operations");
                    }
                    let mut keys = vec![];
                    for _ in 0..n {
                        keys.push(pop!());
                    }
                    let m = num(&pop!(), 4)?;
                    if !(0..=n).contains(&m) {
                        return e("signature count");
                    }
                    let mut sigs = vec![];
                    for _ in 0..m {
                        sigs.push(pop!());
                    }
                    if !pop!().is_empty() {
                        return e("NULLDUMMY");
                    }
                    let (mut ki, mut ok) = (0, true);
                    for s in &sigs {
                        loop {
                            if ki == keys.len() {
                                ok = false;
                                break;
                            }
                            let hit = self.ecdsa(ctx, s, &keys[ki], script)?;
                            ki += 1;
                            if hit {
                                break;
                            }
                        }
                    }
                    if !ok && sigs.iter().any(|s| !s.is_empty()) {
                        return e("NULLFAIL: a multisig signature does not verify");
                    }
                    if o == 0xae {
                        st.push(b(ok));
                    } else if !ok {
                        return e("CHECKMULTISIGVERIFY");
                    }
                }
                0xb1 => {
                    let Some(x) = st.last() else { return e("stack empty") };
                    let n = num(x, 5)?;
                    let lt = self.tx.lock_time.to_consensus_u32() as i64;
                    if n < 0 {
                        return e("negative lock time");
                    }
                    if (n < 500_000_000) != (lt < 500_000_000) {
                        return e("CLTV: lock time of the other type");
                    }
                    if n > lt {
                        return e("CLTV: lock time too early");
                    }
                    if self.tx.input[self.i].sequence.0 == u32::MAX {
                        return e("CLTV: final sequence");
                    }
                }
                0xb2 => {
                    let Some(x) = st.last() else { return e("stack empty") };
                    let n = num(x, 5)?;
                    if n < 0 {
                        return e("negative relative lock time");
                    }
                    if n & (1 << 31) == 0 {
                        let s = self.tx.input[self.i].sequence.0 as i64;
                        if (self.tx.version.0 as u32) < 2 {
                            return e("CSV: transaction version");
                        }
                        if s & (1 << 31) != 0 {
                            return e("CSV: relative lock time disabled");
                        }
                        if (n & (1 << 22)) != (s & (1 << 22)) {
                            return e("CSV: other type");
                        }
                        if n & 0xffff > s & 0xffff {
                            return e("CSV: too early");
                        }
                    }
                }
                0x6a => return e("OP_RETURN"),
                x => return Err(format!("unsupported opcode {:02x}", x)),
            }
            if st.len() + alt.len() > 1000 {
                return e("stack too deep");
            }
        }
        if !cond.is_empty() {
            return e("unbalanced IF");
        }
        Ok(())
    }

    fn program(&mut self, ver: u8, prog: &[u8], wit: &[Vec<u8>], p2sh: bool) -> Res<()> {
        match (ver, prog.len()) {
            (0, 20) => {
                if wit.len() != 2 {
                    return e("p2wpkh witness needs two items");
                }
                let mut st = wit.to_vec();
                self.eval(&sighash::wpkh_code(prog), &mut st, Ctx::V0)?;
                self.clean(&st)
            }
            (0, 32) => {
                let Some((script, args)) = wit.split_last() else { return e("empty witness") };
                if sighash::sha(script) != *prog {
                    return e("witness script hash");
                }
                if args.iter().any(|a| a.len() > 520) {
                    return e("witness item too long");
                }
                let mut st = args.to_vec();
                self.eval(script, &mut st, Ctx::V0)?;
                self.clean(&st)
            }
            (0, _) => e("bad program length"),
            (1, 32) if !p2sh => {
                let mut w = wit.to_vec();
                if w.len() >= 2 && w.last().unwrap().first() == Some(&0x50) {
                    return e("annex");
                }
                if w.len() == 1 {
                    if !self.schnorr(None, &w[0], prog)? {
                        return e("empty key path signature");
                    }
                    return Ok(());
                }
                let Some(cb) = w.pop() else { return e("empty witness") };
                let Some(script) = w.pop() else { return e("no leaf script") };
                if cb.len() < 33 || (cb.len() - 33) % 32 != 0 || cb.len() > 33 + 32 * 128 {
                    return e("control block size");
                }
                let lh = sighash::leaf_hash(&script, cb[0] & 0xfe);
                let mut k = lh;
                for node in cb[33..].chunks(32) {
                    let mut v = vec![];
                    if k[..] < *node {
                        v.extend(k);
                        v.extend(node);
                    } else {
                        v.extend(node);
                        v.extend(k);
                    }
                    k = sighash::tagged("TapBranch", &v);
                }
                let mut t = cb[1..33].to_vec();
                t.extend(k);
                let tweak = sighash::tagged("TapTweak", &t);
                let Ok(ik) = XOnlyPublicKey::from_slice(&cb[1..33]) else { return e("internal key") };
                let Ok(ok) = XOnlyPublicKey::from_slice(prog) else { return e("output key") };
                let par = if cb[0] & 1 == 1 { Parity::Odd } else { Parity::Even };
                let sc = Scalar::from_be_bytes(tweak).map_err(|_| "tweak")?;
                if !ik.tweak_add_check(secp(), &ok, par, sc) {
                    return e("taproot commitment");
                }
                if cb[0] & 0xfe != 0xc0 {
                    return e("leaf version is anyone-can-spend");
                }
                self.eval(&script, &mut w, Ctx::Tap(lh))?;
                self.clean(&w)
            }
            _ => e("unknown witness program"),
        }
    }

    fn clean(&self, st: &[Vec<u8>]) -> Res<()> {
        match st {
            [x] if truth(x) => Ok(()),
            [_] => e("script is false"),
            [] => e("empty stack at end"),
            _ => e("stack not clean"),
        }
    }
}

pub fn witness_program(spk: &[u8]) -> Option<(u8, &[u8])> {
    if spk.len() < 4 || spk.len() > 42 || spk[1] as usize + 2 != spk.len() {
        return None;
    }
    match spk[0] {
        0 => Some((0, &spk[2..])),
        0x51..=0x60 => Some((spk[0] - 0x50, &spk[2..])),
        _ => None,
    }
}

/// Is input `i` of `tx` a valid spend of `prevouts[i]`? Returns the number of signatures that verified.
pub fn verify(tx: &Transaction, i: usize, prevouts: &[TxOut]) -> Res<u32> {
    let mut env = Env { tx, i, prevouts, sigs_ok: 0 };
    let spk = prevouts[i].script_pubkey.as_bytes();
    let sig = tx.input[i].script_sig.as_bytes();
    let wit: Vec<Vec<u8>> = tx.input[i].witness.iter().map(|w| w.to_vec()).collect();
    if let Some((v, p)) = witness_program(spk) {
        if !sig.is_empty() {
            return e("script sig on a native witness program");
        }
        env.program(v, p, &wit, false)?;
        return Ok(env.sigs_ok);
    }
    // Push only, which consensus asks for P2SH only and policy for all.
    let mut rest = sig;
    while !rest.is_empty() {
        let (o, d, r) = op(rest)?;
        if d.is_none() && !matches!(o, 0x4f | 0x51..=0x60) {
            return e("script sig is not push only");
        }
        rest = r;
    }
    let mut st = vec![];
    env.eval(sig, &mut st, Ctx::Legacy)?;
    let copy = st.clone();
    env.eval(spk, &mut st, Ctx::Legacy)?;
    if !st.last().map(|x| truth(x)).unwrap_or(false) {
        return e("script pubkey is not satisfied");
    }
    let p2sh = spk.len() == 23 && spk[0] == 0xa9 && spk[1] == 0x14 && spk[22] == 0x87;
    if p2sh {
        st = copy;
        let Some(redeem) = st.pop() else { return e("no redeem script") };
        if let Some((v, p)) = witness_program(&redeem) {
            if sig != &[&[redeem.len() as u8][..], &redeem[..]].concat()[..] {
                return e("script sig of a nested witness program");
            }
            env.program(v, p, &wit, true)?;
            return Ok(env.sigs_ok);
        }
        env.eval(&redeem, &mut st, Ctx::Legacy)?;
    }
    if !wit.is_empty() {
        return e("unexpected witness");
    }
    env.clean(&st)?;
    Ok(env.sigs_ok)
}
