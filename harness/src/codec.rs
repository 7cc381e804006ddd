//! Monitors for the wire formats (C01..C09).
use std::collections::BTreeMap;
use std::sync::OnceLock;

use psbt_v2::{v0, v2};

use crate::ctx::{catch, measure, panic_sig, Case, Ctx};
use crate::raw::{compact, diff_maps, hex, unhex, Raw, KV};
use crate::rng::{hash_bytes, Rng};
use crate::spec::{normalised, spec, spec_bytes, Spec, Ver};
use crate::{gen, muta, pairs};

pub fn vectors() -> &'static Vec<Vec<u8>> {
    static V: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    V.get_or_init(|| include_str!("../vectors/psbt.hex").lines().map(unhex).collect())
}

/// Uniform view of the two parsers.
pub enum Parsed {
    V0(Box<v0::bitcoin::Psbt>),
    V2(Box<v2::Psbt>),
}
impl Parsed {
    pub fn ser(&self) -> Vec<u8> {
        match self {
            Parsed::V0(p) => p.serialize(),
            Parsed::V2(p) => p.serialize(),
        }
    }
    pub fn same(&self, o: &Parsed) -> bool {
        match (self, o) {
            (Parsed::V0(a), Parsed::V0(b)) => a == b,
            (Parsed::V2(a), Parsed::V2(b)) => a == b,
            _ => false,
        }
    }
    pub fn pairs(&self) -> Raw {
        match self {
            Parsed::V0(p) => pairs::v0(p),
            Parsed::V2(p) => pairs::v2(p),
        }
    }
}
pub fn parse(ver: Ver, b: &[u8]) -> Result<Parsed, String> {
    match ver {
        Ver::V0 => v0::bitcoin::Psbt::deserialize(b)
            .map(|p| Parsed::V0(Box::new(p)))
            .map_err(|e| format!("{:?}", e)),
        Ver::V2 => v2::Psbt::deserialize(b)
            .map(|p| Parsed::V2(Box::new(p)))
            .map_err(|e| format!("{:?}", e)),
    }
}

pub fn gen_raw(r: &mut Rng, ver: Ver, big: bool) -> Raw {
    match ver {
        Ver::V2 => pairs::v2(&gen::v2_psbt(r, big)),
        Ver::V0 => pairs::v0(&gen::v0_psbt_of(r, big)),
    }
}

fn tag(ver: Ver) -> &'static str {
    match ver {
        Ver::V0 => "v0",
        Ver::V2 => "v2",
    }
}

/// An input for the totality monitors: valid, KV-mutated, byte-mutated, vectors, or raw noise.
pub fn hostile_bytes(r: &mut Rng, ver: Ver) -> (Vec<u8>, &'static str) {
    let other = |r: &mut Rng| -> Vec<u8> {
        if r.bool() {
            r.pick(vectors()).clone()
        } else {
            let v = if r.bool() { Ver::V2 } else { Ver::V0 };
            gen_raw(r, v, false).enc()
        }
    };
    match r.below(10) {
        0 => {
            let n = r.below(200);
            let mut b = r.bytes(n);
            if r.bool() {
                let mut m = b"psbt\xff".to_vec();
                m.extend(b);
                b = m;
            }
            (b, "noise")
        }
        1..=3 => {
            let mut raw = gen_raw(r, ver, r.clone().chance(1, 20));
            for _ in 0..r.range(1, 3) {
                muta::mutate(r, &mut raw, ver);
            }
            (raw.enc(), "kv-mutant")
        }
        4 => {
            let mut b = r.pick(vectors()).clone();
            if r.bool() {
                let o = other(r);
                muta::mutate_bytes(r, &mut b, &o);
            }
            (b, "vector")
        }
        5 => (hostile_claims(r, ver), "claims"),
        _ => {
            let mut b = gen_raw(r, ver, false).enc();
            let o = other(r);
            for _ in 0..r.range(1, 4) {
                muta::mutate_bytes(r, &mut b, &o);
            }
            (b, "byte-mutant")
        }
    }
}

/// Well-formed prefixes followed by enormous length or count claims.
fn hostile_claims(r: &mut Rng, ver: Ver) -> Vec<u8> {
    let big = *r.pick(&[
        0xffffu64,
        0x10_0000,
        3_999_999,
        4_000_000,
        4_000_001,
        0x0fff_ffff,
        0x7fff_ffff,
        0xffff_ffff,
        1 << 36,
        1 << 40,
        1 << 47,
        1 << 58,
        u64::MAX / 2,
        u64::MAX,
    ]);
    let mut b = b"psbt\xff".to_vec();
    let put = |b: &mut Vec<u8>, kv: KV| {
        b.extend(compact(kv.k.len() as u64));
        b.extend(&kv.k);
        b.extend(compact(kv.v.len() as u64));
        b.extend(&kv.v);
    };
    match (ver, r.below(6)) {
        (Ver::V2, 0..=2) => {
            // Enormous input/output counts.
            let (i, o) = match r.below(3) {
                0 => (big, 1),
                1 => (0, big),
                _ => (big, big),
            };
            put(&mut b, KV::new(0xfb, [], [2, 0, 0, 0]));
            put(&mut b, KV::new(2, [], [2, 0, 0, 0]));
            put(&mut b, KV::new(4, [], compact(i)));
            put(&mut b, KV::new(5, [], compact(o)));
            b.push(0);
            if r.bool() {
                b.extend(crate::raw::enc_map(&pairs::v2_input(&gen::v2_input(r, 1))));
            }
        }
        (Ver::V0, 0..=2) => {
            // Enormous counts inside the unsigned transaction.
            let mut t = vec![2, 0, 0, 0];
            t.extend(compact(if r.bool() { big } else { 0 }));
            t.extend(compact(big));
            t.extend(r.bytes(8));
            put(&mut b, KV::new(0, [], t));
            b.push(0);
        }
        (_, 3) => b.extend(compact(big)), // key length
        (_, 4) => {
            b.extend([1, r.u8()]);
            b.extend(compact(big)); // value length
            let n = r.below(30);
            b.extend(r.bytes(n));
        }
        _ => {
            // Claims nested inside values: witness element counts, leaf hashes, tap tree scripts.
            let raw = gen_raw(r, ver, false);
            let mut raw = raw;
            if raw.maps.len() > 1 {
                let (t, v): (u8, Vec<u8>) = match r.below(5) {
                    0 => (0x08, compact(big)),
                    1 => (0x16, compact(big)),
                    2 => (0x01, {
                        let mut v = vec![0; 8];
                        v.extend(compact(big));
                        v
                    }),
                    3 => (0x00, {
                        let mut v = vec![2, 0, 0, 0];
                        v.extend(compact(big));
                        v
                    }),
                    _ => (0x06, {
                        let mut v = vec![0, 0xc0];
                        v.extend(compact(big));
                        v
                    }),
                };
                let at = r.range(1, raw.maps.len() - 1);
                raw.maps[at].retain(|k| k.ty() != t);
                let kd = if t == 0x16 { gen::xonly(r).serialize().to_vec() } else { vec![] };
                raw.maps[at].push(KV::new(t, kd, v));
            }
            b = raw.enc();
        }
    }
    b
}

/// C01 / C02.
pub fn totality(ctx: &Ctx, ver: Ver) {
    let t = tag(ver);
    ctx.rule(&format!("Each case is one byte string given to {}::Psbt::deserialize (and, as text, to from_str): random noise, valid PSBTs, PSBTs mutated key-by-key or byte-by-byte, BIP vectors, and containers whose count or length claims are enormous. Non-trivial: longer than the magic. Distinct: by content hash.", t));
    ctx.assume("Allocation bound monitored: peak live heap growth of one call <= 48 MB + 64 bytes per input byte (rust-bitcoin's own cap of 4,000,000 elements per vector is inside it: a witness claiming them costs 32 MB); requests above 3 GB are refused by the monitor's allocator and end the process, which the supervisor reports.");
    ctx.require("accepted", 50);
    ctx.require("rejected", 500);
    let run = |c: &mut Case, b: &[u8], kind: &'static str| {
        if b.len() > 5 {
            c.distinct(hash_bytes(b));
        }
        c.count(&format!("kind.{}", kind));
        c.sample(kind, || hex(b));
        let (r, st) = measure(|| catch(|| parse(ver, b).map(|_| ())));
        match r {
            Err(p) => c.fail(
                format!("deserialize:{}", panic_sig(&p)),
                format!("{}::Psbt::deserialize panicked at {}:{}: {}\ninput: {}", t, p.file, p.line, p.msg, hex(b)),
            ),
            Ok(Ok(_)) => c.count("accepted"),
            Ok(Err(_)) => c.count("rejected"),
        }
        let bound = (48u64 << 20) + 64 * b.len() as u64;
        if st.peak > bound || st.max_request > bound {
            c.fail(
                "allocation-unbounded",
                format!(
                    "{}::Psbt::deserialize of {} bytes allocated {} bytes at peak, largest request {} (bound {})\ninput: {}",
                    t, b.len(), st.peak, st.max_request, bound, hex(b)
                ),
            );
        }
        if st.peak > 1 << 20 {
            c.count("peak-above-1MB");
        }
    };
    ctx.cases("claims", 9_000, 200_000, |c| {
        let b = hostile_claims(&mut c.rng, ver);
        run(c, &b, "claims");
    });
    ctx.cases("hostile", 120_000, 3_000_000, |c| {
        let (b, k) = hostile_bytes(&mut c.rng, ver);
        run(c, &b, k);
    });
    ctx.cases("vectors", vectors().len() as u64, vectors().len() as u64, |c| {
        // Every prefix of every vector.
        let v = &vectors()[c.index as usize];
        for n in 0..=v.len() {
            run(c, &v[..n], "vector-prefix");
        }
    });
    ctx.cases("text", 15_000, 200_000, |c| {
        let (b, _) = hostile_bytes(&mut c.rng, ver);
        let mut s = base64_enc(&b);
        match c.rng.below(4) {
            0 => {}
            1 => {
                let n = c.rng.below(s.len() + 1);
                s.truncate(n);
            }
            2 => {
                let i = c.rng.below(s.len() + 1);
                let ch = *c.rng.pick(&['é', '=', ' ', '\u{0}', 'A', '-', '\n']);
                s.insert(i, ch);
            }
            _ => s = hex(&b),
        }
        let s2 = s.clone();
        let ok = c.guard_with("from_str", || s2, || match ver {
            Ver::V0 => s.parse::<v0::bitcoin::Psbt>().is_ok(),
            Ver::V2 => s.parse::<v2::Psbt>().is_ok(),
        });
        if let Some(ok) = ok {
            c.count(if ok { "text.accepted" } else { "text.rejected" });
        }
    });
}

pub fn base64_enc(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for ch in b.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        s.push(T[(n >> 18) as usize & 63] as char);
        s.push(T[(n >> 12) as usize & 63] as char);
        s.push(if ch.len() > 1 { T[(n >> 6) as usize & 63] as char } else { '=' });
        s.push(if ch.len() > 2 { T[n as usize & 63] as char } else { '=' });
    }
    s
}

/// C03 / C06: anything built through the API survives serialize -> deserialize, and every field is
/// on the wire where the BIPs put it.
pub fn roundtrip(ctx: &Ctx, ver: Ver) {
    let t = tag(ver);
    ctx.rule(&format!("Each case is a random {} PSBT with every field independently present or absent (1-12 inputs/outputs, sometimes 0 or >252). Non-trivial: at least one input or output. Oracle: an independent table of (key type, key data, value) per field, and structural equality after parsing.", t));
    ctx.require("pairs", 20_000);
    ctx.cases("roundtrip", 60_000, 480_000, |c| {
        let p = match ver {
            Ver::V2 => Parsed::V2(Box::new(gen::v2_psbt(&mut c.rng, true))),
            Ver::V0 => Parsed::V0(Box::new(gen::v0_psbt_of(&mut c.rng, true))),
        };
        let want = p.pairs();
        let want_bytes = want.enc();
        let Some(bytes) = c.guard_with("serialize", || want.describe(), || p.ser()) else { return };
        if want.maps.len() > 1 {
            c.distinct(hash_bytes(&bytes));
        }
        for (i, m) in want.maps.iter().enumerate() {
            let k = muta::kind_of(&want, ver, i);
            for kv in m {
                c.add("pairs", 1);
                c.count(&format!("field.{}.{:02x}", ["global", "input", "output"][k], if kv.ty() < 0x30 || kv.ty() > 0xf8 { kv.ty() } else { 0x55 }));
            }
        }
        c.sample("psbt", || hex(&bytes));
        match Raw::dec(&bytes) {
            None => c.fail("serialize:not-a-container", format!("bytes: {}", hex(&bytes))),
            Some(got) => {
                if got.sorted() != want.sorted() {
                    c.fail(
                        format!("serialize:fields{}", first_diff_types(&got, &want, ver)),
                        format!("left=serialized right=expected: {}\nbytes: {}", diff_maps(&got.sorted(), &want.sorted()), hex(&bytes)),
                    );
                }
            }
        }
        let Some(r) = c.guard_with("deserialize", || hex(&bytes), || parse(ver, &bytes)) else { return };
        match r {
            Err(e) => c.fail(format!("own-output-rejected:{}", ident(&e)), format!("{}\nbytes: {}", e, hex(&bytes))),
            Ok(q) => {
                if !q.same(&p) {
                    let qp = q.pairs();
                    c.fail(
                        format!("roundtrip:not-equal{}", first_diff_types(&qp, &want, ver)),
                        format!("left=parsed right=original: {}\nbytes: {}", diff_maps(&qp.sorted(), &want.sorted()), hex(&bytes)),
                    );
                }
                if q.ser() != bytes {
                    c.fail("reserialize:bytes-differ", format!("bytes: {}", hex(&bytes)));
                }
            }
        }
        // The independent encoding of the same fields parses to the same PSBT.
        if let Some(Ok(q)) = c.guard_with("deserialize", || hex(&want_bytes), || parse(ver, &want_bytes)) {
            if !q.same(&p) {
                c.fail(
                    format!("parse-of-spec-encoding:not-equal{}", first_diff_types(&q.pairs(), &want, ver)),
                    format!("left=parsed right=expected: {}\nbytes: {}", diff_maps(&q.pairs().sorted(), &want.sorted()), hex(&want_bytes)),
                );
            }
        }
    });
}

/// Identifier-like prefix of an error's debug form.
pub fn ident(e: &str) -> String {
    let mut out = String::new();
    let mut depth = 0;
    for ch in e.chars() {
        if ch.is_ascii_alphanumeric() {
            out.push(ch);
        } else if ch == '(' && depth < 2 {
            depth += 1;
            out.push('.');
        } else {
            break;
        }
    }
    out.trim_end_matches('.').chars().take(60).collect()
}

fn first_diff_types(a: &Raw, b: &Raw, ver: Ver) -> String {
    for (i, (x, y)) in a.maps.iter().zip(&b.maps).enumerate() {
        for kv in x.iter().filter(|k| !y.contains(k)).chain(y.iter().filter(|k| !x.contains(k))) {
            return format!("({}.{:02x})", ["global", "input", "output"][muta::kind_of(b, ver, i)], kv.ty());
        }
    }
    if a.maps.len() != b.maps.len() {
        return "(map-count)".into();
    }
    String::new()
}

/// One accept/reject + losslessness observation.
fn judge(c: &mut Case, ver: Ver, bytes: &[u8], s: &Spec, raw: Option<&Raw>, strict: bool, lossless: bool, how: &str) {
    let Some(r) = c.guard_with("deserialize", || hex(bytes), || parse(ver, bytes)) else { return };
    match (&r, s) {
        (Ok(_), Spec::Reject(why)) => {
            c.count("spec-reject.accepted");
            if strict {
                c.fail(format!("accepted:{}", why), format!("malformed ({}, made by {}) but accepted\nbytes: {}", why, how, hex(bytes)));
            }
        }
        (Err(e), Spec::Accept) => {
            c.count("spec-accept.rejected");
            // Both codec families rely on valid PSBTs being accepted.
            c.fail(format!("rejected-valid:{}", ident(e)), format!("valid PSBT (made by {}) rejected: {}\nbytes: {}\n{}", how, e, hex(bytes), raw.map(|r| r.describe()).unwrap_or_default()));
        }
        (Ok(_), Spec::Accept) => c.count("spec-accept.accepted"),
        (Err(_), Spec::Reject(why)) => {
            c.count("spec-reject.rejected");
            c.count(&format!("rejected.{}", why));
        }
        (Ok(_), Spec::Unspecified(_)) => c.count("unspecified.accepted"),
        (Err(_), Spec::Unspecified(_)) => c.count("unspecified.rejected"),
    }
    if !lossless {
        return;
    }
    let Ok(p) = r else { return };
    let Some(out) = c.guard_with("serialize", || hex(bytes), || p.ser()) else { return };
    if let (Some(raw), Spec::Accept) = (raw, s) {
        c.count("lossless-compared");
        match Raw::dec(&out) {
            None => c.fail("reserialized-not-a-container", format!("in: {}\nout: {}", hex(bytes), hex(&out))),
            Some(got) => {
                let want = normalised(ver, raw);
                if got.sorted() != want {
                    let w = Raw { maps: want.clone(), trailing: vec![] };
                    c.fail(
                        format!("lossy{}", first_diff_types(&Raw { maps: got.sorted(), trailing: vec![] }, &w, ver)),
                        format!("left=reserialized right=input: {}\nin: {}\nout: {}", diff_maps(&got.sorted(), &want), hex(bytes), hex(&out)),
                    );
                }
            }
        }
    }
    match c.guard_with("deserialize-own", || hex(&out), || parse(ver, &out)) {
        Some(Ok(q)) => {
            if !q.same(&p) {
                c.fail("reparse-differs", format!("in: {}\nout: {}", hex(bytes), hex(&out)));
            }
            if q.ser() != out {
                c.fail("serialization-not-a-fixed-point", format!("in: {}\nout: {}", hex(bytes), hex(&out)));
            }
        }
        Some(Err(e)) => c.fail(format!("own-output-rejected:{}", ident(&e)), format!("{}\nin: {}\nout: {}", e, hex(bytes), hex(&out))),
        None => {}
    }
}

/// C04 / C07 (lossless) and C05 / C08 (strict).
pub fn against_spec(ctx: &Ctx, ver: Ver, strict: bool, lossless: bool) {
    let t = tag(ver);
    ctx.rule(&format!("Each case is a {} container built from a random PSBT's key-value pairs, with fields in random order and 0-3 key-value mutations (duplicate, remove, insert, foreign-version, retype, truncate, extend, bit flips, counts, versions, preimages, lock times, trailing data) or byte mutations. Non-trivial: parses as a container with at least 2 maps. Oracle: an independent BIP-174/370/371/375 field table returning accept / reject / unspecified, and key-value set equality of the re-serialisation.", t));
    if lossless {
        ctx.require("lossless-compared", 3000);
    }
    if strict {
        ctx.require("spec-reject.rejected", 2000);
        ctx.require("magic-changed", 1000);
    }
    ctx.cases("kv", 96_000, 1_500_000, |c| {
        let big = c.rng.chance(1, 60);
        let mut raw = gen_raw(&mut c.rng, ver, big);
        muta::shuffle_all(&mut c.rng, &mut raw);
        let n = if lossless && !strict { c.rng.below(3) } else { c.rng.range(0, 3) };
        let mut how = String::new();
        for _ in 0..n {
            how += muta::mutate(&mut c.rng, &mut raw, ver);
            how.push('+');
        }
        let bytes = raw.enc();
        // Judge the bytes, not the structure: a mutated container may split differently.
        let (s, dec) = spec_bytes(ver, &bytes);
        if dec.as_ref().map(|d| d.maps.len() > 1).unwrap_or(false) {
            c.distinct(hash_bytes(&bytes));
        }
        c.sample("kv", || format!("{} {:?} {}", how, s, hex(&bytes)));
        judge(c, ver, &bytes, &s, dec.as_ref(), strict, lossless, &how);
        if n == 0 && s != Spec::Accept {
            c.count(&format!("unmutated-not-accept.{:?}", s));
        }
        // Field order does not matter.
        if lossless && s == Spec::Accept {
            let mut r2 = dec.clone().unwrap();
            muta::shuffle_all(&mut c.rng, &mut r2);
            let b2 = r2.enc();
            if let (Some(Ok(p)), Some(q)) = (
                c.guard("deserialize", || parse(ver, &bytes)),
                c.guard("deserialize", || parse(ver, &b2)),
            ) {
                match q {
                    Ok(q) => {
                        c.count("order-compared");
                        if !q.same(&p) || q.ser() != p.ser() {
                            c.fail("field-order-changes-result", format!("a: {}\nb: {}", hex(&bytes), hex(&b2)));
                        }
                    }
                    Err(e) => c.fail("field-order-changes-acceptance", format!("{} a: {}\nb: {}", e, hex(&bytes), hex(&b2))),
                }
            }
        }
    });
    ctx.cases("bytes", 48_000, 1_000_000, |c| {
        let (b, k) = hostile_bytes(&mut c.rng, ver);
        let (s, dec) = spec_bytes(ver, &b);
        if dec.as_ref().map(|d| d.maps.len() > 1).unwrap_or(false) {
            c.distinct(hash_bytes(&b));
        }
        judge(c, ver, &b, &s, dec.as_ref(), strict, lossless, k);
    });
    ctx.cases("vectors", vectors().len() as u64, vectors().len() as u64, |c| {
        let b = &vectors()[c.index as usize];
        let (s, dec) = spec_bytes(ver, b);
        c.count(match s {
            Spec::Accept => "vector.accept",
            Spec::Reject(_) => "vector.reject",
            Spec::Unspecified(_) => "vector.unspecified",
        });
        judge(c, ver, b, &s, dec.as_ref(), strict, lossless, "bip-vector");
        if strict {
            // All prefixes are malformed.
            for n in 0..b.len() {
                let (s, dec) = spec_bytes(ver, &b[..n]);
                judge(c, ver, &b[..n], &s, dec.as_ref(), true, false, "vector-prefix");
            }
            // Every other value of the five bytes in front, and some other value of every byte.
            for n in 0..b.len() {
                let all = n < 5;
                for x in 1..=255u8 {
                    if !all && !(x.is_power_of_two() || x == 255 || x == c.index as u8) {
                        continue;
                    }
                    let mut m = b.clone();
                    m[n] ^= x;
                    let (s, dec) = spec_bytes(ver, &m);
                    if all {
                        c.count("magic-changed");
                        c.check(matches!(s, Spec::Reject(_)), "oracle:magic", || hex(&m));
                    }
                    judge(c, ver, &m, &s, dec.as_ref(), true, false, "vector-byte");
                }
            }
        }
    });
    if strict {
        // Systematically: every field of every kind, duplicated / extended / truncated.
        ctx.cases("per-field", 400, 4_000, |c| {
            let p = gen_full(&mut c.rng, ver);
            let (s, _) = spec_bytes(ver, &p.enc());
            if s != Spec::Accept {
                c.count("full-not-accept");
                return;
            }
            for mi in 0..p.maps.len() {
                for pi in 0..p.maps[mi].len() {
                    for op in 0..7 {
                        let mut q = p.clone();
                        let kv = q.maps[mi][pi].clone();
                        let name = match op {
                            0 => {
                                q.maps[mi].push(kv);
                                "dup"
                            }
                            1 => {
                                q.maps[mi].insert(0, kv);
                                "dup-front"
                            }
                            2 => {
                                q.maps[mi][pi].k.push(0);
                                "keydata+1"
                            }
                            3 => {
                                q.maps[mi][pi].k.truncate(1);
                                "keydata-all"
                            }
                            4 => {
                                q.maps[mi][pi].v.push(0);
                                "value+1"
                            }
                            5 => {
                                q.maps[mi][pi].v.pop();
                                "value-1"
                            }
                            _ => {
                                q.maps[mi].remove(pi);
                                "remove"
                            }
                        };
                        let b = q.enc();
                        let (s, dec) = spec_bytes(ver, &b);
                        c.distinct(hash_bytes(&b));
                        judge(c, ver, &b, &s, dec.as_ref(), true, false, name);
                    }
                }
            }
        });
    }
}

/// A PSBT with nearly every field present.
pub fn gen_full(r: &mut Rng, ver: Ver) -> Raw {
    match ver {
        Ver::V2 => pairs::v2(&v2::Psbt {
            global: gen::v2_global(r, 9, 1, 1),
            inputs: vec![gen::v2_input(r, 9)],
            outputs: vec![gen::v2_output(r, 9)],
        }),
        Ver::V0 => {
            let mut p = gen::v0_psbt(r);
            p.unsigned_tx.input.truncate(1);
            p.unsigned_tx.output.truncate(1);
            p.inputs.truncate(1);
            p.outputs.truncate(1);
            pairs::v0(&p)
        }
    }
}

/// C09: neither parser accepts the other version, and any version number other than its own is refused.
pub fn versions(ctx: &Ctx) {
    ctx.rule("Each case is a valid v0 or v2 PSBT, or a hybrid made by moving version-specific global/input/output fields and version numbers between the two. Oracle: no byte string is accepted by both parsers, and neither parser accepts a container whose declared version is not its own. Non-trivial: accepted by at least one parser, or carrying a foreign-version field.");
    ctx.require("v0-accepted", 500);
    ctx.require("v2-accepted", 500);
    let observe = |c: &mut Case, b: &[u8]| {
        let a = c.guard_with("v0-deserialize", || hex(b), || parse(Ver::V0, b)).map(|r| r.is_ok());
        let d = c.guard_with("v2-deserialize", || hex(b), || parse(Ver::V2, b)).map(|r| r.is_ok());
        if a == Some(true) {
            c.count("v0-accepted");
        }
        if d == Some(true) {
            c.count("v2-accepted");
        }
        if a == Some(true) && d == Some(true) {
            c.fail("accepted-as-both", hex(b));
        }
        (a, d)
    };
    ctx.cases("native", 24_000, 200_000, |c| {
        let ver = if c.rng.bool() { Ver::V2 } else { Ver::V0 };
        let b = gen_raw(&mut c.rng, ver, false).enc();
        c.distinct(hash_bytes(&b));
        let (a, d) = observe(c, &b);
        match ver {
            Ver::V0 if d == Some(true) => c.fail("v2-parser-accepts-v0", hex(&b)),
            Ver::V2 if a == Some(true) => c.fail("v0-parser-accepts-v2", hex(&b)),
            Ver::V0 if a == Some(false) => c.fail("v0-parser-rejects-v0", hex(&b)),
            Ver::V2 if d == Some(false) => c.fail("v2-parser-rejects-v2", hex(&b)),
            _ => {}
        }
    });
    ctx.cases("version-number", 24_000, 200_000, |c| {
        let ver = if c.rng.bool() { Ver::V2 } else { Ver::V0 };
        let mut raw = gen_raw(&mut c.rng, ver, false);
        let own = if ver == Ver::V2 { 2 } else { 0 };
        let n: u32 = match c.rng.below(6) {
            5 => own ^ 1 << c.rng.below(32),
            0 => c.rng.below(6) as u32,
            1 => c.rng.u32(),
            2 => 2 << (8 * c.rng.below(4)),
            3 => 1,
            _ => 3,
        };
        raw.maps[0].retain(|k| k.k != [0xfb]);
        let at = c.rng.below(raw.maps[0].len() + 1);
        raw.maps[0].insert(at, KV::new(0xfb, [], n.to_le_bytes()));
        let b = raw.enc();
        c.distinct(hash_bytes(&b));
        c.count(&format!("declared.{}", if n < 4 { n.to_string() } else { "other".into() }));
        let (a, d) = observe(c, &b);
        let n_ok = match ver {
            Ver::V0 => n == 0,
            Ver::V2 => n == 2,
        };
        if !n_ok && (a == Some(true) || d == Some(true)) {
            c.fail("wrong-version-number-accepted", format!("version {} {}", n, hex(&b)));
        }
        if n_ok && !(if ver == Ver::V0 { a } else { d }).unwrap_or(true) {
            c.fail("right-version-number-rejected", format!("version {} {}", n, hex(&b)));
        }
    });
    ctx.cases("hybrid", 36_000, 300_000, |c| {
        let ver = if c.rng.bool() { Ver::V2 } else { Ver::V0 };
        let mut raw = gen_raw(&mut c.rng, ver, false);
        // Insert one field which only the other version defines.
        let kind = c.rng.below(3);
        let mi = match kind {
            0 => 0,
            k => {
                let idx: Vec<usize> = (1..raw.maps.len()).filter(|i| muta::kind_of(&raw, ver, *i) == k).collect();
                if idx.is_empty() {
                    return;
                }
                *c.rng.pick(&idx)
            }
        };
        let kind = muta::kind_of(&raw, ver, mi);
        let kv = match (ver, kind) {
            (Ver::V2, 0) => {
                let p = gen::v0_psbt(&mut c.rng);
                pairs::v0(&p).maps[0][0].clone()
            }
            (Ver::V2, _) => return,
            (Ver::V0, 0) => match c.rng.below(5) {
                0 => KV::new(2, [], [2, 0, 0, 0]),
                1 => KV::new(3, [], c.rng.arr::<4>()),
                2 => KV::new(4, [], [raw.maps.len() as u8]),
                3 => KV::new(5, [], [1]),
                _ => KV::new(6, [], [c.rng.u8() & 7]),
            },
            (Ver::V0, 1) => match c.rng.below(5) {
                0 => KV::new(0x0e, [], c.rng.arr::<32>()),
                1 => KV::new(0x0f, [], [0, 0, 0, 0]),
                2 => KV::new(0x10, [], c.rng.arr::<4>()),
                3 => KV::new(0x11, [], 500_000_001u32.to_le_bytes()),
                _ => KV::new(0x12, [], 5u32.to_le_bytes()),
            },
            (Ver::V0, _) =>
                if c.rng.bool() {
                    KV::new(0x03, [], [1, 0, 0, 0, 0, 0, 0, 0])
                } else {
                    KV::new(0x04, [], [0x51])
                },
        };
        let ty = kv.ty();
        let n = raw.maps[mi].len();
        let at = c.rng.below(n + 1);
        raw.maps[mi].insert(at, kv);
        let b = raw.enc();
        c.distinct(hash_bytes(&b));
        c.count(&format!("foreign.{}.{:02x}", ["global", "input", "output"][kind], ty));
        let (a, d) = observe(c, &b);
        if a == Some(true) || d == Some(true) {
            c.fail(format!("foreign-field-accepted:{}.{:02x}", ["global", "input", "output"][kind], ty), hex(&b));
        }
    });
    ctx.cases("both", 36_000, 300_000, |c| {
        // The union of a v0 and a v2 global map over shared maps, in several dilutions.
        let a = gen_raw(&mut c.rng, Ver::V0, false);
        let b2 = gen_raw(&mut c.rng, Ver::V2, false);
        let mut maps = a.maps.clone();
        let mut g: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        for kv in a.maps[0].iter().chain(&b2.maps[0]) {
            if c.rng.chance(9, 10) {
                g.insert(kv.k.clone(), kv.v.clone());
            }
        }
        maps[0] = g.into_iter().map(|(k, v)| KV { k, v }).collect();
        if c.rng.bool() {
            maps.truncate(1);
            maps.extend(b2.maps[1..].iter().cloned());
        }
        let raw = Raw { maps, trailing: vec![] };
        let b = raw.enc();
        c.distinct(hash_bytes(&b));
        observe(c, &b);
        let _ = spec(Ver::V0, &raw);
    });
}
