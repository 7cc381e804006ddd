//! Monitors for the Combiner (C17..C20).
use psbt_v2::{v0, v2};

use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint};

use crate::codec::{gen_full, gen_raw, ident, parse, Parsed};
use crate::ctx::{Case, Ctx};
use crate::model;
use crate::muta::{kind_of, some_pair};
use crate::raw::{diff_maps, Map, Raw};
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec::{normalised, Ver};
use crate::gen;

pub fn comb(a: &Parsed, b: &Parsed) -> Result<Parsed, String> {
    match (a, b) {
        (Parsed::V2(a), Parsed::V2(b)) => (**a)
            .clone()
            .combine_with((**b).clone())
            .map(|p| Parsed::V2(Box::new(p)))
            .map_err(|e| format!("{:?}", e)),
        (Parsed::V0(a), Parsed::V0(b)) => {
            let mut x = (**a).clone();
            x.combine((**b).clone()).map_err(|e| format!("{:?}", e))?;
            Ok(Parsed::V0(Box::new(x)))
        }
        _ => unreachable!(),
    }
}

/// Pairs that say which transaction this is, and so are in every party's copy.
fn identity(ver: Ver, kind: usize, ty: u8) -> bool {
    match (ver, kind) {
        (Ver::V0, 0) => ty == 0,
        (Ver::V0, _) => false,
        (Ver::V2, 0) => matches!(ty, 0xfb | 2 | 3 | 4 | 5 | 6),
        (Ver::V2, 1) => matches!(ty, 0x0e | 0x0f | 0x11 | 0x12),
        (Ver::V2, _) => matches!(ty, 3 | 4),
    }
}

/// One party's copy: what it knows of `full`.
fn subset(r: &mut Rng, ver: Ver, full: &Raw) -> Raw {
    let mut o = full.clone();
    let keep = *r.pick(&[2usize, 5, 5, 8]);
    let salt = r.u64();
    for i in 0..o.maps.len() {
        let kind = kind_of(full, ver, i);
        let has_script = o.maps[i].iter().any(|k| k.k == [4]);
        o.maps[i].retain(|kv| {
            let ty = kv.ty();
            if identity(ver, kind, ty) {
                return true;
            }
            if ver == Ver::V2 {
                // An ECDH share and its proof come together; so do info and label.
                let group = match (kind, ty) {
                    (0, 7 | 8) => Some(7),
                    (1, 0x1d | 0x1e) => Some(0x1d),
                    (2, 9 | 0x0a) => {
                        if !has_script {
                            return true;
                        }
                        Some(9)
                    }
                    _ => None,
                };
                if let Some(g) = group {
                    let h = mix(mix(salt, g + 100 * i as u64), hash_bytes(kv.keydata()));
                    return h % 10 < keep as u64;
                }
            }
            r.chance(keep, 10)
        });
    }
    if ver == Ver::V2 && r.bool() {
        drop_locks(r, full, &mut o);
    }
    o
}

/// Inputs that can do with a time or a height, which leaves more than one way to say when the transaction is valid.
fn with_locks(r: &mut Rng, ver: Ver, mut f: Raw) -> Raw {
    if ver == Ver::V0 || !r.chance(1, 3) {
        return f;
    }
    let ni = model::n_inputs(&f);
    for m in f.maps.iter_mut().skip(1).take(ni) {
        if r.chance(1, 3) {
            continue;
        }
        m.retain(|k| k.k != [0x11] && k.k != [0x12]);
        if r.chance(5, 6) {
            let (t, h) = (500_000_000 + r.below(3) as u32, 1 + r.below(3) as u32);
            m.push(crate::raw::KV::new(0x11, [], t.to_le_bytes()));
            m.push(crate::raw::KV::new(0x12, [], h.to_le_bytes()));
        }
    }
    f
}

/// Takes required lock times away that do not decide the transaction's lock time.
///
/// An input's only required lock time stays, so copies agree on the kind also after they were combined.
fn drop_locks(r: &mut Rng, full: &Raw, o: &mut Raw) {
    let Ok(want) = model::lock_time(full) else { return };
    for i in 1..=model::n_inputs(full) {
        let both = o.maps[i].iter().filter(|k| k.k == [0x11] || k.k == [0x12]).count() == 2;
        if !both || r.bool() {
            continue;
        }
        let before = o.maps[i].clone();
        let which: &[u8] = *r.pick(&[&[0x11u8][..], &[0x12], &[0x11, 0x12]]);
        o.maps[i].retain(|k| !(k.k.len() == 1 && which.contains(&k.k[0])));
        if model::lock_time(o) != Ok(want) {
            o.maps[i] = before;
        }
    }
}

/// Types whose values cannot differ freely (preimages hash to their key), or which have their own merge rule.
fn rigid(ver: Ver, kind: usize, ty: u8) -> bool {
    identity(ver, kind, ty)
        || match kind {
            0 => matches!(ty, 1 | 7 | 8),
            1 => matches!(ty, 0x0a..=0x0d | 0x15 | 0x1d | 0x1e),
            _ => false,
        }
}

/// Replaces values by other valid ones for the same key. Returns how many.
fn conflict(r: &mut Rng, ver: Ver, a: &mut Raw) -> usize {
    let mut n = 0;
    for i in 0..a.maps.len() {
        let kind = kind_of(a, ver, i);
        for j in 0..a.maps[i].len() {
            let kv = a.maps[i][j].clone();
            if rigid(ver, kind, kv.ty()) || !r.chance(1, 3) {
                continue;
            }
            for _ in 0..4 {
                let alt = some_pair(r, ver, kind);
                if alt.ty() == kv.ty() && alt.v != kv.v {
                    a.maps[i][j].v = alt.v;
                    n += 1;
                    break;
                }
            }
        }
    }
    n
}

fn full(r: &mut Rng, ver: Ver) -> Raw {
    if r.chance(1, 150) {
        // More maps than one byte can count, with something in many of them.
        let mut f = gen_raw(r, ver, true);
        while f.maps.len() < 254 {
            f = gen_raw(r, ver, true);
        }
        for m in f.maps[1..].iter_mut() {
            for _ in 0..r.below(3) {
                let (k, v) = gen::unknown(r);
                if !m.iter().any(|x| x.k[0] == k.type_value) {
                    m.push(crate::raw::KV::new(k.type_value, k.key, v));
                }
            }
        }
        return f;
    }
    if r.bool() {
        gen_full(r, ver)
    } else {
        gen_raw(r, ver, false)
    }
}

fn same_keys(m: &Map, kv: &crate::raw::KV) -> bool { m.iter().any(|k| k.k == kv.k) }

/// Union of the parties' pairs, or the pair with one of the candidate values.
fn check_union(c: &mut Case, ver: Ver, a: &Raw, b: &Raw, got: &Raw, what: &str) {
    let (an, bn, gn) = (normalised(ver, a), normalised(ver, b), normalised(ver, got));
    if gn.len() != an.len() {
        c.fail(format!("{}:map-count", what), format!("{} maps from {} and {}", gn.len(), an.len(), bn.len()));
        return;
    }
    let mut merged = 0u64;
    for i in 0..gn.len() {
        let kind = kind_of(a, ver, i);
        let kn = ["global", "input", "output"][kind];
        for kv in an[i].iter().chain(&bn[i]) {
            if !same_keys(&gn[i], kv) {
                c.fail(
                    format!("{}:lost({}.{:02x})", what, kn, kv.ty()),
                    format!("map {} pair {} missing\nA: {}\nB: {}\nresult: {}", i, kv.hex(), a.describe(), b.describe(), got.describe()),
                );
            } else {
                merged += 1;
            }
        }
        for kv in &gn[i] {
            if ver == Ver::V2 && kind == 0 && kv.ty() == 6 {
                let fl = |m: &Map| model::get(m, 6).map(|v| v[0]).unwrap_or(0);
                let (x, y) = (fl(&an[0]), fl(&bn[0]));
                let z = (x & y & 3) | ((x | y) & 4);
                if kv.v.first().map(|v| v & 7) != Some(z) {
                    c.fail(
                        format!("{}:modifiable-flags", what),
                        format!("flags {:#x} and {:#x} give {:?}: a result may be modifiable only if both are, and must remember SIGHASH_SINGLE", x, y, kv.v),
                    );
                }
                continue;
            }
            let ca = an[i].iter().find(|k| k.k == kv.k);
            let cb = bn[i].iter().find(|k| k.k == kv.k);
            let ok = ca.map(|k| k.v == kv.v).unwrap_or(false) || cb.map(|k| k.v == kv.v).unwrap_or(false);
            if !ok {
                c.fail(
                    format!("{}:invented({}.{:02x})", what, kn, kv.ty()),
                    format!("map {} pair {} is neither A's nor B's\nA: {}\nB: {}", i, kv.hex(), a.describe(), b.describe()),
                );
            }
        }
    }
    c.add("pairs_seen_in_result", merged);
}

fn lossless_case(c: &mut Case, ver: Ver, conflicts: bool) {
    let mut r = c.rng.clone();
    let f = full(&mut r, ver);
    let f = with_locks(&mut r, ver, f);
    let (mut a, b) = (subset(&mut r, ver, &f), subset(&mut r, ver, &f));
    if ver == Ver::V2 {
        for m in [&mut a.maps[0]] {
            if let Some(k) = m.iter_mut().find(|k| k.k == [6]) {
                k.v = vec![r.below(8) as u8];
            }
        }
    }
    let n = if conflicts { conflict(&mut r, ver, &mut a) } else { 0 };
    let (Ok(pa), Ok(pb)) = (parse(ver, &a.enc()), parse(ver, &b.enc())) else {
        c.count("unparsable");
        return;
    };
    let Some(res) = c.guard_with("combine", || format!("A: {}\nB: {}", a.describe(), b.describe()), || comb(&pa, &pb)) else { return };
    c.count("combined");
    c.add("conflicting_values", n as u64);
    c.distinct(hash_bytes(&[a.enc(), b.enc()].concat()));
    if ver == Ver::V2 && model::lock_time(&f).is_err() {
        // No unsigned transaction, hence no identity.
        c.count("no-lock-time");
        return;
    }
    match res {
        Ok(p) => {
            c.sample("A", || a.describe());
            c.sample("B", || b.describe());
            check_union(c, ver, &a, &b, &p.pairs(), "union");
            if let Some(Err(e)) = c.guard("reparse", || parse(ver, &p.ser()).map(|_| ())) {
                c.fail("combined-does-not-parse", e);
            }
        }
        Err(e) => c.fail(
            format!("refused:{}", ident(&e)),
            format!("two copies of one PSBT do not combine: {}\nA: {}\nB: {}", e, a.describe(), b.describe()),
        ),
    }
}

pub fn lossless(ctx: &Ctx) {
    ctx.rule("Two parties' copies of one generated PSBT: random subsets of its pairs, in half of the cases with differing values for the same key. Combined with the real combiner; the result is compared pair by pair with the union. Distinct: by the bytes of both copies.");
    ctx.require("combined", 500);
    ctx.require("conflicting_values", 500);
    ctx.cases("agree", 24_000, 400_000, |c| lossless_case(c, Ver::V2, false));
    ctx.cases("conflict", 24_000, 400_000, |c| lossless_case(c, Ver::V2, true));
}

fn algebra_case(c: &mut Case, ver: Ver, conflicts: bool) {
    let mut r = c.rng.clone();
    let f = full(&mut r, ver);
    let f = with_locks(&mut r, ver, f);
    let mut s: Vec<Raw> = (0..3).map(|_| subset(&mut r, ver, &f)).collect();
    for x in s.iter_mut() {
        if ver == Ver::V2 && r.bool() {
            if let Some(k) = x.maps[0].iter_mut().find(|k| k.k == [6]) {
                k.v = vec![r.below(8) as u8];
            }
        }
        if conflicts {
            conflict(&mut r, ver, x);
        }
    }
    if ver == Ver::V2 && model::lock_time(&f).is_err() {
        return;
    }
    let p: Vec<Parsed> = match s.iter().map(|x| parse(ver, &x.enc())).collect::<Result<_, _>>() {
        Ok(p) => p,
        Err(_) => {
            c.count("unparsable");
            return;
        }
    };
    c.distinct(hash_bytes(&s.iter().flat_map(|x| x.enc()).collect::<Vec<u8>>()));
    let describe = || format!("A: {}\nB: {}\nC: {}", s[0].describe(), s[1].describe(), s[2].describe());
    let mut op = |c: &mut Case, x: &Parsed, y: &Parsed| -> Option<Parsed> {
        match c.guard_with("combine", describe, || comb(x, y)) {
            Some(Ok(z)) => Some(z),
            Some(Err(e)) => {
                c.fail(format!("refused:{}", ident(&e)), format!("{}\n{}", e, describe()));
                None
            }
            None => None,
        }
    };
    let keys = |p: &Parsed| -> Vec<Vec<Vec<u8>>> { p.pairs().sorted().into_iter().map(|m| m.into_iter().map(|k| k.k).collect()).collect() };
    let eq = |c: &mut Case, law: &str, x: &Parsed, y: &Parsed| {
        c.count(law);
        if conflicts {
            if keys(x) != keys(y) {
                c.fail(format!("{}:keys", law), format!("key sets differ\n{}", describe()));
            }
        } else if !x.same(y) {
            c.fail(law, format!("{}\n{}", diff_maps(&x.pairs().sorted(), &y.pairs().sorted()), describe()));
        } else if x.ser() != y.ser() {
            c.fail(format!("{}:bytes", law), format!("equal PSBTs, different bytes\n{}", describe()));
        }
    };
    let Some(aa) = op(c, &p[0], &p[0]) else { return };
    c.count("idempotent");
    if !aa.same(&p[0]) {
        c.fail("idempotent", format!("{}\n{}", diff_maps(&aa.pairs().sorted(), &p[0].pairs().sorted()), describe()));
    }
    let (Some(ab), Some(ba)) = (op(c, &p[0], &p[1]), op(c, &p[1], &p[0])) else { return };
    eq(c, "commutative", &ab, &ba);
    let Some(bc) = op(c, &p[1], &p[2]) else { return };
    let (Some(ab_c), Some(a_bc)) = (op(c, &ab, &p[2]), op(c, &p[0], &bc)) else { return };
    eq(c, "associative", &ab_c, &a_bc);
    let Some(ab_a) = op(c, &ab, &p[0]) else { return };
    eq(c, "absorbing", &ab_a, &ab);
    let Some(full_again) = op(c, &ab_c, &p[1]) else { return };
    eq(c, "absorbing", &full_again, &ab_c);
    if let (Parsed::V2(a), Parsed::V2(b)) = (&p[0], &p[1]) {
        let free = v2::combine((**a).clone(), (**b).clone());
        match free {
            Ok(f) => eq(c, "free-function", &Parsed::V2(Box::new(f)), &ab),
            Err(e) => c.fail("free-function", format!("{:?}", e)),
        }
    }
}

pub fn algebra(ctx: &Ctx) {
    ctx.rule("Three parties' copies of one generated PSBT. Monitored: A+A=A, A+B=B+A, (A+B)+C=A+(B+C), (A+B)+A=A+B, equal PSBTs serialize equally; with conflicting values the key sets must agree. Plus the key source rule for xpubs, in both orders. Distinct: by the bytes of the copies.");
    ctx.require("commutative", 500);
    ctx.require("associative", 500);
    ctx.require("xpub_conflict_refused", 100);
    ctx.require("xpub_longer_path_wins", 100);
    ctx.cases("agree", 18_000, 300_000, |c| algebra_case(c, Ver::V2, false));
    ctx.cases("conflict", 9_000, 150_000, |c| algebra_case(c, Ver::V2, true));
    ctx.cases("xpub", 24_000, 192_000, |c| xpub_case(c, Ver::V2));
}

fn path(r: &mut Rng, n: usize) -> Vec<ChildNumber> { (0..n).map(|_| ChildNumber::from(r.below(3) as u32)).collect() }

/// The documented rule for two key sources of one xpub.
fn xpub_case(c: &mut Case, ver: Ver) {
    let mut r = c.rng.clone();
    let x = gen::xpub(&mut r);
    let y = gen::xpub(&mut r);
    let fps = [Fingerprint::from([1, 2, 3, 4]), Fingerprint::from([9, 9, 9, 9])];
    let n = r.below(5);
    let p1 = path(&mut r, n);
    let p2 = match r.below(5) {
        0 => p1.clone(),
        1 => p1[r.below(p1.len() + 1)..].to_vec(),
        2 => {
            let k = r.below(3);
            let mut q = path(&mut r, k);
            q.extend(&p1);
            q
        }
        _ => {
            let k = r.below(5);
            path(&mut r, k)
        }
    };
    let f1 = *r.pick(&fps);
    let f2 = if r.chance(2, 3) { f1 } else { *r.pick(&fps) };
    let (s1, s2) = ((f1, DerivationPath::from(p1.clone())), (f2, DerivationPath::from(p2.clone())));
    let expect = if s1 == s2 {
        Some(s1.clone())
    } else if p1.len() < p2.len() && p2.ends_with(&p1) {
        Some(s2.clone())
    } else if p2.len() < p1.len() && p1.ends_with(&p2) {
        Some(s1.clone())
    } else {
        None
    };
    let mk = |r: &mut Rng, s: &(Fingerprint, DerivationPath)| -> (Parsed, bool) {
        let extra = r.bool();
        let p = match ver {
            Ver::V2 => {
                let mut p = v2::Psbt { global: gen::v2_global(&mut Rng::new(5), 0, 0, 0), inputs: vec![], outputs: vec![] };
                p.global.fallback_lock_time = None;
                p.global.xpubs.insert(x, s.clone());
                if extra && y != x {
                    p.global.xpubs.insert(y, (fps[0], DerivationPath::from(vec![])));
                }
                Parsed::V2(Box::new(p))
            }
            Ver::V0 => {
                let mut p = v0::bitcoin::Psbt::from_unsigned_tx(gen::unsigned_tx(&mut Rng::new(5))).unwrap();
                p.xpub.insert(x, s.clone());
                if extra && y != x {
                    p.xpub.insert(y, (fps[0], DerivationPath::from(vec![])));
                }
                Parsed::V0(Box::new(p))
            }
        };
        (p, extra)
    };
    let (a, ea) = mk(&mut r, &s1);
    let (b, eb) = mk(&mut r, &s2);
    let text = format!("{:?} with {:?}", s1, s2);
    c.distinct(hash_bytes(text.as_bytes()));
    c.sample("xpub", || text.clone());
    for (u, v) in [(&a, &b), (&b, &a)] {
        let Some(res) = c.guard_with("combine-xpubs", || text.clone(), || comb(u, v)) else { continue };
        match (res, &expect) {
            (Ok(p), Some(e)) => {
                let m = match &p {
                    Parsed::V2(p) => &p.global.xpubs,
                    Parsed::V0(p) => &p.xpub,
                };
                if s1 != s2 {
                    c.count("xpub_longer_path_wins");
                }
                if m.get(&x) != Some(e) {
                    c.fail("xpub:wrong-source", format!("{} gave {:?}", text, m.get(&x)));
                }
                if (ea || eb) && y != x && !m.contains_key(&y) {
                    c.fail("xpub:lost", text.clone());
                }
            }
            (Err(e), None) => {
                c.count("xpub_conflict_refused");
                if !e.contains("Inconsistent") {
                    c.fail("xpub:wrong-error", format!("{}: {}", text, e));
                }
            }
            (Ok(_), None) => c.fail("xpub:conflict-accepted", text.clone()),
            (Err(e), Some(_)) => c.fail("xpub:refused", format!("{}: {}", text, e)),
        }
    }
}

/// C19: PSBTs for different transactions are refused.
pub fn rejects(ctx: &Ctx) {
    ctx.rule("Two copies of one generated PSBT, one of them changed in exactly one thing that decides which transaction it is (an outpoint, an amount, a script, the transaction version, a required or fallback lock time, the number or order of maps) or in one that does not. Accepted iff a reference computation of the unique id agrees. Distinct: by the bytes of both.");
    ctx.require("different-transaction", 300);
    ctx.require("same-transaction", 300);
    ctx.require("counts-in-errors", 100);
    ctx.cases("identity", 36_000, 400_000, |c| {
        let mut r = c.rng.clone();
        let f = if r.chance(1, 4) { full(&mut r, Ver::V2) } else { gen_raw(&mut r, Ver::V2, false) };
        let (mut a, mut b) = (subset(&mut r, Ver::V2, &f), subset(&mut r, Ver::V2, &f));
        if r.bool() {
            // Everything is there: nothing that a party has may make it trust the other.
            (a, b) = (f.clone(), f.clone());
        }
        let ni = model::n_inputs(&b);
        let no = b.maps.len() - 1 - ni;
        let donor = gen_full(&mut r, Ver::V2);
        let what = match r.below(10) {
            0 if ni > 0 => {
                let i = 1 + r.below(ni);
                let t = *r.pick(&[0x0eu8, 0x0f]);
                let v = model::get(&donor.maps[1], t).unwrap().to_vec();
                b.maps[i].iter_mut().find(|k| k.k == [t]).unwrap().v = v;
                "outpoint"
            }
            1 if no > 0 => {
                let i = 1 + ni + r.below(no);
                if let Some(k) = b.maps[i].iter_mut().find(|k| k.k == [3]) {
                    let d = r.below(64);
                    k.v[d / 8 % 7] ^= 1 << (d % 8);
                }
                "amount"
            }
            2 if no > 0 => {
                let i = 1 + ni + r.below(no);
                if let Some(k) = b.maps[i].iter_mut().find(|k| k.k == [4]) {
                    if !k.v.is_empty() && r.chance(1, 3) {
                        k.v.clear();
                    } else if k.v.is_empty() || r.bool() {
                        k.v.push(0x51);
                    } else {
                        let j = r.below(k.v.len());
                        k.v[j] ^= 1 << r.below(8);
                    }
                }
                "script"
            }
            3 => {
                b.maps[0].iter_mut().find(|k| k.k == [2]).unwrap().v = vec![r.range(2, 4) as u8, 0, 0, 0];
                "tx-version"
            }
            4 => {
                b.maps[0].retain(|k| k.k != [3]);
                if r.chance(2, 3) {
                    let l = r.pick(&[0u32, 1, 500_000_000, 800_000]).to_le_bytes();
                    b.maps[0].push(crate::raw::KV::new(3, [], l));
                }
                "fallback"
            }
            5 if ni > 0 => {
                let i = 1 + r.below(ni);
                let t = *r.pick(&[0x11u8, 0x12]);
                b.maps[i].retain(|k| k.k != [t]);
                if r.chance(2, 3) {
                    let l: u32 = if t == 0x11 { 500_000_000 + r.below(3) as u32 } else { 1 + r.below(3) as u32 };
                    b.maps[i].push(crate::raw::KV::new(t, [], l.to_le_bytes()));
                }
                "required-lock-time"
            }
            6 if ni > 0 => {
                // one map fewer, or one more
                if r.bool() {
                    let i = 1 + r.below(ni);
                    b.maps.remove(i);
                    set_counts(&mut b, ni - 1, no);
                } else {
                    b.maps.insert(1 + ni, donor.maps[1].clone());
                    set_counts(&mut b, ni + 1, no);
                }
                "input-count"
            }
            7 if no > 0 => {
                if r.bool() {
                    let i = 1 + ni + r.below(no);
                    b.maps.remove(i);
                    set_counts(&mut b, ni, no - 1);
                } else {
                    b.maps.push(donor.maps[2].clone());
                    set_counts(&mut b, ni, no + 1);
                }
                "output-count"
            }
            8 if ni + no > 2 => {
                if ni > 1 && r.bool() {
                    b.maps.swap(1, ni);
                } else if no > 1 {
                    b.maps.swap(1 + ni, ni + no);
                }
                "order"
            }
            _ => "nothing",
        };
        let (Ok(pa), Ok(pb)) = (parse(Ver::V2, &a.enc()), parse(Ver::V2, &b.enc())) else {
            c.count("unparsable");
            return;
        };
        let (ia, ib) = (model::id(&a), model::id(&b));
        if ia.is_err() && ib.is_err() {
            c.count("no-id");
            return;
        }
        let same = ia.is_ok() && ia == ib && model::n_inputs(&a) == model::n_inputs(&b);
        c.distinct(hash_bytes(&[a.enc(), b.enc()].concat()));
        c.count(if same { "same-transaction" } else { "different-transaction" });
        c.count(&format!("changed.{}.{}", what, if same { "same" } else { "different" }));
        c.sample(what, || format!("A: {} B: {}", a.describe(), b.describe()));
        for (x, y, t) in [(&pa, &pb, "A+B"), (&pb, &pa, "B+A")] {
            let Some(res) = c.guard_with("combine", || format!("A: {}\nB: {}", a.describe(), b.describe()), || comb(x, y)) else { continue };
            match (res, same) {
                (Ok(_), false) => c.fail(
                    format!("accepted:{}", what),
                    format!("{} accepted although the transactions differ ({})\nA: {}\nB: {}", t, what, a.describe(), b.describe()),
                ),
                (Err(e), true) => c.fail(
                    format!("refused:{}", ident(&e)),
                    format!("{} refused although they are the same transaction ({}): {}\nA: {}\nB: {}", t, what, e, a.describe(), b.describe()),
                ),
                (Err(e), false) => {
                    // The numbers an error gives are those of the two PSBTs.
                    let n = |p: &Parsed| match p {
                        Parsed::V2(p) => (p.inputs.len(), p.outputs.len()),
                        _ => unreachable!(),
                    };
                    for (name, this, that) in [("InputCount", n(x).0, n(y).0), ("OutputCount", n(x).1, n(y).1)] {
                        if e.contains(&format!("{}Mismatch", name)) {
                            c.count("counts-in-errors");
                            let want = format!("{}Mismatch {{ this: {}, that: {} }}", name, this, that);
                            c.check(e.contains(&want), "refusal-names-other-counts", || format!("{}: {}, expected {}", t, e, want));
                        }
                    }
                }
                _ => {}
            }
        }
    });
}

pub fn set_counts(r: &mut Raw, ni: usize, no: usize) {
    for k in r.maps[0].iter_mut() {
        if k.k == [4] {
            k.v = crate::raw::compact(ni as u64);
        }
        if k.k == [5] {
            k.v = crate::raw::compact(no as u64);
        }
    }
}

/// C20: the v0 combiner, all of the above.
pub fn v0_all(ctx: &Ctx) {
    ctx.rule("As for version 2: parties' copies of one generated PSBT with agreeing or conflicting values, union and algebra monitors, xpub rule, and PSBTs with different unsigned transactions (refused, and the PSBT combined into left as it was). Distinct: by the bytes of the copies.");
    ctx.require("combined", 500);
    ctx.require("conflicting_values", 200);
    ctx.require("commutative", 300);
    ctx.require("refused_other_tx", 300);
    ctx.cases("agree", 18_000, 300_000, |c| lossless_case(c, Ver::V0, false));
    ctx.cases("conflict", 18_000, 300_000, |c| lossless_case(c, Ver::V0, true));
    ctx.cases("algebra", 15_000, 300_000, |c| algebra_case(c, Ver::V0, false));
    ctx.cases("algebra-conflict", 5_000, 100_000, |c| algebra_case(c, Ver::V0, true));
    ctx.cases("xpub", 18_000, 144_000, |c| xpub_case(c, Ver::V0));
    ctx.cases("other-tx", 9_000, 100_000, |c| {
        let mut r = c.rng.clone();
        let p = gen::v0_psbt(&mut r);
        let mut q = p.clone();
        let t = &mut q.unsigned_tx;
        match r.below(9) {
            0 => t.version.0 ^= 1,
            1 => t.lock_time = bitcoin::absolute::LockTime::from_consensus(t.lock_time.to_consensus_u32() ^ 1),
            2 if !t.input.is_empty() => {
                let i = r.below(t.input.len());
                t.input[i].previous_output.vout ^= 1
            }
            3 if !t.input.is_empty() => {
                let i = r.below(t.input.len());
                t.input[i].sequence.0 ^= 1
            }
            4 if !t.output.is_empty() => {
                let i = r.below(t.output.len());
                t.output[i].value = bitcoin::Amount::from_sat(t.output[i].value.to_sat() ^ 1)
            }
            5 if !t.output.is_empty() => {
                let i = r.below(t.output.len());
                t.output[i].script_pubkey = bitcoin::ScriptBuf::from(vec![0x6a, r.u8()])
            }
            6 => {
                let mut i = t.input.last().cloned().unwrap_or_default();
                i.previous_output.vout ^= 1;
                t.input.push(i);
                q.inputs.push(Default::default());
            }
            7 => {
                t.input.pop();
                q.inputs.pop();
            }
            8 if r.bool() => {
                t.output.pop();
                q.outputs.pop();
            }
            _ => {
                t.output.push(gen::txout(&mut r));
                q.outputs.push(Default::default());
            }
        }
        if p.unsigned_tx == q.unsigned_tx {
            return;
        }
        c.count("refused_other_tx");
        c.distinct(hash_bytes(&[p.serialize(), q.serialize()].concat()));
        let mut x = p.clone();
        let Some(res) = c.guard("combine", || x.combine(q.clone())) else { return };
        if res.is_ok() {
            c.fail("accepted:other-tx", format!("{} with {}", p.serialize_hex(), q.serialize_hex()));
        } else if x != p {
            c.fail("refused-but-changed", p.serialize_hex());
        }
    });
}
