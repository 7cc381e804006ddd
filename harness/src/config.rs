//! Builds with other features and other compiler settings give the same answers (C46).
use std::process::{Command, Stdio};

use bitcoin::hashes::Hash;
use bitcoin::key::TapTweak;
use bitcoin::secp256k1::{Message, XOnlyPublicKey};
use bitcoin::sighash::{Prevouts, SighashCache};

use psbt_v2::{v0, v2};

use crate::codec;
use crate::ctx::{self, Case, Ctx};
use crate::gen::{self, secp};
use crate::raw::{hex, unhex, Raw};
use crate::rng::{hash_bytes, hash_str, Rng};
use crate::robust::{self, Log, Mode};
use crate::scen::{keys, Kind};
use crate::sign;
use crate::spec::Ver;

#[path = "../../bare/src/ops.rs"]
#[allow(dead_code)]
mod ops;

/// Whether a serialized version 2 PSBT has fields of the silent payments feature, and whether it is whole without it.
pub fn sp_use(bytes: &[u8]) -> (bool, bool) {
    let Some(raw) = Raw::dec(bytes) else { return (false, true) };
    let (mut used, mut whole) = (false, true);
    for (i, m) in raw.maps.iter().enumerate() {
        let kind = crate::muta::kind_of(&raw, Ver::V2, i);
        let sp: &[u8] = [&[0x07, 0x08][..], &[0x1d, 0x1e], &[0x09, 0x0a]][kind];
        used |= m.iter().any(|k| sp.contains(&k.ty()));
        whole &= kind != 2 || m.iter().any(|k| k.k == [4]);
    }
    (used, whole)
}
pub fn touches_sp(bytes: &[u8]) -> bool { sp_use(bytes).0 }

fn case_rng(seed: u64, i: u64) -> Rng { Rng::new(seed ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x46) }

fn brief(l: &Log) -> String {
    l.ops.iter().map(|(o, s)| format!("{}={:08x}", o.replace(' ', "_"), hash_str(s) as u32)).collect::<Vec<_>>().join(",")
}

/// Runs in each build: a line per case, what was answered.
pub fn worker(seed: u64, from: u64, to: u64, out: &str) {
    gen::set_plain();
    let mut text = String::new();
    for i in from..to {
        let mut r = case_rng(seed, i);
        let line = match i % 3 {
            0 => {
                let (p, _, log) = robust::run_v2(&mut r, Mode::Portable);
                format!("v2\t{}\t{}", hex(&p.serialize()), brief(&log))
            }
            1 => {
                let (p, _, log) = robust::run_v0(&mut r, Mode::Portable);
                format!("v0\t{}\t{}", hex(&p.serialize()), brief(&log))
            }
            _ => {
                let mut l = String::from("bytes");
                for _ in 0..20 {
                    let ver = if r.bool() { Ver::V2 } else { Ver::V0 };
                    let (b, _) = codec::hostile_bytes(&mut r, ver);
                    let a = ctx::catch(|| v2::Psbt::deserialize(&b).map(|p| hex(&p.serialize())).map_err(|e| format!("{:?}", e)));
                    let z = ctx::catch(|| v0::bitcoin::Psbt::deserialize(&b).map(|p| hex(&p.serialize())).map_err(|e| format!("{:?}", e)));
                    let show = |x: Result<Result<String, String>, _>| match x {
                        Ok(Ok(h)) => format!("+{}", h),
                        Ok(Err(e)) => format!("-{:016x}", hash_str(&e)),
                        Err(_) => "!".to_string(),
                    };
                    let b = if b.len() > 3000 { format!("#{:016x}", hash_bytes(&b)) } else { hex(&b) };
                    l.push_str(&format!("\t{}\t{}\t{}", b, show(a), show(z)));
                }
                l
            }
        };
        text.push_str(&line);
        text.push('\n');
    }
    std::fs::write(out, text).unwrap();
}

fn run(exe: &str, args: &[String]) -> bool {
    Command::new(exe)
        .args(args)
        .env_remove("MON_STATE")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map(|s| s.success())
        .unwrap_or(false)
}

pub fn builds_agree(ctx: &Ctx, run_dir: &str) {
    ctx.rule("The same PSBTs and bytes through builds of the crate: all features with overflow checks and debug assertions; without silent payments and without those checks; no features at all (no_std); with rand. Every operation's answer is compared. Distinct: by PSBT.");
    gen::set_plain();
    let builds = std::env::var("MON_BUILDS").unwrap_or_else(|_| "/verif/build".into());
    for k in ["compared:v2", "compared:v0", "compared:bytes", "compared:bare", "compared:rand", "tap_sigs_verified"] {
        ctx.require(k, 500);
    }
    ctx.require("operations", 100_000);
    let seed = ctx.seed;
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let other = format!("{}/nosp/plain/mon", builds);
    const N: u64 = 120;
    ctx.cases("builds", 64, 1600, |c| {
        let i = c.index;
        let out = |w: &str| format!("{}/config-{}-{}-{}", run_dir, std::process::id(), i, w);
        let go = |exe: &str, w: &str| {
            let f = out(w);
            let args: Vec<String> = vec!["--config-worker".into(), seed.to_string(), (i * N).to_string(), ((i + 1) * N).to_string(), f.clone()];
            let ok = run(exe, &args);
            let s = std::fs::read_to_string(&f).ok();
            let _ = std::fs::remove_file(&f);
            s.filter(|_| ok)
        };
        let (Some(a), Some(b)) = (go(&me, "a"), go(&other, "b")) else {
            c.count("worker_died");
            return;
        };
        if a.lines().count() != b.lines().count() {
            c.fail("config:lines", format!("{} {}", a.lines().count(), b.lines().count()));
        }
        for (x, y) in a.lines().zip(b.lines()) {
            let (x, y): (Vec<&str>, Vec<&str>) = (x.split('\t').collect(), y.split('\t').collect());
            c.count(&format!("compared:{}", x[0]));
            if x[0] == "bytes" {
                for (x, y) in x[1..].chunks(3).zip(y[1..].chunks(3)) {
                    bytes(c, x, y);
                }
                continue;
            }
            c.distinct(hash_str(x[1]));
            if !c.check(x[1] == y[1], "config:origin", || format!("the PSBTs differ already\n{}\n{}", x[1], y[1])) {
                continue;
            }
            let (ox, oy): (Vec<&str>, Vec<&str>) = (x[2].split(',').collect(), y[2].split(',').collect());
            for (p, q) in ox.iter().zip(&oy) {
                c.count("operations");
                let name = p.split('=').next().unwrap();
                if !c.check(p == q, &format!("config:{}:{}", x[0], name), || format!("{} {}\nPSBT: {}", p, q, x[1])) {
                    break;
                }
            }
            c.check(ox.len() == oy.len(), &format!("config:{}:operations", x[0]), || format!("{} {}\nPSBT: {}", ox.len(), oy.len(), x[1]));
        }
    });
    let masters: String = keys().masters.iter().map(|m| format!("x {}\n", m)).collect();
    let secrets: String = keys().keys.iter().map(|k| format!("k {}\n", hex(&k.sk.secret_bytes()))).collect();
    ctx.cases("features", 48, 1200, |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let mut text = secrets.clone() + &masters;
        let mut cases = vec![];
        for _ in 0..100 {
            let which = r.below(keys().masters.len() + 3);
            let v = r.bool();
            let (a, b) = if !v && r.chance(1, 2) {
                // Something to sign with the keys of some master.
                let (s, _) = sign::signing_scen(r, &[Kind::TrKey, Kind::TrScript, Kind::Wpkh], false);
                let p = s.v0();
                (p.serialize(), p.serialize())
            } else if v {
                let (p, _) = robust::any_v2(r);
                let q = robust::relative_v2(r, &p);
                (p.serialize(), q.serialize())
            } else {
                let (p, _) = robust::any_v0(r);
                let q = if r.bool() { p.clone() } else { robust::any_v0(r).0 };
                (p.serialize(), q.serialize())
            };
            text.push_str(&format!("{} {} {} {}\n", if v { 2 } else { 0 }, which, hex(&a), hex(&b)));
            c.distinct(hash_bytes(&a));
            cases.push(a);
        }
        let Some(mine) = c.guard("operations", || ops::run_file(&text)) else { return };
        for w in ["bare", "rand"] {
            let f = |x: &str| format!("{}/feat-{}-{}-{}-{}", run_dir, std::process::id(), c.index, w, x);
            let (fi, fo) = (f("in"), f("out"));
            std::fs::write(&fi, &text).unwrap();
            let ok = run(&format!("{}/{}/debug/bare", builds, w), &[fi.clone(), fo.clone()]);
            let got = std::fs::read_to_string(&fo).unwrap_or_default();
            let _ = std::fs::remove_file(&fi);
            let _ = std::fs::remove_file(&fo);
            if !ok {
                c.count("worker_died");
                continue;
            }
            for ((x, y), p) in mine.lines().zip(got.lines()).zip(&cases) {
                let (xa, xs) = x.split_once('\x1e').unwrap_or((x, ""));
                let (ya, ys) = y.split_once('\x1e').unwrap_or((y, ""));
                c.count(&format!("compared:{}", w));
                let (xa, ya): (Vec<&str>, Vec<&str>) = (xa.split('\x1d').collect(), ya.split('\x1d').collect());
                for (p1, q1) in xa.iter().zip(&ya) {
                    c.count("operations");
                    let name = p1.split('\x1f').next().unwrap();
                    if !c.check(p1 == q1, &format!("config:{}:{}", w, name), || format!("{}\n{}\nPSBT: {}", p1, q1, hex(p))) {
                        break;
                    }
                }
                c.check(xa.len() == ya.len(), &format!("config:{}:operations", w), || format!("{} {}", xa.len(), ya.len()));
                if w == "rand" && !xs.is_empty() && !ys.is_empty() {
                    tap_sigs(c, p, &unhex(ys));
                }
            }
        }
    });
}

/// The two answers of two builds to the same bytes: the first with silent payments, the second without.
fn bytes(c: &mut Case, x: &[&str], y: &[&str]) {
    if !c.check(x[0] == y[0], "config:bytes-origin", || format!("{:?}\n{:?}", x[0], y[0])) {
        return;
    }
    c.count("operations");
    c.check(x[2] == y[2], "config:bytes:v0", || format!("{}\n{}\n{}", x[0], x[2], y[2]));
    let body = |s: &str| s.strip_prefix('+').map(unhex);
    match (body(x[1]), body(y[1])) {
        (Some(a), Some(b)) => {
            let same = if touches_sp(&a) {
                // One writes them where they belong, the other with the unknown ones.
                c.count("sp_as_unknown");
                Raw::dec(&a).map(|r| r.sorted()) == Raw::dec(&b).map(|r| r.sorted())
            } else {
                a == b
            };
            c.check(same, "config:bytes:v2", || format!("{}\n{}\n{}", x[0], x[1], y[1]));
        }
        (Some(a), None) => {
            let (used, whole) = sp_use(&a);
            c.check(used && !whole, "config:bytes:v2-refused-without", || format!("{}\n{}\n{}", x[0], x[1], y[1]));
        }
        (None, Some(b)) => {
            c.check(touches_sp(&b), "config:bytes:v2-refused-with", || format!("{}\n{}\n{}", x[0], x[1], y[1]));
        }
        (None, None) => {
            if x[1] != y[1] {
                c.count("refused_differently");
            }
        }
    }
}

/// Taproot signatures that were not there before verify.
fn tap_sigs(c: &mut Case, before: &[u8], after: &[u8]) {
    let (Ok(p), Ok(q)) = (v0::bitcoin::Psbt::deserialize(before), v0::bitcoin::Psbt::deserialize(after)) else { return };
    let spent: Option<Vec<_>> = q.iter_funding_utxos().map(|u| u.ok().cloned()).collect();
    for i in 0..q.inputs.len() {
        let (a, b) = (&p.inputs[i], &q.inputs[i]);
        let mut fresh: Vec<(XOnlyPublicKey, Option<bitcoin::TapLeafHash>, bitcoin::taproot::Signature)> = vec![];
        for ((k, l), s) in &b.tap_script_sigs {
            if a.tap_script_sigs.get(&(*k, *l)) != Some(s) {
                fresh.push((*k, Some(*l), *s));
            }
        }
        let spk = q.iter_funding_utxos().nth(i).and_then(|u| u.ok()).map(|u| u.script_pubkey.clone());
        if let (Some(s), Some(spk)) = (b.tap_key_sig.filter(|s| a.tap_key_sig != Some(*s)), spk) {
            if let Ok(k) = XOnlyPublicKey::from_slice(spk.as_bytes().get(2..).unwrap_or_default()) {
                // Unless the fields are of another output than the one being spent.
                let own = b.tap_internal_key.map(|i| i.tap_tweak(secp(), b.tap_merkle_root).0.to_x_only_public_key());
                if own == Some(k) {
                    fresh.push((k, None, s));
                }
            }
        }
        for (k, leaf, s) in fresh {
            let mut cache = SighashCache::new(&q.unsigned_tx);
            let one = q.iter_funding_utxos().nth(i).and_then(|u| u.ok());
            let anyone = (s.sighash_type as u8) & 0x80 != 0;
            let h = match (anyone, one, &spent) {
                (true, Some(u), _) => cache.taproot_signature_hash(i, &Prevouts::One(i, u), None, leaf.map(|l| (l, 0xffff_ffff)), s.sighash_type),
                (false, _, Some(v)) => cache.taproot_signature_hash(i, &Prevouts::All(v), None, leaf.map(|l| (l, 0xffff_ffff)), s.sighash_type),
                _ => continue,
            };
            let Ok(h) = h else { continue };
            let ok = secp().verify_schnorr(&s.signature, &Message::from_digest(h.to_byte_array()), &k).is_ok();
            c.count("tap_sigs_verified");
            c.check(ok, "config:rand:signature", || format!("input {} key {} leaf {:?}\n{}", i, k, leaf, hex(after)));
        }
    }
}
