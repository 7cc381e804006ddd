mod codec;
mod combine;
mod config;
mod ctx;
mod desc;
mod fin;
mod gen;
mod model;
mod muta;
mod pairs;
mod raw;
mod rng;
mod robust;
mod roles;
mod scen;
mod sighash;
mod interp;
mod sat;
mod sign;
mod agree;
mod bin;
mod text;
mod spec;

use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use ctx::Ctx;
use spec::Ver;

#[global_allocator]
static ALLOC: ctx::CountingAlloc = ctx::CountingAlloc;

fn dispatch(ctx: &Ctx, run_dir: &str) -> bool {
    match ctx.id.as_str() {
        "C01" => codec::totality(ctx, Ver::V2),
        "C02" => codec::totality(ctx, Ver::V0),
        "C03" => codec::roundtrip(ctx, Ver::V2),
        "C04" => codec::against_spec(ctx, Ver::V2, false, true),
        "C05" => codec::against_spec(ctx, Ver::V2, true, false),
        "C06" => codec::roundtrip(ctx, Ver::V0),
        "C07" => codec::against_spec(ctx, Ver::V0, false, true),
        "C08" => codec::against_spec(ctx, Ver::V0, true, false),
        "C09" => codec::versions(ctx),
        "C17" => combine::lossless(ctx),
        "C18" => combine::algebra(ctx),
        "C19" => combine::rejects(ctx),
        "C20" => combine::v0_all(ctx),
        "C21" => sign::v2_sign(ctx, sign::What::Sound),
        "C22" => sign::v2_sign(ctx, sign::What::Complete),
        "C23" => sign::v2_sign(ctx, sign::What::Flags),
        "C24" => sign::sighashes(ctx, true),
        "C25" => sign::getkey(ctx),
        "C26" => fin::v2_finalize(ctx, fin::What::Sound),
        "C27" => fin::v2_finalize(ctx, fin::What::Complete),
        "C28" => fin::v2_finalize(ctx, fin::What::Retain),
        "C29" => fin::interpreter_check(ctx),
        "C32" => fin::extract(ctx, true),
        "C33" => fin::extract(ctx, false),
        "C34" => fin::v0_finalize(ctx),
        "C13" => roles::lock_time(ctx),
        "C14" => roles::unique_id(ctx),
        "C15" => roles::construct(ctx),
        "C16" => roles::update(ctx),
        "C37" => roles::funding(ctx),
        "C35" => desc::descriptors(ctx),
        "C36" => desc::from_tx(ctx),
        "C47" => desc::signer_checks(ctx),
        "C48" => desc::sighash_msg(ctx),
        "C49" => fin::scripts(ctx),
        "C50" => sat::satisfier(ctx),
        "C51" => sat::raw_keys(ctx),
        "C42" => roles::lifecycle(ctx),
        "C10" => text::text(ctx),
        "C11" => text::serde(ctx),
        "C12" => text::sighash_type(ctx),
        "C38" => text::preimages(ctx),
        "C39" => text::bip375(ctx),
        "C30" => sign::v0_sign(ctx),
        "C31" => sign::sighashes(ctx, false),
        "C40" => robust::errors(ctx),
        "C41" => robust::quiet(ctx, run_dir),
        "C46" => config::builds_agree(ctx, run_dir),
        "C45" => agree::versions_agree(ctx),
        "C43" => robust::no_panic(ctx, Ver::V2),
        "C44" => robust::no_panic(ctx, Ver::V0),
        _ => return false,
    }
    true
}

struct Args {
    id: String,
    tier: String,
    seed: u64,
    case: Option<(String, u64)>,
    evidence: Option<String>,
    known: String,
    replay: String,
    run: String,
    verbose: bool,
}

fn args() -> Args {
    let mut a = Args {
        id: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        case: None,
        evidence: None,
        known: "/verif/known-findings.txt".into(),
        replay: "/verif/replays".into(),
        run: "/tmp".into(),
        verbose: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.tier = it.next().unwrap(),
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--case" => {
                let s = it.next().unwrap();
                let (p, i) = s.rsplit_once(':').unwrap();
                a.case = Some((p.into(), i.parse().unwrap()));
            }
            "--evidence" => a.evidence = it.next(),
            "--known" => a.known = it.next().unwrap(),
            "--replay-dir" => a.replay = it.next().unwrap(),
            "--run-dir" => a.run = it.next().unwrap(),
            "-v" => a.verbose = true,
            _ => a.id = x,
        }
    }
    a
}

fn child(a: &Args) -> i32 {
    ctx::install_hook();
    let budget = if a.tier == "thorough" { 600 } else { 120 };
    let mut c = Ctx::new(&a.id, &a.tier, a.seed, budget);
    c.only_case = a.case.clone();
    c.state_path = std::env::var("MON_STATE").ok().map(Into::into);
    if !dispatch(&c, &a.run) {
        eprintln!("unknown property {}", a.id);
        return 2;
    }
    let rc = c.finish(&a.known, a.evidence.as_deref(), &a.replay);
    if a.verbose {
        c.dump_counters();
    }
    rc
}

/// CPU seconds used by one thread of the child.
fn cpu_of(pid: u32, tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/task/{}/stat", pid, tid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn slots(path: &str) -> Vec<(String, u64)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some((c, t)) = l.trim().split_once(" tid=") {
                v.push((c.to_string(), t.trim().parse().unwrap_or(0)));
            }
        }
    }
    v
}

/// Seconds of CPU one case may burn before it counts as not terminating (cases take milliseconds).
const HANG_CPU_S: f64 = 90.0;

/// The parent supervises: a crash or a hang of the code under test must not look like silence.
fn supervise(a: &Args) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let state = format!("{}/{}-{}.state", a.run, a.id, std::process::id());
    let _ = std::fs::create_dir_all(&a.run);
    let _ = std::fs::remove_file(&state);
    let spawn = |extra: &[String], quiet: bool| {
        let mut c = Command::new(&exe);
        c.args(std::env::args().skip(1)).args(extra).env("MON_CHILD", "1").env("MON_STATE", &state);
        if quiet {
            c.stdout(Stdio::null()).stderr(Stdio::null());
        }
        c.spawn().expect("spawn child")
    };
    let report = |sig: &str, case: &str, text: &str| {
        let _ = std::fs::create_dir_all(&a.replay);
        let path = format!("{}/{}-{:016x}.txt", a.replay, a.id, rng::hash_str(sig));
        if let Ok(mut f) = std::fs::File::create(&path) {
            let _ = writeln!(f, "property: {}\nsignature: {}\ncase: {}\nseed: {}\nreplay: VERIF_SEED={} /verif/check.sh {} --case {}\n\n{}", a.id, sig, case, a.seed, a.seed, a.id, case, text);
        }
        if let Some(ev) = &a.evidence {
            let j = serde_json::json!({
                "property": a.id, "tier": if a.tier == "thorough" {"thorough"} else {"quick"}, "seed": a.seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended early: the code under test brought the process down", "samples": [{"kind": "crash", "case": format!("{} {}", case, text)}]},
                "wall_s": 0.0, "violations": 1,
            });
            let _ = std::fs::write(ev, serde_json::to_string_pretty(&j).unwrap() + "\n");
        }
        println!("-- {}: {} ({})", sig, text, case);
        println!("VIOLATION property={} replay={}", a.id, path);
    };
    let mut ch = spawn(&[], false);
    let mut since: std::collections::HashMap<(String, u64), f64> = Default::default();
    let start = Instant::now();
    let wall_cap = if a.tier == "thorough" { 3600 } else { 800 };
    let rc = loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                let _ = std::fs::remove_file(format!("{}.tmp", state));
                if let Some(code) = st.code() {
                    break code;
                }
                use std::os::unix::process::ExitStatusExt;
                let sig = st.signal().unwrap_or(0);
                println!("child ended by signal {}", sig);
                if sig == 9 {
                    println!("INCONCLUSIVE: the monitored process was killed (memory?)");
                    break 3;
                }
                // Re-run each case that was under way, alone, and see which one does it.
                let mut found = false;
                for (case, _) in slots(&state) {
                    let mut c2 = spawn(&["--case".into(), case.clone(), "--replay-dir".into(), format!("{}/x", a.run), "--evidence".into(), format!("{}/x.json", a.run)], true);
                    let t0 = Instant::now();
                    let st2 = loop {
                        match c2.try_wait().expect("wait") {
                            Some(s) => break Some(s),
                            None if t0.elapsed() > Duration::from_secs(100) => {
                                let _ = c2.kill();
                                let _ = c2.wait();
                                break None;
                            }
                            None => std::thread::sleep(Duration::from_millis(20)),
                        }
                    };
                    if let Some(s) = st2 {
                        if s.signal().is_some() && s.signal() != Some(9) {
                            report(
                                &format!("process-abort:{}", case.split(':').next().unwrap_or("")),
                                &case,
                                &format!("the process under test died of signal {} (allocation failure, stack overflow or abort)", s.signal().unwrap()),
                            );
                            found = true;
                            break;
                        }
                    }
                }
                if found {
                    break 1;
                }
                println!("INCONCLUSIVE: the monitored process died and the cause did not replay");
                break 3;
            }
            None => {
                std::thread::sleep(Duration::from_millis(30));
                if start.elapsed().as_secs() > 5 && start.elapsed().as_millis() % 1000 < 40 {
                    let mut hung = None;
                    for (case, tid) in slots(&state) {
                        if let Some(cpu) = cpu_of(ch.id(), tid) {
                            let e = since.entry((case.clone(), tid)).or_insert(cpu);
                            if cpu - *e > HANG_CPU_S {
                                hung = Some(case);
                            }
                        }
                    }
                    if let Some(case) = hung {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        report(
                            &format!("does-not-terminate:{}", case.split(':').next().unwrap_or("")),
                            &case,
                            &format!("one case used more than {} s of CPU time", HANG_CPU_S),
                        );
                        break 1;
                    }
                }
                if start.elapsed().as_secs() > wall_cap {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    println!("INCONCLUSIVE: watchdog, {} s", wall_cap);
                    break 3;
                }
            }
        }
    };
    let _ = std::fs::remove_file(&state);
    rc
}

fn main() {
    let w: Vec<String> = std::env::args().skip(1).collect();
    if w.len() == 5 && w[0].ends_with("-worker") {
        ctx::install_hook();
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        match w[0].as_str() {
            "--quiet-worker" => robust::quiet_worker(n(1), n(2), n(3), &w[4]),
            "--config-worker" => config::worker(n(1), n(2), n(3), &w[4]),
            _ => std::process::exit(2),
        }
        return;
    }
    let a = args();
    if std::env::var("MON_CHILD").is_ok() || a.case.is_some() && std::env::var("MON_DIRECT").is_ok() {
        std::process::exit(child(&a));
    }
    std::process::exit(supervise(&a));
}
