//! Bounded exhaustive exploration of the real fhe.rs crates against naive reference models.
//!
//! mc check <ID> <quick|thorough> [--also <other mc binary>]   supervise workers, write evidence
//! mc worker <ID> <tier> <result file> <status file> [suite]   explore in this process
//! mc replay <file>                                            re-run the suite of a violation
//! mc list                                                     property ids
mod a_ntt;
mod a_poly;
mod a_shapes;
mod a_rns;
mod a_util;
mod a_zq;
mod b_core;
mod b_hist;
mod b_keys;
mod b_misuse;
mod b_noise;
mod b_ops;
mod b_seq;
mod b_mem;
mod b_vt;
mod b_wire;
mod b_par;
mod b_pt;
mod b_eq;
mod b_pure;
mod c_mb;
mod core;
mod model;
use crate::core::*;
#[global_allocator]
static ALLOC: b_mem::Watch = b_mem::Watch;
use std::io::Write;
use std::process::{Command, exit};
use std::time::{Duration, Instant};

type CheckFn = fn(&Rep);
fn registry() -> Vec<(&'static str, CheckFn, bool)> {
    // (id, explorer, also run in the tfhe-ntt build)
    vec![("A01", a_zq::a01, true), ("A02", a_ntt::a02, true), ("A03", a_rns::a03, false),
        ("A04", a_poly::a04, true),
        ("A05", a_poly::a05, true),
        ("A06", a_poly::a06, true),
        ("A07", a_util::a07, false),
        ("A08", a_util::a08, false),
        ("A09", a_util::a09, false),
        ("A10", a_poly::a10, true),
        ("A11", a_poly::a11, false), 
        ("B01", b_par::b01, false),
        ("B02", b_par::b02, false),
        ("B03", b_pt::b03, false),
        ("B04", b_hist::b04, false),
        ("B05", b_hist::b05, false),
        ("B06", b_hist::b06, false),
        ("B07", b_hist::b07, false),
        ("B08", b_ops::b08, false),
        ("B09", b_ops::b09, false),
        ("B10", b_ops::b10, false),
        ("B11", b_ops::b11, false),
        ("B12", b_ops::b12, false),
        ("B13", b_keys::b13, false),
        ("B14", b_misuse::b14, true),
        ("B15", b_wire::b15, false),
        ("B16", b_noise::b16, false),
        ("B17", b_hist::b17, false),
        ("B18", b_mem::b18, false),
        ("B19", b_pure::b19, false),
        ("B20", b_eq::b20, false),
        ("C01", c_mb::c01, true),
        ("C02", c_mb::c02, true),
    ]
}

const BACKEND: &str = if cfg!(feature = "tfhe-ntt") { "tfhe:" } else { "" };

fn worker(id: &str, tier: &str, result: &str, status: &str, suite: Option<String>) -> i32 {
    model::check_fast();
    install_panic_hook();
    let reg = registry();
    let Some((_, f, _)) = reg.iter().find(|(x, _, _)| *x == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let rep = Rep {
        prop: id.to_string(),
        thorough: tier == "thorough",
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only_suite: suite,
        suites: Default::default(),
        viol: Default::default(),
        samples: Default::default(),
        assumptions: Default::default(),
        t0: Instant::now(),
        status_file: Some(status.to_string()),
        profile: std::env::var("MC_PROFILE").is_ok(),
    };
    // Watchdog: no completed case for a very long time means a library call does not return.
    std::thread::spawn(|| {
        let mut last = (HEARTBEAT.load(std::sync::atomic::Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let h = HEARTBEAT.load(std::sync::atomic::Ordering::Relaxed);
            if h != last.0 {
                last = (h, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(400) {
                std::process::exit(77);
            }
        }
    });
    if let Err(m) = guard(|| f(&rep)) {
        if m.contains("suite stopped without a violation") {
            eprintln!("engine error: {m}");
            return 2;
        }
        // between two suites: the library refused, or panicked on, valid parameters, keys or polynomials
        rep.viol.lock().unwrap().push(Viol { suite: "preparation".into(), key: "objects of the following suites".into(), detail: format!("panic while they were made: {m}") });
    }
    let mut o = String::new();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n");
    for (n, s) in rep.suites.lock().unwrap().iter() {
        o += &format!(
            "S\t{BACKEND}{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:.3}\n",
            esc(n),
            esc(&s.bound),
            s.states,
            s.transitions,
            s.cases,
            s.outcomes,
            s.depth.map(|d| d as i64).unwrap_or(-1),
            s.wall_s
        );
    }
    for v in rep.viol.lock().unwrap().iter() {
        o += &format!("V\t{BACKEND}{}\t{}\t{}\n", esc(&v.suite), esc(&v.key), esc(&v.detail));
    }
    for s in rep.samples.lock().unwrap().iter() {
        o += &format!("X\t{}\n", esc(s));
    }
    for s in rep.assumptions.lock().unwrap().iter() {
        o += &format!("A\t{}\n", esc(s));
    }
    o += "END\n";
    if std::fs::write(result, o).is_err() {
        return 2;
    }
    0
}

fn root() -> std::path::PathBuf {
    // .../verif/target/<cfg>/release/mc
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// Known findings: lines "<property>\t<suite>\t<key>\t<what fails>" that are not "fixed:" records.
fn known(id: &str) -> Vec<(String, String, String)> {
    let p = root().join("known_findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if l.starts_with('#') || l.starts_with("fixed:") || l.trim().is_empty() {
            continue;
        }
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() >= 4 && f[0] == id {
            v.push((f[1].to_string(), f[2].to_string(), f[3].to_string()));
        }
    }
    v
}

fn check(args: &[String]) -> i32 {
    let id = args[0].clone();
    let tier = args.get(1).cloned().unwrap_or("quick".into());
    let mut only: Option<String> = None;
    let mut also: Option<String> = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--also" => {
                also = args.get(i + 1).cloned();
                i += 2;
            }
            "--suite" => {
                only = args.get(i + 1).cloned();
                i += 2;
            }
            _ => return 2,
        }
    }
    let Some(&(_, _, both)) = registry().iter().find(|(x, _, _)| *x == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let mut bins = vec![(String::new(), std::env::current_exe().unwrap())];
    if both {
        match also {
            Some(b) => bins.push(("tfhe:".into(), b.into())),
            None => {
                eprintln!("{id} needs the tfhe-ntt build (--also)");
                return 2;
            }
        }
    }
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 760 });
    let work = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let mut lines: Vec<Vec<String>> = vec![];
    let mut code = 0;
    for (k, (pre, bin)) in bins.iter().enumerate() {
        let res = work.join(format!("r{k}"));
        let st = work.join(format!("s{k}"));
        let mut c = Command::new(bin);
        c.arg("worker").arg(&id).arg(&tier).arg(&res).arg(&st);
        if let Some(o) = &only {
            let Some(name) = (if pre.is_empty() { (!o.starts_with("tfhe:")).then(|| o.clone()) } else { o.strip_prefix("tfhe:").map(|s| s.to_string()) }) else {
                continue;
            };
            c.arg(name);
        }
        let mut ch = match c.spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start worker: {e}");
                code = 2;
                break;
            }
        };
        let status = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break Some(s);
            }
            if t0.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let suite = std::fs::read_to_string(&st).unwrap_or_default();
        match status {
            None => {
                eprintln!("engine error: wall clock limit reached in suite {suite}");
                code = 2;
                break;
            }
            Some(s) if s.code() == Some(0) => {
                let txt = std::fs::read_to_string(&res).unwrap_or_default();
                if !txt.ends_with("END\n") {
                    eprintln!("engine error: truncated result");
                    code = 2;
                    break;
                }
                for l in txt.lines() {
                    lines.push(l.split('\t').map(|s| s.to_string()).collect());
                }
            }
            Some(s) if s.code() == Some(77) => {
                lines.push(vec!["V".into(), format!("{pre}{suite}"), "no-termination".into(), "a library call did not return within 400 s".into()]);
            }
            Some(s) => {
                use std::os::unix::process::ExitStatusExt;
                let sig = s.signal().unwrap_or(0);
                // abort (non-unwinding panic in unsafe code), segv, bus, ill, fpe: raised inside the library
                if [4, 6, 7, 8, 11].contains(&sig) {
                    lines.push(vec!["V".into(), format!("{pre}{suite}"), format!("signal-{sig}"), format!("the library crashed the process with signal {sig} in suite {suite}")]);
                } else {
                    eprintln!("engine error: worker ended with {s:?} in suite {suite}");
                    code = 2;
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    if code != 0 {
        return code;
    }
    let kn = known(&id);
    let mut viols = vec![];
    let mut knownhit = vec![];
    for l in lines.iter().filter(|l| l[0] == "V") {
        if let Some(k) = kn.iter().find(|k| k.0 == l[1] && k.1 == l[2]) {
            if !knownhit.contains(&k) {
                knownhit.push(k);
            }
        } else {
            viols.push(l.clone());
        }
    }
    for k in &knownhit {
        println!("KNOWN-FINDING: property={id} {} [{} {}]", k.2, k.0, k.1);
    }
    // evidence
    let mut states = 0u64;
    let mut trans = 0u64;
    let mut cases = 0u64;
    let mut outc = 0u64;
    let mut suites = vec![];
    for l in lines.iter().filter(|l| l[0] == "S") {
        let n = |i: usize| l[i].parse::<u64>().unwrap_or(0);
        states += n(3);
        trans += n(4);
        cases += n(5);
        outc += n(6);
        suites.push(format!(
            "{{\"suite\":{},\"bound\":{},\"states\":{},\"transitions\":{},\"cases\":{},\"distinct_outcomes\":{},\"depth\":{},\"wall_s\":{}}}",
            jstr(&l[1]), jstr(&l[2]), n(3), n(4), n(5), n(6), if l[7] == "-1" { "null".into() } else { l[7].clone() }, l[8]
        ));
    }
    let arr = |t: &str| lines.iter().filter(|l| l[0] == t).map(|l| jstr(&l[1])).collect::<Vec<_>>().join(",");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{states},\"transitions\":{trans},\"traces_validated_against_impl\":{cases},\"distinct_outcomes\":{outc},\"exhaustive\":true,\"explanation\":\"every state/transition counted was executed on the real crates built from /repo and compared with the reference model; bounds per suite below were completed\",\"suites\":[{}],\"samples\":[{}],\"known_findings_seen\":{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(&id), jstr(&tier), suites.join(","), arr("X"), knownhit.len(), arr("A"), t0.elapsed().as_secs_f64(), viols.len()
    );
    if only.is_none() {
        let evd = root().join("evidence");
        let _ = std::fs::create_dir_all(&evd);
        if std::fs::write(evd.join(format!("{id}.json")), ev).is_err() {
            eprintln!("cannot write evidence");
            return 2;
        }
    }
    println!("{id} {tier}: suites={} states={states} transitions={trans} cases={cases} outcomes={outc} violations={} wall={:.1}s", suites.len(), viols.len(), t0.elapsed().as_secs_f64());
    if viols.is_empty() {
        if suites.is_empty() {
            eprintln!("nothing explored");
            return 2;
        }
        return 0;
    }
    let rd = root().join("replays");
    let _ = std::fs::create_dir_all(&rd);
    for (k, v) in viols.iter().enumerate().take(5) {
        let path = rd.join(format!("{id}-{k}.txt"));
        if let Ok(mut f) = std::fs::File::create(&path) {
            let _ = writeln!(f, "property={id}\ntier={tier}\nseed={seed}\nsuite={}\nkey={}\ndetail={}\n# replay: ./replay.sh {}", v[1], v[2], v[3], path.display());
        }
        if only.is_none() {
            println!("VIOLATION property={id} replay={}", path.display());
        }
        println!("  suite={} key={} :: {}", v[1], v[2], v[3].chars().take(600).collect::<String>());
    }
    1
}

fn replay(args: &[String]) -> i32 {
    let Ok(t) = std::fs::read_to_string(&args[0]) else { return 2 };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).unwrap_or_default();
    unsafe { std::env::set_var("VERIF_SEED", get("seed")) };
    println!("replaying suite {} of {} (recorded: {})", get("suite"), get("property"), get("key"));
    let mut a = vec![get("property"), get("tier"), "--suite".into(), get("suite")];
    a.extend_from_slice(&args[1..]);
    check(&a)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1], &a[2], &a[3], &a[4], a.get(5).cloned()),
        Some("check") => check(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("pure") => b_pure::alone(a[1].parse().unwrap(), a[2].parse().unwrap()),
        Some("pure-words") => b_pure::word(&a[1..]),
        Some("list") => {
            for (n, _, b) in registry() {
                println!("{n} {}", if b { "both" } else { "native" });
            }
            0
        }
        _ => 2,
    };
    exit(code);
}
