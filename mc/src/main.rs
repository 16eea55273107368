mod env;
mod gen;
mod imp;
mod model;
mod props;
mod run;
mod rx;
mod table;

use run::*;
use std::path::PathBuf;
use std::process::{exit, Command};
use std::time::Duration;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// usage: mc <property> [--replay FILE]      (VERIF_TIER, VERIF_SEED, MC_ROOT from the environment)
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let var = |k: &str| std::env::var(k).ok();
    let prop = args.get(1).cloned().unwrap_or_else(|| {
        eprintln!("usage: mc <property> [--replay FILE]");
        exit(2)
    });
    if prop == "--load-big" {
        let n = |i: usize| args.get(i).and_then(|s| s.parse().ok()).expect("number");
        props::robust::load_big(n(2), n(3));
    }
    if args.get(2).map(|s| s == "--list") == Some(true) {
        // the families of both tiers, with their sizes
        let scratch = std::env::temp_dir().join(format!("mc-list-{}", std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        std::env::set_var("MC_SCRATCH", &scratch);
        let all = |t| -> Vec<(String, u64)> { props::families(&prop, t).expect("property").into_iter().map(|f| (f.name, f.len)).collect() };
        let (q, t) = (all(Tier::Quick), all(Tier::Thorough));
        for (n, l) in &t {
            println!("{}\t{l}\t{n}", if q.contains(&(n.clone(), *l)) { "both" } else { "thorough" });
        }
        for (n, l) in q.iter().filter(|x| !t.contains(x)) {
            println!("quick\t{l}\t{n}");
        }
        let _ = std::fs::remove_dir_all(&scratch);
        return;
    }
    let root = PathBuf::from(var("MC_ROOT").unwrap_or_else(|| ".".into()));
    let mut tier = match var("VERIF_TIER").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed = var("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut replay = None;
    if args.get(2).map(|s| s == "--replay") == Some(true) {
        let text = std::fs::read_to_string(&args[3]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
        tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        seed = v["seed"].as_u64().unwrap_or(1);
        replay = Some((
            v["family"].as_str().unwrap_or_default().to_string(),
            v["chunk_start"].as_u64().unwrap_or(0),
            v["index"].as_u64().unwrap_or(0),
        ));
    }
    let mut cfg = Cfg {
        prop: prop.clone(),
        tier,
        seed,
        root,
        status: None,
        threads: var("MC_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
        case_limit: Duration::from_secs(30),
    };
    let child = var("MC_CHILD");
    if let Some(status) = child {
        // worker process
        install_panic_hook();
        unsafe {
            // 24 GB of address space
            let lim = [24u64 << 30, 24u64 << 30];
            setrlimit(9, &lim);
        }
        cfg.status = Some(PathBuf::from(status));
        let Some(fams) = props::families(&prop, tier) else {
            eprintln!("unknown property {prop}");
            exit(2);
        };
        let only = match (var("MC_ONLY"), replay) {
            (Some(s), _) => {
                let p: Vec<u64> = s.split(',').map(|x| x.parse().unwrap()).collect();
                Some((p[0] as usize, p[1], p[2]))
            }
            (None, Some((fam, start, idx))) => {
                let Some(f) = fams.iter().position(|f| f.name == fam) else {
                    eprintln!("no family {fam:?}");
                    exit(2);
                };
                Some((f, start, idx))
            }
            _ => None,
        };
        exit(explore(&cfg, fams, only));
    }
    // supervisor: a crash of the worker (stack overflow, abort) is an observation, not the end of the check
    let exe = std::env::current_exe().expect("exe");
    let scratch = scratch_base().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    std::env::set_var("MC_SCRATCH", &scratch);
    let status = scratch.join("status");
    let leave = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&scratch);
        exit(code)
    };
    let spawn = |only: Option<(usize, u64, u64)>| {
        let mut c = Command::new(&exe);
        c.args(&args[1..]).env("MC_CHILD", &status);
        if let Some((f, s, i)) = only {
            c.env("MC_ONLY", format!("{f},{s},{i}"));
        }
        c.status().expect("worker process")
    };
    let st = spawn(None);
    if let Some(code) = st.code() {
        leave(code);
    }
    eprintln!("worker process died: {st}; looking for the case");
    let fams = props::families(&prop, tier).unwrap();
    for (fam, start, end) in read_status(&status) {
        let st = spawn(Some((fam, start, end)));
        if st.code().is_none() {
            let idx = read_status(&status).first().map(|x| x.2).unwrap_or(end);
            let f = Fail::new(format!("the process died ({st}) in this case: stack overflow, abort or memory exhaustion"));
            report(&cfg, &fams[fam].name, start, idx, &f);
            leave(1);
        }
    }
    eprintln!("the crash could not be attributed to a case");
    leave(2);
}

/// where the files of a run go: in memory when there is room (the checks of the command line make hundreds of thousands)
fn scratch_base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let free = || -> Option<u64> {
        let o = Command::new("df").args(["-Pk", "/dev/shm"]).stderr(std::process::Stdio::null()).output().ok()?;
        let t = String::from_utf8(o.stdout).ok()?;
        t.lines().nth(1)?.split_whitespace().nth(3)?.parse().ok()
    };
    let probe = shm.join(format!("mc-probe-{}", std::process::id()));
    let works = shm.is_dir() && free().is_some_and(|k| k >= 2 << 20) && std::fs::write(&probe, "x").is_ok();
    let _ = std::fs::remove_file(&probe);
    if works {
        shm
    } else {
        std::env::temp_dir()
    }
}
