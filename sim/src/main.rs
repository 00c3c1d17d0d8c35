#[macro_use]
mod rt;
mod broker;
mod driver;
mod ops;
mod props;
mod world;

#[global_allocator]
static ALLOC: rt::Alloc = rt::Alloc;

fn main() {
    // Fixed addresses: re-execute once with address-space randomisation off (not required, see DESIGN.md).
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
            eprintln!("re-exec failed: {e}");
        }
    }
    for v in ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_LOG", "TOKIO_WORKER_THREADS"] { std::env::remove_var(v); }
    unsafe { rt::sim_reserve(); }
    // What is initialised once per process is initialised here: the simulated processes share it.
    drop(paladin::queue::in_memory::InMemoryConnection::new(paladin::serializer::Serializer::Postcard));
    let statics = rt::separate_statics();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let env_u = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(env_u("VERIF_SEED", 1));
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = props.iter().find(|p| p.id == a[2]).expect("unknown property");
            let tier = opt("--tier").unwrap_or(std::env::var("VERIF_TIER").unwrap_or("quick".into()));
            let o = driver::Opts {
                seed, secs: opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else { 40.0 }), tier,
                max_runs: opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX), jobs: opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
                evidence: opt("--evidence"), replay_dir: opt("--replays").unwrap_or("/verif/replays".into()), tmp: opt("--tmp").unwrap_or("/tmp/sim-work".into()), known: opt("--known").unwrap_or("/verif/known-findings.txt".into()),
            };
            driver::check(p, &o)
        }
        Some("replay") => driver::replay(&props, &a[2], a.iter().any(|x| x == "--trace")),
        Some("selftest") => driver::selftest(&props, seed, opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(20), opt("--only").as_deref()),
        Some("one") => {
            let p = props.iter().find(|p| p.id == a[2]).expect("unknown property");
            let i: u64 = a[3].parse().unwrap();
            let (case, cfg) = driver::make(p, seed, i);
            println!("{case}\n{cfg:?}");
            let sh = driver::map_shared();
            let r = driver::exec(p, sh, &cfg, &case, None, true, if a.iter().any(|x| x == "--trace") { Some(1) } else { None });
            for l in &r.log { println!("  {l}"); }
            println!("class={:?} {}\nsteps={} now={}us switches/stalls/spur/crash/threads={:?} sched={:x} ev={:x} devs={} panics={:?}", r.o.class, r.o.msg, r.steps, r.now_ns / 1000, r.stats, r.sched_hash, r.event_hash, r.devs.len(), r.panics);
            0
        }
        Some("statics") => { for n in &statics { println!("{n}") } 0 }
        Some("list") => { for p in &props { println!("{}", p.id) } 0 }
        _ => { eprintln!("usage: sim check|replay|selftest|one|list"); 2 }
    };
    std::process::exit(rc);
}
