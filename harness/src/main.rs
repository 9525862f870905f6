//! mon: runs the monitors of one property against the algeo crate.

mod fields;
mod hook;
mod model;
mod ops;
mod props;
mod rt;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: rt::CountingAlloc = rt::CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let opt = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    if cmd == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    if cmd == "purity" {
        rt::install_panic_hook();
        let n = |k: &str, d: u64| opt(k).and_then(|s| s.parse().ok()).unwrap_or(d);
        #[cfg(any(not(feature = "only"), feature = "S01"))]
        ops::purity(n("--seed", 1), n("--n", 1000), opt("--order").as_deref().unwrap_or("forward"), n("--threads", 1) as usize, opt("--show").and_then(|s| s.parse().ok()));
        return;
    }
    let Some(id) = args.get(2).cloned() else {
        eprintln!("usage: mon run ID [--seed N] [--tier quick|thorough] [--out F] [--threads N] [--seconds S] [--journal P] [--case N] [--case-cpu S] [--dict F] [--max N] [--skip N,N] [--budget ALLOCS]");
        std::process::exit(64);
    };
    if let Some(f) = opt("--dict") {
        let v: Vec<i64> = std::fs::read_to_string(&f).unwrap_or_default().split_whitespace().filter_map(|w| w.parse().ok()).collect();
        *rt::DICT.lock().unwrap() = v;
    }
    if let Some(b) = opt("--budget").and_then(|s| s.parse().ok()) {
        rt::ALLOC_BUDGET.store(b, std::sync::atomic::Ordering::Relaxed);
    }
    rt::install_panic_hook();
    let o = rt::Opts {
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: opt("--tier").as_deref() == Some("thorough"),
        out: opt("--out").unwrap_or_default(),
        threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8usize).clamp(1, 64),
        seconds: opt("--seconds").and_then(|s| s.parse().ok()).unwrap_or(15.0),
        journal: opt("--journal").unwrap_or_default(),
        only_case: opt("--case").and_then(|s| s.parse().ok()),
        case_cpu_s: opt("--case-cpu").and_then(|s| s.parse().ok()).unwrap_or(60.0),
        max_cases: opt("--max").and_then(|s| s.parse().ok()),
        skip: opt("--skip").unwrap_or_default().split(',').filter_map(|s| s.parse().ok()).collect(),
    };
    // with `only`, the other properties have no workload in this build
    let Some(p) = props::all().into_iter().find(|p| p.id == id && !p.streams.is_empty()) else {
        eprintln!("no such property: {}", id);
        std::process::exit(64);
    };
    let sound = rt::run(&p, &o);
    std::process::exit(if sound { 0 } else { 70 });
}
