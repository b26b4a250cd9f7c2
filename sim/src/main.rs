mod driver; mod elfr; mod exec; mod gen; mod json; mod link; mod machr; mod mem; mod model; mod rng; mod rt; mod scen;
use scen::Scen;
#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;
static LOGGER: rt::SimLog = rt::SimLog;

fn main() {
    unsafe {
        // fixed addresses: one seed is one execution
        if std::env::var_os("FAERIE_SIM_CHILD").is_none() {
            let old = libc::personality(0xffffffff);
            if old >= 0 && old & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((old | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("FAERIE_SIM_CHILD", "1").exec();
                eprintln!("note: cannot re-execute with fixed addresses: {}", e);
            }
        }
    }
    rt::heap_init();
    let _ = log::set_logger(&LOGGER);
    rt::set_log(0);
    mem::init();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let root = opt("--root").unwrap_or_else(|| "/verif".into());
    let num = |n: &str| opt(n).and_then(|x| x.parse::<u64>().ok());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let (runs, secs) = if tier == "quick" { (num("--runs").unwrap_or(100_000), num("--secs").unwrap_or(45)) } else { (num("--runs").unwrap_or(u64::MAX / 2), num("--secs").unwrap_or(600)) };
            driver::check(&driver::Plan { prop: a[2].clone(), tier, seed, runs, secs, workers: num("--workers").unwrap_or(8) as usize }, &root)
        }
        Some("replay") => {
            let s = Scen::parse(&std::fs::read_to_string(&a[2]).expect("replay file"));
            unsafe { driver::VERBOSE = true; }
            let r = driver::run_scen(&s);
            println!("{} {}\n{}", r.status, r.key, r.text);
            if r.viol() { println!("VIOLATION property={} replay={}", s.prop, a[2]); 1 } else { 0 }
        }
        Some("gen") => { println!("{}", gen::generate(&a[2], driver::seed_of(&a[2], num("--seed").unwrap_or(1), a[3].parse().unwrap())).text()); 0 }
        Some("run") => {
            unsafe { driver::VERBOSE = true; }
            let s = gen::generate(&a[2], driver::seed_of(&a[2], num("--seed").unwrap_or(1), a[3].parse().unwrap()));
            let r = driver::run_scen(&s);
            println!("{} {}\n{}\n{:?}", r.status, r.key, r.text, r.stats);
            r.viol() as i32
        }
        Some("selftest") => { let n = num("--runs").unwrap_or(40); let ps: Vec<String> = match a.get(2) { Some(p) if p.starts_with('C') => vec![p.clone()], _ => (1..=21).map(|i| format!("C{:02}", i)).collect() }; driver::selftest(&ps, n) }
        _ => { eprintln!("usage: faerie-sim check Cnn [--tier quick|thorough] | replay FILE | gen Cnn I | run Cnn I | selftest"); 2 }
    };
    std::process::exit(code);
}
