//! Deterministic simulation of BlockChainTree.
mod h;
mod os;
use h::{gen, runner};

fn main() {
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let tier = if s(3).is_empty() { tier } else { s(3).to_string() };
            runner::check(s(2), &tier)
        }
        "replay" => runner::replay(s(2), s(3) == "full"),
        "selftest" => runner::selftest(s(2).parse().unwrap_or(100)),
        "one" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let p = gen::generate(s(2), seed, s(3).parse().unwrap());
            println!("{}", serde_json::to_string(&p).unwrap());
            let t0 = std::time::Instant::now();
            let r = runner::exec(&p, true, s(4) == "full");
            for l in &r.trace {
                println!("{l}");
            }
            println!("violations {:#?}", r.violations);
            println!("faults {:?} probes {:?}", r.faults, r.probes);
            println!("steps {} decisions {} threads {} sim {} ms hash {:x} wall {:?} denied {:?}", r.steps, r.decisions, r.threads, r.sim_ns / 1_000_000, r.hash, t0.elapsed(), r.denied);
            0
        }
        "scan" => {
            // every violation class in the first N runs of a property's plans
            let (prop, n) = (s(2), s(3).parse().unwrap_or(1000u64));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let mut i = 0;
            let mut seen: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            let mut probes: std::collections::BTreeMap<String, u64> = Default::default();
            let t0 = std::time::Instant::now();
            runner::pool(
                8,
                || {
                    if i >= n {
                        return None;
                    }
                    i += 1;
                    Some(gen::generate(prop, seed, i - 1))
                },
                |p, r| {
                    for v in &r.violations {
                        let e = seen.entry(format!("{} {:?}", v.class, v.props)).or_insert((0, p.index, v.detail.clone()));
                        e.0 += 1;
                        if p.index < e.1 {
                            e.1 = p.index;
                            e.2 = v.detail.clone();
                        }
                    }
                    for (k, v) in r.probes.iter().chain(r.faults.iter()) {
                        *probes.entry(k.clone()).or_insert(0) += v;
                    }
                    true
                },
            );
            println!("{prop}: {n} runs in {:?}", t0.elapsed());
            for (k, v) in &seen {
                println!("  {:>6}x first {:>5}  {k}: {}", v.0, v.1, v.2);
            }
            println!("  {probes:?}");
            0
        }
        _ => {
            eprintln!("usage: bctsim check PROP [quick|thorough] | replay FILE [full] | selftest N | one PROP IDX [full] | scan PROP N");
            2
        }
    };
    unsafe { libc::_exit(code) }
}
