//! Deterministic simulation of the library with fault injection.

mod baton;
mod check;
mod device;
mod gen;
mod judge;
mod known;
mod numeric;
mod plan;
mod proc;
mod reference;
mod rng;
mod spec;
mod stats;
mod verdict;
mod world;

/// One line of JSON: a generated law and what the reference says about it.
fn dump(seed: u64, i: u64) {
    let r = &mut rng::Rng::new(rng::derive(seed, &[0x7265_66, i]));
    let spec = match r.below(8) {
        0 => gen::extreme(r),
        _ => gen::spec(r, gen::ALL[i as usize % gen::ALL.len()]),
    };
    let law = spec.reference();
    let num = |x: f64| format!("\"{:?}\"", x);
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    let mut points = vec![];
    let mut quantiles = vec![];
    for _ in 0..8 {
        let u = match r.below(4) {
            0 => r.logrange(1e-14, 0.5),
            1 => 1.0 - r.logrange(1e-14, 0.5),
            _ => r.unit(),
        };
        let x = law.quantile(u);
        quantiles.push(list(vec![num(u), num(x)]));
        let (f, s) = law.cdf(x);
        points.push(list(vec![num(x), num(f), num(s), num(law.density(x))]));
    }
    let moments = law.moments().map_or(vec![], |m| {
        vec![num(m.mean), num(m.variance), num(m.skewness), num(m.kurtosis)]
    });
    println!(
        "{{\"name\":\"{}\",\"parameters\":{},\"points\":{},\"quantiles\":{},\"moments\":{},\"entropy\":{}}}",
        spec.name(),
        list(spec.parameters().into_iter().map(num).collect()),
        list(points),
        list(quantiles),
        list(moments),
        num(law.entropy())
    );
}

fn main() {
    check::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(1);
    let tier = args.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok());
    let thorough = tier.map_or(false, |t| t == "thorough");
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => match args.get(2) {
            Some(p) if plan::PROPERTIES.contains(&p.as_str()) => check::check(p, seed, thorough),
            _ => proc::harness_error("no such property"),
        },
        Some("replay") => match args.get(2) {
            Some(path) => {
                known::load(&check::root().join("known_findings.txt"));
                check::replay(path) as i32
            }
            None => proc::harness_error("no replay file"),
        },
        // The text of a generated scenario: property kind index.
        Some("show") => {
            let index = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(0);
            print!("{}", plan::world(&args[2], &args[3], seed, index, false).text());
            0
        }
        // The reference model at seeded points, for tools/validate_reference.py.
        Some("reference") => {
            let n = args.get(2).and_then(|x| x.parse().ok()).unwrap_or(100);
            for i in 0..n {
                dump(seed, i);
            }
            0
        }
        _ => {
            println!("usage: sim check <property> [quick|thorough] | sim replay <file> | sim show <property> <kind> <index> | sim reference <count>");
            2
        }
    };
    std::process::exit(code);
}
