//! What is explored: the kinds of scenario of each property, how many, and how
//! each is generated from its seed.

use crate::device::*;
use crate::gen::{self, Family};
use crate::numeric::queries;
use crate::rng::{derive, Rng};
use crate::spec::Spec;
use crate::verdict::Verdict;
use crate::world::*;
use crate::{judge, numeric};
use std::sync::Arc;

/// The properties that are decided here.
pub const PROPERTIES: [&str; 16] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16",
];

/// Kinds of scenario of a property, with how many of each.
pub fn groups(property: &str, thorough: bool) -> Vec<(&'static str, u64)> {
    let t = |quick: u64, deep: u64| if thorough { deep } else { quick };
    match property {
        "C01" => vec![("long", t(28, 560)), ("replay", t(24_000, 400_000))],
        "C02" => vec![("isolate", t(12_000, 250_000)), ("share", t(16_000, 300_000))],
        "C03" => vec![("long", t(28, 560)), ("sampler", t(32_000, 600_000))],
        "C04" => vec![("contain", t(800, 15_000))],
        "C05" => vec![("support", t(120_000, 3_000_000))],
        "C06" => vec![("answers", t(26_000, 600_000)), ("progress", t(32_000, 800_000))],
        "C07" => vec![("law", t(64, 1200)), ("ties", t(20, 400)), ("transform", t(1200, 30_000)), ("tilt", t(80, 1500))],
        "C08" => vec![("law", t(40, 800)), ("tilt", t(80, 1500)), ("strata", t(40, 600))],
        "C09" => vec![("law", t(90, 1500)), ("tilt", t(70, 2000)), ("strata", t(32, 800))],
        "C10" => vec![("law", t(140, 3000)), ("transform", t(1400, 40_000)), ("tilt", t(100, 2000))],
        "C11" => vec![("dependence", t(150, 3000)), ("twin", t(16_000, 300_000))],
        "C12" | "C13" | "C14" | "C15" => vec![("shares", t(280, 10_000)), ("ask", t(36_000, 700_000))],
        "C16" => vec![("fit", t(24_000, 400_000))],
        _ => vec![],
    }
}

/// Judge a scenario of any kind.
pub fn judge(world: &World) -> Verdict {
    match world.kind.as_str() {
        "replay" => judge::replay(world),
        "long" => judge::long(world),
        "isolate" => judge::isolate(world),
        "share" => judge::share(world),
        "sampler" => judge::sampler(world),
        "contain" => judge::contain(world),
        "support" => judge::support(world),
        "progress" => judge::progress(world),
        "twin" => judge::twin(world),
        "answers" => numeric::answers(world),
        "transform" => numeric::transform(world),
        "ties" => numeric::ties(world),
        "tilt" => numeric::tilt(world),
        "strata" => numeric::strata(world),
        "ask" => numeric::ask(world),
        "shares" => numeric::shares(world),
        "dependence" => numeric::dependence(world),
        "fit" => numeric::fit(world),
        k => {
            let mut v = Verdict::default();
            v.fail("harness", format!("unknown kind {}", k));
            v
        }
    }
}

pub fn chunks(world: &World) -> u64 {
    match (&world.law, world.kind.as_str()) {
        (Some(l), "law") => l.chunks,
        _ => 1,
    }
}

// ---------------------------------------------------------------------------
// Ingredients.

fn family(r: &mut Rng) -> Family {
    *r.pick(&gen::ALL)
}

fn specs(r: &mut Rng, lo: u64, hi: u64) -> Vec<Spec> {
    let k = r.between(lo, hi);
    let mut v: Vec<Spec> = vec![];
    for _ in 0..k {
        if !v.is_empty() && r.chance(0.15) {
            // Equal, or nearly equal, parameters in two objects.
            let s = r.pick(&v).clone();
            v.push(if r.chance(0.5) { gen::neighbour(r, &s) } else { s });
        } else {
            let f = family(r);
            v.push(gen::spec(r, f));
        }
    }
    v
}

fn flavour(r: &mut Rng) -> Flavour {
    if r.chance(0.5) {
        Flavour::Word
    } else {
        Flavour::Half
    }
}

/// Words at which conversions, tables and comparisons have their edges.
pub fn edge_word(r: &mut Rng) -> u64 {
    let g = r.word();
    let k = r.below(64);
    match r.below(18) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << k,
        3 => (1u64 << k).wrapping_sub(1),
        4 => u64::MAX - (1 << k),
        5 => (1u64 << 63).wrapping_add(g % 5).wrapping_sub(2),
        6 => g & 0xFF,
        7 => u64::MAX - (g & 0xFFFF),
        8 => g | 0xFFFF_FF00,
        9 => g & !0xFFFF_FF00,
        // The edge layers of the Gaussian tables, extreme positions.
        10 => (g & !0x7F) | *r.pick(&[0, 1, 126, 127]),
        11 => (g & !0xFFFF_FFFF) | (*r.pick(&[0u64, 1, 0xFFFFFE, 0xFFFFFF]) << 8) | *r.pick(&[0, 127, 128, 255]),
        12 => ((g & 0xF) << 60) | (*r.pick(&[0u64, 0xFFFFFF]) << 8) | (g & 0xFF),
        13 => g >> k,
        14 => !(g >> k),
        // Multiples of a few dyadics as uniform numbers.
        15 => (g & 15) << 60,
        16 => ((g & 63) << 58).wrapping_sub(1 + (g >> 60)),
        _ => g,
    }
}

pub fn stream(r: &mut Rng) -> Stream {
    match r.below(10) {
        0 => Stream::Library(r.word()),
        1 => Stream::Rare(r.word()),
        2 => {
            let n = r.between(1, 60);
            let t = (0..n).map(|_| edge_word(r)).collect();
            Stream::Tape(Arc::new(t), r.word())
        }
        _ => Stream::Mix(r.word()),
    }
}

/// Degraded windows over the first `span` words.
pub fn degrade(r: &mut Rng, cfg: &mut DeviceCfg, count: u64, span: u64, longest: u64) {
    for _ in 0..count {
        let kind = match r.below(9) {
            0 => Kind::Zero,
            1 => Kind::Ones,
            2 => Kind::Word(edge_word(r)),
            3 => Kind::Repeat,
            4 => Kind::Low(r.between(1, 40) as u32),
            5 => Kind::High(r.between(1, 40) as u32),
            _ => Kind::Adversarial(r.word()),
        };
        let at = if r.chance(0.2) { 0 } else { r.below(span) };
        let len = r.logrange(1.0, longest as f64 + 0.9) as u64;
        cfg.faults.push(Fault { at, len, kind });
    }
}

pub fn fail(r: &mut Rng, cfg: &mut DeviceCfg, count: u64, span: u64) {
    for _ in 0..count {
        let times = match r.below(100) {
            0..=69 => 1,
            70..=97 => r.between(2, 4) as u32,
            // An outage.
            _ => r.logrange(10.0, 400.0) as u32,
        };
        let len = if r.chance(0.8) { 1 } else { r.between(2, 6) };
        cfg.faults.push(Fault { at: r.below(span), len, kind: Kind::Fail(times) });
    }
}

pub fn stall(r: &mut Rng, cfg: &mut DeviceCfg, count: u64, span: u64) {
    for _ in 0..count {
        let steps = r.logrange(1.0, 200.0) as u32;
        cfg.faults.push(Fault { at: r.below(span), len: 1, kind: Kind::Stall(steps) });
    }
}

fn device(r: &mut Rng, degraded: u64, failures: u64, stalls: u64, span: u64) -> DeviceCfg {
    let mut cfg = DeviceCfg { stream: stream(r), flavour: flavour(r), faults: vec![] };
    let n = r.below(degraded + 1);
    degrade(r, &mut cfg, n, span, 48);
    let n = r.below(failures + 1);
    fail(r, &mut cfg, n, span);
    let n = r.below(stalls + 1);
    stall(r, &mut cfg, n, span);
    cfg
}

fn healthy(r: &mut Rng) -> DeviceCfg {
    let stream = if r.chance(0.3) { Stream::Library(r.word()) } else { Stream::Mix(r.word()) };
    DeviceCfg { stream, flavour: flavour(r), faults: vec![] }
}

/// Preemptions: dense, sparse, a round robin, or a few in one place.
fn switches(r: &mut Rng, tasks: usize, span: u64) -> Vec<(u64, usize)> {
    let mut v: Vec<(u64, usize)> = vec![];
    match r.below(5) {
        0 => {
            for at in 1..span {
                v.push((at, r.index(tasks)));
            }
        }
        1 => {
            for at in 1..span {
                v.push((at, at as usize % tasks));
            }
        }
        2 => {
            for _ in 0..r.between(1, 6) {
                v.push((r.below(span), r.index(tasks)));
            }
        }
        3 => {
            let at = r.below(span);
            for i in 0..r.between(2, 20) {
                v.push((at + i, r.index(tasks)));
            }
        }
        _ => {
            for at in 1..span {
                if r.chance(0.25) {
                    v.push((at, r.index(tasks)));
                }
            }
        }
    }
    v.sort();
    v.dedup_by_key(|x| x.0);
    v
}

/// An argument for a question about `d`, on the way of its histories and at
/// the points that matter to it.
fn argument(r: &mut Rng, spec: &Spec, q: Query) -> Arg {
    let reference = spec.reference();
    let u = match r.below(6) {
        0 => r.logrange(1e-15, 0.5),
        1 => 1.0 - r.logrange(1e-15, 0.5),
        2 => r.between(1, 15) as f64 / 16.0,
        3 => r.between(1, 99) as f64 / 100.0,
        _ => r.unit(),
    };
    match q {
        Query::Inverse => Arg::Value(match r.below(10) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            // Exactly at, and next to, a value of the distribution function.
            3 | 4 => {
                let k = reference.quantile(u);
                let f = reference.cdf(k).0;
                let f = match r.below(5) {
                    0 => f,
                    // Beside it, by a fraction of the mass.
                    3 | 4 if reference.discrete() => {
                        let d = reference.density(k) * r.logrange(1e-7, 0.5);
                        if r.chance(0.5) { f + d } else { f - d }
                    }
                    1 | 3 => f64::from_bits(f.to_bits().saturating_add(1)),
                    _ => f64::from_bits(f.to_bits().saturating_sub(1)),
                };
                f.max(0.0).min(1.0)
            }
            5 if r.chance(0.25) => r.logrange(1e-322, 1e-300),
            5 => r.logrange(1e-300, 1e-10),
            6 => f64::from_bits(1.0f64.to_bits() - r.between(1, 64)),
            _ => u,
        }),
        Query::Cdf | Query::Density => {
            let (lo, hi) = reference.support();
            let special: Vec<f64> = match *spec {
                Spec::Triangular { a, b, c } => vec![a, b, c],
                Spec::Pert { a, b, c } => vec![a, b, c],
                Spec::Gaussian { mu, .. } | Spec::Laplace { mu, .. } | Spec::Logistic { mu, .. } => vec![mu],
                Spec::Cauchy { x0, .. } => vec![x0],
                _ => vec![],
            };
            if reference.discrete() {
                let top = match spec {
                    Spec::Bernoulli { .. } | Spec::BernoulliFailure { .. } => 3.0,
                    Spec::Categorical { .. } if q == Query::Density => hi,
                    _ => hi + 3.0,
                };
                let x = match r.below(8) {
                    0 => 0.0,
                    1 => hi,
                    2 => top,
                    3 => (hi - 1.0).max(0.0),
                    4 => (reference.quantile(u) + 1.0).min(top),
                    5 => return Arg::Last(0.0),
                    _ => reference.quantile(u),
                };
                if q == Query::Cdf && r.chance(0.3) {
                    if r.chance(0.2) {
                        let far = *r.pick(&[f64::INFINITY, 1e300, 1e19, 5e9, 1e6]);
                        return Arg::Value(if r.chance(0.5) { far } else { -far });
                    }
                    let e = r.logrange(1e-15, 0.5);
                    return Arg::Value(x + *r.pick(&[0.5, 0.999, -0.25, -1.0, e, e, -e, -e]));
                }
                return Arg::Value(x);
            }
            match r.below(8) {
                0 if lo.is_finite() => Arg::Value(lo),
                1 if hi.is_finite() => Arg::Value(hi),
                2 if !special.is_empty() => Arg::Value(*r.pick(&special)),
                3 | 4 => Arg::Last(0.0),
                5 if r.chance(0.7) && (lo.is_finite() || hi.is_finite()) => {
                    let d = reference.scale() * r.logrange(1e-3, 10.0);
                    Arg::Value(if lo.is_finite() && (r.chance(0.5) || !hi.is_finite()) { lo - d } else { hi + d })
                }
                5 => {
                    let far = *r.pick(&[f64::INFINITY, 1e300, 1e30, 1e10]);
                    Arg::Value(if r.chance(0.5) { far } else { -far })
                }
                _ => Arg::Value(reference.quantile(u)),
            }
        }
        _ => Arg::Value(0.0),
    }
}

fn question(r: &mut Rng, specs: &[Spec], mine: &[Query]) -> Op {
    let d = r.index(specs.len());
    let q = if r.chance(0.8) { *r.pick(mine) } else { *r.pick(&QUERIES) };
    // Long sums only now and then.
    let heavy = matches!(specs[d], Spec::Binomial { n, .. } | Spec::BinomialFailure { n, .. } if n > 20_000);
    let q = if heavy && q == Query::Entropy && r.chance(0.7) { Query::Mean } else { q };
    Op::Ask { d, q, x: argument(r, &specs[d], q) }
}

struct Mix {
    draw: f64,
    iter: f64,
    ask: f64,
    clone: f64,
    rebuild: f64,
    rewind: f64,
}

const ORDINARY: Mix = Mix { draw: 0.45, iter: 0.25, ask: 0.12, clone: 0.06, rebuild: 0.06, rewind: 0.06 };

fn ops(r: &mut Rng, specs: &[Spec], n: u64, mix: &Mix, longest: u64) -> Vec<Op> {
    let total = mix.draw + mix.iter + mix.ask + mix.clone + mix.rebuild + mix.rewind;
    (0..n)
        .map(|_| {
            let mut x = r.unit() * total;
            let d = r.index(specs.len());
            let mut below = |w: f64| {
                x -= w;
                x < 0.0
            };
            if below(mix.draw) {
                Op::Draw { d, n: r.between(1, longest) as u32 }
            } else if below(mix.iter) {
                Op::Iter {
                    d,
                    pattern: r.below(PATTERNS as u64) as u8,
                    n: r.between(0, longest + 2) as u32,
                    k: r.between(0, 5) as u32,
                }
            } else if below(mix.ask) {
                question(r, specs, &QUERIES)
            } else if below(mix.clone) {
                Op::Clone { d }
            } else if below(mix.rebuild) {
                Op::Rebuild { d }
            } else {
                Op::Rewind { back: r.between(1, 12) as u32 }
            }
        })
        .collect()
}

fn on_fail(r: &mut Rng) -> OnFail {
    match r.below(4) {
        0 => OnFail::Continue,
        1 => OnFail::Die,
        _ => OnFail::Restart,
    }
}

fn empty(property: &str, kind: &str, seed: u64) -> World {
    World {
        property: property.to_string(),
        kind: kind.to_string(),
        seed,
        specs: vec![],
        devices: vec![],
        tasks: vec![],
        switches: vec![],
        law: None,
    }
}

// ---------------------------------------------------------------------------
// Scenarios.

pub fn world(property: &str, kind: &str, base: u64, index: u64, thorough: bool) -> World {
    let label = |s: &str| s.bytes().fold(17u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    let seed = derive(base, &[label(property), label(kind), index]);
    let mut r = Rng::new(seed);
    let mut w = empty(property, kind, seed);
    let r = &mut r;
    match kind {
        "replay" => {
            w.specs = specs(r, 1, 4);
            let tasks = if r.chance(0.5) { 1 } else { r.between(2, 3) };
            for t in 0..tasks {
                w.devices.push(device(r, 3, 3, 2, 150));
                let n = r.between(8, 40);
                w.tasks.push(Task { device: t as usize, on_fail: on_fail(r), ops: ops(r, &w.specs, n, &ORDINARY, 6) });
            }
            if tasks > 1 {
                w.switches = switches(r, tasks as usize, 300);
            }
        }
        "isolate" => {
            w.specs = specs(r, 1, 3);
            let tasks = r.between(2, 5);
            for t in 0..tasks {
                // Some devices are alike: the tasks then see equal words.
                let cfg = if t > 0 && r.chance(0.2) {
                    w.devices[0].clone()
                } else {
                    device(r, 2, 2, 3, 100)
                };
                w.devices.push(cfg);
                let n = r.between(4, 16);
                w.tasks.push(Task { device: t as usize, on_fail: on_fail(r), ops: ops(r, &w.specs, n, &ORDINARY, 4) });
            }
            w.switches = switches(r, tasks as usize, 400);
        }
        "share" => {
            w.specs = specs(r, 1, 3);
            let tasks = r.between(2, 5);
            let devices = if r.chance(0.8) { 1 } else { 2 };
            for _ in 0..devices {
                w.devices.push(device(r, 2, 3, 3, 200));
            }
            let mix = Mix { rewind: 0.0, ..ORDINARY };
            for t in 0..tasks {
                let n = r.between(4, 16);
                let device = t as usize % devices;
                w.tasks.push(Task { device, on_fail: on_fail(r), ops: ops(r, &w.specs, n, &mix, 4) });
            }
            w.switches = switches(r, tasks as usize, 400);
        }
        "sampler" => {
            w.specs = specs(r, 1, 3);
            let tasks = if r.chance(0.7) { 1 } else { r.between(2, 3) };
            let mix = Mix { draw: 0.2, iter: 0.7, ask: 0.02, clone: 0.03, rebuild: 0.03, rewind: 0.02 };
            for t in 0..tasks {
                w.devices.push(device(r, 2, 2, 2, 150));
                let n = r.between(6, 30);
                w.tasks.push(Task { device: t as usize, on_fail: on_fail(r), ops: ops(r, &w.specs, n, &mix, 6) });
            }
            if tasks > 1 {
                w.switches = switches(r, tasks as usize, 300);
            }
        }
        "contain" => {
            w.specs = specs(r, 1, 3);
            let tasks = if r.chance(0.8) { 1 } else { r.between(2, 3) };
            let mix = Mix { draw: 0.6, iter: 0.2, ask: 0.1, clone: 0.05, rebuild: 0.02, rewind: 0.03 };
            for t in 0..tasks {
                w.devices.push(device(r, 2, 2, 0, 40));
                let n = r.between(4, 12);
                w.tasks.push(Task {
                    device: t as usize,
                    on_fail: if r.chance(0.6) { OnFail::Restart } else { OnFail::Continue },
                    ops: ops(r, &w.specs, n, &mix, 4),
                });
            }
            if tasks > 1 {
                w.switches = switches(r, tasks as usize, 200);
            }
        }
        "support" => {
            w.specs = specs(r, 1, 2);
            if r.chance(0.15) {
                w.specs[0] = gen::extreme(r);
            }
            let mut cfg = DeviceCfg { stream: stream(r), flavour: flavour(r), faults: vec![] };
            if r.chance(0.35) {
                // Nothing but dangerous words.
                let n = r.between(50, 400);
                let t = (0..n).map(|_| edge_word(r)).collect();
                cfg.stream = Stream::Tape(Arc::new(t), r.word());
            } else if r.chance(0.3) {
                cfg.stream = Stream::Rare(r.word());
            }
            let n = r.below(5);
            degrade(r, &mut cfg, n, 400, 300);
            if r.chance(0.2) {
                fail(r, &mut cfg, 2, 300);
            }
            w.devices.push(cfg);
            let mut list = vec![];
            for _ in 0..r.between(2, 10) {
                let d = r.index(w.specs.len());
                if r.chance(0.8) {
                    list.push(Op::Draw { d, n: r.between(5, 80) as u32 });
                } else {
                    let pattern = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13]);
                    list.push(Op::Iter { d, pattern, n: r.between(1, 20) as u32, k: r.below(4) as u32 });
                }
            }
            let on_fail = if r.chance(0.5) { OnFail::Restart } else { OnFail::Continue };
            w.tasks.push(Task { device: 0, on_fail, ops: list });
        }
        "progress" => {
            w.specs = specs(r, 1, 3);
            if r.chance(0.15) {
                w.specs[0] = gen::extreme(r);
            }
            let tasks = if r.chance(0.5) { 1 } else { r.between(2, 4) };
            let mix = Mix { draw: 0.8, iter: 0.1, ask: 0.04, clone: 0.02, rebuild: 0.02, rewind: 0.02 };
            for t in 0..tasks {
                let mut cfg = device(r, 0, 3, 4, 200);
                let n = r.below(5);
                degrade(r, &mut cfg, n, 200, 1000);
                w.devices.push(cfg);
                let n = r.between(4, 20);
                w.tasks.push(Task { device: t as usize, on_fail: on_fail(r), ops: ops(r, &w.specs, n, &mix, 10) });
            }
            if tasks > 1 {
                w.switches = switches(r, tasks as usize, 300);
            }
        }
        "answers" => {
            w.specs = specs(r, 1, 2);
            if r.chance(0.3) {
                w.specs[0] = gen::extreme(r);
            }
            w.devices.push(device(r, 1, 1, 0, 30));
            let mut list = vec![];
            for d in 0..w.specs.len() {
                for q in QUERIES {
                    list.push(Op::Ask { d, q, x: argument(r, &w.specs[d], q) });
                }
                for _ in 0..8 {
                    let q = *r.pick(&[Query::Cdf, Query::Density, Query::Inverse, Query::Inverse]);
                    list.push(Op::Ask { d, q, x: argument(r, &w.specs[d], q) });
                }
                list.push(Op::Draw { d, n: 3 });
            }
            r.shuffle(&mut list);
            w.tasks.push(Task { device: 0, on_fail: OnFail::Restart, ops: list });
        }
        "ask" => {
            w.specs = specs(r, 1, 3);
            for i in 0..w.specs.len() {
                if r.chance(0.15) {
                    gen::displace(r, &mut w.specs[i]);
                }
            }
            if r.chance(0.3) {
                let s = w.specs[0].clone();
                w.specs.push(gen::neighbour(r, &s));
            }
            let tasks = if r.chance(0.7) { 1 } else { r.between(2, 3) };
            for t in 0..tasks {
                w.devices.push(device(r, 1, 2, 1, 60));
                let mut list = vec![];
                for _ in 0..r.between(10, 40) {
                    let d = r.index(w.specs.len());
                    match r.below(12) {
                        0..=2 => list.push(Op::Draw { d, n: r.between(1, 4) as u32 }),
                        3 if r.chance(0.5) => list.push(Op::Clone { d }),
                        4 if r.chance(0.5) => list.push(Op::Rebuild { d }),
                        5 => list.push(Op::Iter { d, pattern: r.below(6) as u8, n: r.below(4) as u32, k: 1 }),
                        6 => {
                            // One question to all alike, one after another.
                            let op = question(r, &w.specs, queries(property));
                            let Op::Ask { d, q, x } = op else { continue };
                            for e in 0..w.specs.len() {
                                let alike = std::mem::discriminant(&w.specs[d]) == std::mem::discriminant(&w.specs[e]);
                                if alike && !matches!(w.specs[e], Spec::Categorical { .. }) {
                                    list.push(Op::Ask { d: e, q, x });
                                }
                            }
                        }
                        _ => {
                            let op = question(r, &w.specs, queries(property));
                            let again = r.chance(0.25);
                            list.push(op.clone());
                            if again {
                                let at = r.index(list.len() + 1);
                                list.insert(at, op);
                            }
                        }
                    }
                }
                w.tasks.push(Task { device: t as usize, on_fail: OnFail::Restart, ops: list });
            }
            if tasks > 1 {
                w.switches = switches(r, tasks as usize, 200);
            }
        }
        "twin" => {
            w.specs = specs(r, 1, 4);
            let tasks = if r.chance(0.6) { 1 } else { r.between(2, 3) };
            let devices = if r.chance(0.5) { 1 } else { tasks };
            let mix = Mix { draw: 0.75, iter: 0.15, ask: 0.03, clone: 0.03, rebuild: 0.03, rewind: 0.0 };
            for _ in 0..devices {
                w.devices.push(device(r, 2, 1, 1, 150));
            }
            for t in 0..tasks {
                let n = r.between(6, 24);
                let device = (t % devices) as usize;
                w.tasks.push(Task { device, on_fail: OnFail::Restart, ops: ops(r, &w.specs, n, &mix, 6) });
            }
            if tasks > 1 {
                w.switches = switches(r, tasks as usize, 300);
            }
        }
        "fit" => {
            w.specs = (0..r.between(1, 2)).map(|_| fit_spec(r)).collect();
            let tasks = if r.chance(0.8) { 1 } else { 2 };
            for t in 0..tasks {
                let mut list = vec![];
                let mut span = 60;
                for _ in 0..r.between(1, 6) {
                    let d = r.index(w.specs.len());
                    let n = match r.below(12) {
                        0 => 2,
                        1 => 3,
                        2..=6 => r.between(2, 60),
                        7..=10 => r.logrange(50.0, 5000.0) as u64,
                        _ => r.logrange(1000.0, if thorough { 1e6 } else { 2e5 }) as u64,
                    };
                    span += n;
                    let scale = match r.below(5) {
                        0 => 1.0,
                        1 => -1.0,
                        2 => r.logrange(1e-135, 1e135),
                        3 => 2f64.powi(r.between(0, 80) as i32 - 40),
                        _ => r.logrange(1e-3, 1e3),
                    };
                    let offset = match r.below(4) {
                        0 => 0.0,
                        1 => scale * r.logrange(1.0, 1e12),
                        2 => -scale * r.logrange(1.0, 1e6),
                        _ => scale * r.range(-3.0, 3.0),
                    };
                    let op = Op::Fit { d, n: n as u32, mode: (r.below(10) + if r.chance(0.6) { 0 } else { 10 * r.below(10) }) as u8, scale, offset };
                    list.push(op.clone());
                    if r.chance(0.2) {
                        list.push(Op::Rewind { back: 1 });
                        list.push(op);
                    }
                    if r.chance(0.3) {
                        list.push(Op::Draw { d, n: 2 });
                    }
                }
                let mut cfg = healthy(r);
                if r.chance(0.2) {
                    cfg.stream = Stream::Rare(r.word());
                }
                let n = r.below(4);
                fail(r, &mut cfg, n, span);
                w.devices.push(cfg);
                w.tasks.push(Task { device: t, on_fail: on_fail(r), ops: list });
            }
            if tasks > 1 {
                w.switches = switches(r, tasks, 300);
            }
        }
        "long" => {
            let f = gen::ALL[index as usize % gen::ALL.len()];
            let spec = gen::spec(r, f);
            let cost = cost(&spec);
            w.specs.push(spec);
            w.devices.push(healthy(r));
            let n = (1.0e9 / cost) as u64;
            let mode = if property == "C03" || index as usize / gen::ALL.len() % 2 == 1 { 1 } else { 0 };
            w.law = Some(Law { n: n.clamp(1 << 13, if thorough { 1 << 24 } else { 3 << 20 }), chunks: 1, failures: 0, mode });
        }
        "ties" => {
            const FIVE: [Family; 5] =
                [Family::Uniform, Family::Exponential, Family::Laplace, Family::Logistic, Family::Triangular];
            let spec = gen::spec(r, FIVE[index as usize % 5]);
            w.specs.push(spec);
            w.devices.push(healthy(r));
            w.law = Some(Law { n: 1 << 20, chunks: 1, failures: 0, mode: 0 });
        }
        "transform" => {
            let f = if property == "C07" {
                *r.pick(&[Family::Uniform, Family::Exponential, Family::Laplace, Family::Logistic, Family::Triangular])
            } else {
                *r.pick(&[Family::Bernoulli, Family::Binomial, Family::Binomial, Family::Categorical])
            };
            let spec = gen::spec(r, f);
            let spec = gen::displaced(r, spec);
            let cost = cost(&spec);
            w.specs.push(spec);
            let stream = if r.chance(0.7) { Stream::Rare(r.word()) } else { Stream::Mix(r.word()) };
            w.devices.push(DeviceCfg { stream, flavour: flavour(r), faults: vec![] });
            let n = (4.0e7 / cost) as u64;
            w.law = Some(Law { n: n.clamp(400, 20_000), chunks: 1, failures: 0, mode: 0 });
        }
        "shares" => {
            let f = gen::ALL[index as usize % gen::ALL.len()];
            let spec = gen::spec(r, f);
            let n = (4.0e8 / cost(&spec)) as u64;
            w.specs.push(spec);
            let mut cfg = healthy(r);
            let n = n.clamp(20_000, 400_000);
            if r.chance(0.5) {
                fail(r, &mut cfg, 20, n);
            }
            w.devices.push(cfg);
            w.law = Some(Law { n, chunks: 1, failures: 0, mode: 0 });
        }
        "dependence" => {
            w.specs = specs(r, 1, 3);
            // Discrete laws with a single outcome say nothing.
            let most = w.specs.iter().map(cost).fold(0.0, f64::max);
            let devices = if r.chance(0.6) { 1 } else { w.specs.len() };
            for _ in 0..devices {
                let mut cfg = healthy(r);
                if r.chance(0.3) {
                    fail(r, &mut cfg, 20, 100_000);
                }
                w.devices.push(cfg);
            }
            let n = (3.0e8 / most) as u64;
            w.law = Some(Law { n: n.clamp(30_000, if thorough { 2_000_000 } else { 400_000 }), chunks: 1, failures: 0, mode: 0 });
        }
        "strata" => {
            let curated = curated(property);
            let spec = match curated.get(index as usize) {
                Some(s) => s.clone(),
                None => {
                    let families = families(property);
                    let s = gen::spec(r, families[index as usize % families.len()]);
                    gen::displaced(r, s)
                }
            };
            let mode = match &spec {
                _ if r.chance(0.15) => r.between(1, 4),
                Spec::Gaussian { .. } | Spec::Lognormal { .. } => r.below(2),
                Spec::Cauchy { .. } => 3,
                Spec::Gamma { k, .. } if *k < 1.0 => 2,
                Spec::Gamma { .. } => 1,
                _ => 4,
            };
            let n = match (property, index) {
                ("C08", 0) => 4,
                _ => 1,
            };
            w.specs.push(spec);
            w.devices.push(DeviceCfg { stream: Stream::Strata(r.word()), flavour: flavour(r), faults: vec![] });
            w.law = Some(Law { n: if thorough { n * 4 } else { n }, chunks: 1, failures: 0, mode: mode as u8 });
        }
        "tilt" => {
            let curated = curated(property);
            let spec = match curated.get(index as usize) {
                Some(s) => s.clone(),
                None => {
                    let families = families(property);
                    let s = gen::spec(r, families[index as usize % families.len()]);
                    gen::displaced(r, s)
                }
            };
            let work = if thorough { 1e10 } else { 1e9 };
            let n = work / (2.0 * cost(&spec) + 150.0);
            w.specs.push(spec);
            w.devices.push(DeviceCfg { stream: Stream::Tilt(r.word()), flavour: flavour(r), faults: vec![] });
            w.law = Some(Law { n: (n as u64).max(20_000), chunks: 1, failures: 0, mode: 0 });
        }
        "law" => law(&mut w, r, property, index, thorough),
        _ => {}
    }
    w
}

/// Laws whose streams can be fitted.
fn fit_spec(r: &mut Rng) -> Spec {
    loop {
        let f = *r.pick(&[
            Family::Gaussian,
            Family::Gaussian,
            Family::Uniform,
            Family::Laplace,
            Family::Logistic,
            Family::Exponential,
            Family::Lognormal,
            Family::Triangular,
            Family::Binomial,
            Family::Bernoulli,
            Family::Gamma,
        ]);
        let s = gen::spec(r, f);
        if cost(&s) < 400.0 {
            return s;
        }
    }
}

/// Nanoseconds per draw, roughly.
pub fn cost(spec: &Spec) -> f64 {
    match spec {
        Spec::Beta { .. } | Spec::Pert { .. } => 150.0,
        Spec::Gamma { .. } => 80.0,
        Spec::Cauchy { .. } => 60.0,
        Spec::Gaussian { .. } => 20.0,
        Spec::Categorical { p } => 20.0 + p.len() as f64,
        Spec::Binomial { n, p } | Spec::BinomialFailure { n, q: p } => {
            let m = *n as f64 * p.min(1.0 - p);
            if *n < 1000 {
                300.0 + 6.0 * m
            } else if *n as f64 * p * (1.0 - p) > 80.0 {
                80.0
            } else {
                4000.0
            }
        }
        _ => 30.0,
    }
}

fn families(property: &str) -> &'static [Family] {
    match property {
        "C07" => &[Family::Uniform, Family::Exponential, Family::Laplace, Family::Logistic, Family::Triangular],
        "C08" => &[Family::Gaussian, Family::Lognormal, Family::Cauchy],
        "C09" => &[Family::Gamma, Family::Gamma, Family::Beta, Family::Beta, Family::Pert],
        _ => &[Family::Bernoulli, Family::Binomial, Family::Binomial, Family::Categorical],
    }
}

/// Curated parameters, then random ones.
fn law(w: &mut World, r: &mut Rng, property: &str, index: u64, thorough: bool) {
    let curated = curated(property);
    let families = families(property);
    let standard = property == "C08" && index < 2;
    let spec = match curated.get(index as usize) {
        Some(s) => s.clone(),
        None => {
            let f = families[index as usize % families.len()];
            let s = gen::spec(r, f);
            gen::displaced(r, s)
        }
    };
    // Histograms cost too.
    let cost = cost(&spec) + 25.0;
    w.specs.push(spec);
    if !standard {
        for _ in 0..r.below(3) {
            let f = family(r);
            let other = gen::spec(r, f);
            if self::cost(&other) < 1000.0 {
                w.specs.push(other);
            }
        }
    }
    let mode = if standard { 0 } else { r.below(4) as u8 };
    let mut cfg = healthy(r);
    if standard {
        cfg.stream = Stream::Mix(r.word());
    }
    let library = matches!(cfg.stream, Stream::Library(_));
    w.devices.push(cfg);
    // Work in nanoseconds per case and per chunk.
    let work: f64 = if standard {
        if thorough { 2e12 } else { 2e10 }
    } else if matches!(w.specs[0], Spec::Cauchy { .. }) && curated.len() > index as usize {
        // Most of such a law is tail.
        if thorough { 1e11 } else { 1.5e10 }
    } else if curated.len() > index as usize {
        if thorough { 2e10 } else { 1.6e9 }
    } else if thorough {
        4e9
    } else {
        5e8
    };
    let total = (work / cost).max(20_000.0);
    let per = (5e8 / cost).min(if library { 1e6 } else { 2e7 }).min(total);
    let failures = if standard || r.chance(0.3) { 0 } else { r.logrange(1.0, 200.0) as u64 };
    w.law = Some(Law { n: per as u64, chunks: (total / per).ceil() as u64, failures, mode });
}

pub fn curated(property: &str) -> Vec<Spec> {
    let mut v = vec![];
    match property {
        "C07" => {
            v.push(Spec::Uniform { a: 0.0, b: 1.0 });
            v.push(Spec::Uniform { a: -3.0, b: 8.5 });
            v.push(Spec::Exponential { lambda: 1.0 });
            v.push(Spec::Exponential { lambda: 0.01 });
            v.push(Spec::Laplace { mu: 0.0, b: 1.0 });
            v.push(Spec::Laplace { mu: 3.0, b: 0.2 });
            v.push(Spec::Logistic { mu: 0.0, s: 1.0 });
            v.push(Spec::Logistic { mu: -2.0, s: 3.0 });
            for c in [0.0, 0.5, 1.0, 0.3] {
                v.push(Spec::Triangular { a: 0.0, b: 1.0, c });
            }
            v.push(Spec::Triangular { a: -4.0, b: 2.0, c: 1.5 });
        }
        "C08" => {
            v.push(Spec::Gaussian { mu: 0.0, sigma: 1.0 });
            v.push(Spec::Gaussian { mu: 0.0, sigma: 1.0 });
            v.push(Spec::Gaussian { mu: 5.0, sigma: 0.1 });
            v.push(Spec::Gaussian { mu: -2.0, sigma: 30.0 });
            v.push(Spec::Lognormal { mu: 0.0, sigma: 1.0 });
            v.push(Spec::Lognormal { mu: 1.0, sigma: 0.25 });
            v.push(Spec::Cauchy { x0: 0.0, gamma: 1.0 });
            v.push(Spec::Cauchy { x0: 2.0, gamma: 0.3 });
            v.push(Spec::Lognormal { mu: 690.0, sigma: 10.0 });
        }
        "C09" => {
            for k in [0.05, 0.1, 0.3, 0.5, 0.9, 0.999, 1.0, 1.001, 1.5, 2.0, 3.0, 10.0, 50.0, 150.0] {
                v.push(Spec::Gamma { k, theta: if k < 1.0 { 1.0 } else { 2.0 } });
            }
            for k in [1000.5, 20_000.0] {
                v.push(Spec::Gamma { k, theta: 1.0 });
            }
            for (alpha, beta) in [
                (2.03, 2.0),
                (0.05, 0.05),
                (0.1, 0.7),
                (0.5, 0.5),
                (1.0, 1.0),
                (0.5, 3.0),
                (1.0, 3.0),
                (2.0, 2.0),
                (3.0, 0.2),
                (2.0, 5.0),
                (30.0, 40.0),
                (150.0, 1.0),
                (0.02, 2.0),
            ] {
                v.push(Spec::Beta { alpha, beta, a: 0.0, b: 1.0 });
            }
            v.push(Spec::Beta { alpha: 2.5, beta: 1.5, a: -3.0, b: 5.0 });
            for b in [0.1, 0.5, 0.507, 0.9] {
                v.push(Spec::Pert { a: 0.0, b, c: 1.0 });
            }
            v.push(Spec::Pert { a: -2.0, b: 3.0, c: 8.0 });
        }
        _ => {
            for p in [0.5, 0.01, 0.99, 1e-6] {
                v.push(Spec::Bernoulli { p });
            }
            for q in [1e-12, 1e-4, 0.3] {
                v.push(Spec::BernoulliFailure { q });
            }
            for (n, p) in [
                (1, 0.3),
                (2, 0.5),
                (10, 0.5),
                (40, 0.02),
                (100, 0.9),
                (999, 0.5),
                (999, 0.001),
                (1000, 0.5),
                (1000, 0.002),
                (20_000, 0.3),
                (1_000_000, 0.5),
                (1_000_000, 2e-6),
            ] {
                v.push(Spec::Binomial { n, p });
            }
            for (n, q) in [(50, 1e-9), (500, 1e-3), (5000, 1e-4), (100_000, 0.2)] {
                v.push(Spec::BinomialFailure { n, q });
            }
            v.push(Spec::Categorical { p: vec![1.0] });
            v.push(Spec::Categorical { p: vec![0.5, 0.5] });
            v.push(Spec::Categorical { p: vec![0.0, 0.25, 0.0, 0.5, 0.25, 0.0] });
            v.push(Spec::Categorical { p: vec![0.1; 10] });
            v.push(Spec::Categorical { p: vec![1e-6, 0.999, 0.001 - 1e-6] });
        }
    }
    v
}
