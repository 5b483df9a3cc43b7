//! Judges: each executes a scenario against the real library in isolated
//! processes and checks the recorded history.

use crate::device::*;
use crate::proc::{run_child, End};
use crate::rng::{derive, mix, Rng};
use crate::spec::{Spec, Subject};
use crate::verdict::Verdict;
use crate::world::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Limits of a simulated run in seconds.
pub fn limits() -> (u64, u64) {
    let quick = unsafe { QUICK_LIMITS };
    if quick {
        (3, 20)
    } else {
        (20, 120)
    }
}
/// Shorter limits, for the search of smaller failing scenarios.
pub static mut QUICK_LIMITS: bool = false;

/// Reads that a draw may take once its source is healthy.
pub const BUDGET: u64 = 4000;

/// Run `f` in a fresh process; hangs and crashes become violations.
pub fn isolated(v: &mut Verdict, what: &dyn Fn([u64; 3]) -> String, f: &dyn Fn() -> Vec<u8>) -> Option<Vec<u8>> {
    isolated_within(limits(), v, what, f)
}

/// The same, for runs of long histories.
pub fn isolated_long(v: &mut Verdict, what: &dyn Fn([u64; 3]) -> String, f: &dyn Fn() -> Vec<u8>) -> Option<Vec<u8>> {
    let (cpu, wall) = limits();
    isolated_within((6 * cpu, 3 * wall), v, what, f)
}

fn isolated_within(
    (cpu, wall): (u64, u64),
    v: &mut Verdict,
    what: &dyn Fn([u64; 3]) -> String,
    f: &dyn Fn() -> Vec<u8>,
) -> Option<Vec<u8>> {
    v.add("processes", 1);
    match run_child(cpu, wall, f) {
        End::Done(d) => Some(d),
        End::Hang(p) => {
            v.fail("hang", format!("no progress within the time limit: {}", what(p)));
            None
        }
        End::Crash(s, p) => {
            v.fail("crash", format!("the process died ({}): {}", s, what(p)));
            None
        }
    }
}

pub fn locate(world: &World, p: [u64; 3]) -> String {
    let op = world.tasks.get(p[0] as usize).and_then(|t| t.ops.get(p[1] as usize));
    let d = op.and_then(|op| subject_of(op)).and_then(|d| world.specs.get(d));
    format!("task {} operation {} ({:?}) of {:?}", p[0], p[1], op, d)
}

pub fn subject_of(op: &Op) -> Option<usize> {
    match *op {
        Op::Draw { d, .. }
        | Op::Iter { d, .. }
        | Op::Ask { d, .. }
        | Op::Clone { d }
        | Op::Rebuild { d }
        | Op::Fit { d, .. } => Some(d),
        Op::Rewind { .. } => None,
    }
}

fn guarded(f: &dyn Fn() -> Vec<u8>) -> Vec<u8> {
    f()
}

/// Execute a scenario in a fresh process.
pub fn execute(v: &mut Verdict, world: &World, solo: Option<usize>) -> Option<History> {
    let options = Options { budget: BUDGET };
    let data = isolated(v, &|p| locate(world, p), &|| guarded(&|| run(world, &options, solo).encode()))?;
    let h = History::decode(&data);
    v.add("runs", 1);
    v.add("reads", h.reads);
    v.add("steps", h.steps);
    v.add("switches", h.switches);
    for i in 0..9 {
        v.add(&format!("fault.{}", KINDS[i]), h.fired[i]);
    }
    for e in &h.events {
        match e.outcome {
            Outcome::Values(_) if e.device == usize::MAX => v.add("answers", 1),
            Outcome::Values(_) => v.add("outcomes", 1),
            _ => {}
        }
    }
    v.mark(h.hash());
    // An interleaving counts once it interleaves at least two switches.
    if h.switches > 1 {
        v.add("interleaved", 1);
    }
    Some(h)
}

pub fn describe_event(world: &World, e: &Event) -> String {
    let op = &world.tasks[e.task].ops[e.op];
    format!(
        "task {} op {}.{} ({:?} on {:?}) at word {}..{}: {:?}",
        e.task, e.op, e.part, op, world.specs[e.d], e.from, e.to, e.outcome
    )
}

/// What no run may contain whatever the property: panics of the library.
pub fn sanity(v: &mut Verdict, world: &World, h: &History) {
    for e in &h.events {
        if let Outcome::Panicked(m) = &e.outcome {
            v.fail("panic", format!("the library panicked ({}): {}", m, describe_event(world, e)));
        }
        if e.read_after_failure {
            v.fail("swallowed", format!("a failed read did not end the draw: {}", describe_event(world, e)));
        }
    }
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

pub fn same(a: &[f64], b: &[f64]) -> bool {
    bits(a) == bits(b)
}

/// The device without failures and stalls, for replays.
pub fn clean(cfg: &DeviceCfg) -> DeviceCfg {
    let mut c = cfg.clone();
    c.faults.retain(|f| !matches!(f.kind, Kind::Fail(_) | Kind::Stall(_)));
    c
}

fn unit_key(op: &Op) -> Option<String> {
    match op {
        Op::Draw { .. } => Some("draw".to_string()),
        Op::Iter { pattern, n, k, .. } => Some(format!("iter {} {} {}", pattern, n, k)),
        Op::Fit { .. } => Some(format!("{:?}", op)),
        _ => None,
    }
}

/// Re-execute units of work in a fresh process on fresh objects, clones and
/// long-lived ones, in the given order.  Yields (values, position) of each.
fn replays(v: &mut Verdict, world: &World, picks: &[Event], variants: &[u8]) -> Option<Vec<Event>> {
    let data = isolated(v, &|p| format!("a replay of {}", locate(world, p)), &|| {
        let mut devices: Vec<Device> = world.devices.iter().map(|c| Device::new(&clean(c))).collect();
        let standing: Vec<Subject> = world.specs.iter().map(|s| s.build()).collect();
        let mut out = vec![];
        for (e, &variant) in picks.iter().zip(variants) {
            let op = &world.tasks[e.task].ops[e.op];
            let fresh = world.specs[e.d].build();
            let cloned;
            let subject = match variant {
                0 => &fresh,
                1 => &standing[e.d],
                _ => {
                    cloned = standing[e.d].clone();
                    &cloned
                }
            };
            let dev = &mut devices[e.device];
            dev.seek(e.from);
            dev.set_limit(dev.healed_at().max(e.from) + 100_000 + 4 * (e.to - e.from));
            crate::proc::progress(e.task as u64, e.op as u64, e.part as u64);
            let r = catch_unwind(AssertUnwindSafe(|| perform(op, subject, dev)));
            let outcome = match r {
                Ok(x) => Outcome::Values(x),
                Err(p) => describe(p),
            };
            out.push(Event { outcome, to: dev.pos, ..e.clone() });
        }
        encode_events(&out)
    })?;
    v.add("replayed", picks.len() as u64);
    Some(decode_events(&data))
}

/// C01: equal words give equal outcomes, wherever and whenever.
pub fn replay(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    let mut r = Rng::new(derive(world.seed, &[0xC01]));
    let done: Vec<Event> = h
        .events
        .iter()
        .filter(|e| e.device != usize::MAX && matches!(e.outcome, Outcome::Values(_)))
        .cloned()
        .collect();
    let mut picks = vec![];
    if done.len() <= 300 {
        picks = done.clone();
    } else {
        for _ in 0..200 {
            picks.push(done[r.index(done.len())].clone());
        }
        picks.extend(done[done.len() - 50..].iter().cloned());
        picks.extend(done[..50].iter().cloned());
    }
    r.shuffle(&mut picks);
    let mut second = picks.clone();
    r.shuffle(&mut second);
    let variants: Vec<u8> = picks.iter().map(|_| r.below(3) as u8).collect();
    let Some(a) = replays(&mut v, world, &picks, &variants) else { return v };
    let ones = vec![0u8; second.len().min(60)];
    let Some(b) = replays(&mut v, world, &second[..ones.len()], &ones) else { return v };
    // Everything that started from the same word of the same device must agree.
    let mut memo: HashMap<(usize, u64, Vec<u64>, String), (Vec<u64>, u64, String)> = HashMap::new();
    for (label, e) in done
        .iter()
        .map(|e| ("history", e))
        .chain(a.iter().map(|e| ("replay", e)))
        .chain(b.iter().map(|e| ("replay on a fresh object", e)))
    {
        let mut spec: Vec<u64> = bits(&world.specs[e.d].parameters());
        spec.push(mix(world.specs[e.d].name().bytes().fold(7u64, |h, b| h.wrapping_mul(31) + b as u64)));
        let key = unit_key(&world.tasks[e.task].ops[e.op]).unwrap();
        let Outcome::Values(x) = &e.outcome else {
            v.fail("differs", format!("a replay did not complete: {}", describe_event(world, e)));
            break;
        };
        let now = (bits(x), e.to, label.to_string());
        let entry = memo.entry((e.device, e.from, spec, key)).or_insert_with(|| now.clone());
        v.add("comparisons", 1);
        if entry.0 != now.0 || entry.1 != now.1 {
            let was: Vec<f64> = entry.0.iter().map(|&b| f64::from_bits(b)).collect();
            v.fail(
                "differs",
                format!(
                    "the {} gave {:?} up to word {}, but the {} gave {}",
                    entry.2,
                    was,
                    entry.1,
                    label,
                    describe_event(world, e)
                ),
            );
            break;
        }
    }
    v
}

/// C01 and C03: one long history of a single object or sampler, in blocks,
/// against blocks replayed on fresh objects in another order.
pub fn long(world: &World) -> Verdict {
    const BLOCK: u64 = 1 << 12;
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let block = |s: &Subject, dev: &mut Device, sampler: bool, n: u64| -> (u64, u64) {
        let mut h = 0u64;
        let mut count = 0;
        if sampler {
            s.endless(dev, &mut |x| {
                h = mix(h ^ x.to_bits());
                count += 1;
                count < n
            });
        } else {
            for _ in 0..n {
                h = mix(h ^ s.draw(dev).to_bits());
            }
            count = n;
        }
        (h, count)
    };
    let what = |_: [u64; 3]| format!("a long history of {:?}", world.specs[0]);
    let total = law.n.max(1).div_ceil(BLOCK) * BLOCK;
    // The history: (start, hash) of each block; one object, one sampler.
    let first = isolated(&mut v, &what, &|| {
        let s = world.specs[0].build();
        let mut dev = Device::new(&world.devices[0]);
        let mut out: Vec<u8> = vec![];
        let mut push = |v: u64| out.extend_from_slice(&v.to_le_bytes());
        let r = catch_unwind(AssertUnwindSafe(|| {
            if law.mode & 1 == 1 {
                // One sampler for the whole history: positions are noted by
                // the device as the sampler goes along.
                let dev = std::cell::RefCell::new(dev);
                let mut h = 0u64;
                let mut count = 0u64;
                let mut start = 0;
                let mut shared = SharedDevice(&dev);
                s.endless(&mut shared, &mut |x| {
                    h = mix(h ^ x.to_bits());
                    count += 1;
                    if count % BLOCK == 0 {
                        push(start);
                        push(h);
                        h = 0;
                        start = dev.borrow().pos;
                    }
                    count < total
                });
                push(u64::MAX);
                push(count);
            } else {
                let mut done = 0;
                while done < total {
                    let start = dev.pos;
                    let (h, _) = block(&s, &mut dev, false, BLOCK);
                    push(start);
                    push(h);
                    done += BLOCK;
                }
            }
        }));
        if r.is_err() {
            return vec![];
        }
        out
    });
    let Some(first) = first else { return v };
    if first.is_empty() {
        v.fail("panic", format!("the library panicked in {}", what([0; 3])));
        return v;
    }
    let mut pairs: Vec<(u64, u64)> = first
        .chunks(16)
        .map(|c| {
            (
                u64::from_le_bytes(c[..8].try_into().unwrap()),
                u64::from_le_bytes(c[8..].try_into().unwrap()),
            )
        })
        .collect();
    if pairs.last().unwrap().0 == u64::MAX {
        let (_, count) = pairs.pop().unwrap();
        if count < total {
            v.fail(
                "ended",
                format!("the sampler of {:?} ended after {} draws", world.specs[0], count),
            );
            return v;
        }
    }
    if pairs.is_empty() {
        v.fail("harness", "no blocks".to_string());
        return v;
    }
    let mut r = Rng::new(derive(world.seed, &[0x10]));
    let mut order: Vec<usize> = (0..pairs.len()).rev().collect();
    r.shuffle(&mut order);
    order.truncate(40);
    order.push(pairs.len() - 1);
    let second = isolated(&mut v, &what, &|| {
        let mut dev = Device::new(&world.devices[0]);
        let mut out = vec![];
        for &i in &order {
            let s = world.specs[0].build();
            dev.seek(pairs[i].0);
            let r = catch_unwind(AssertUnwindSafe(|| block(&s, &mut dev, false, BLOCK).0));
            out.extend_from_slice(&r.unwrap_or(0).to_le_bytes());
            out.extend_from_slice(&dev.pos.to_le_bytes());
        }
        out
    });
    let Some(second) = second else { return v };
    v.add("runs", 1);
    v.add("draws", total);
    v.add("reads", pairs.last().unwrap().0);
    v.add("steps", pairs.last().unwrap().0);
    for (j, &i) in order.iter().enumerate() {
        let at = |k: usize| u64::from_le_bytes(second[16 * j + 8 * k..16 * j + 8 * k + 8].try_into().unwrap());
        v.add("comparisons", BLOCK);
        let next = pairs.get(i + 1).map(|p| p.0);
        if at(0) != pairs[i].1 || next.map_or(false, |n| n != at(1)) {
            v.fail(
                "differs",
                format!(
                    "draws {}..{} of one history of {:?} (from word {}) differ from those of a fresh object",
                    i as u64 * BLOCK,
                    (i as u64 + 1) * BLOCK,
                    world.specs[0],
                    pairs[i].0
                ),
            );
            return v;
        }
        v.mark(pairs[i].1);
    }
    v
}

/// C02 with a device per task: every task obtains what it obtains alone.
pub fn isolate(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    v.add("interleavings", 1);
    for t in 0..world.tasks.len() {
        let Some(alone) = execute(&mut v, world, Some(t)) else { return v };
        let mine: Vec<&Event> = h.events.iter().filter(|e| e.task == t).collect();
        compare(&mut v, world, &mine, &alone.events.iter().collect::<Vec<_>>(), "alone");
        if v.failed() {
            return v;
        }
    }
    v
}

fn compare(v: &mut Verdict, world: &World, a: &[&Event], b: &[&Event], how: &str) {
    for i in 0..a.len().max(b.len()) {
        v.add("comparisons", 1);
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => {
                let equal = match (&x.outcome, &y.outcome) {
                    (Outcome::Values(p), Outcome::Values(q)) => same(p, q),
                    (p, q) => p == q,
                };
                if !(equal
                    && (x.op, x.part, x.from, x.to) == (y.op, y.part, y.from, y.to))
                {
                    v.fail(
                        "differs",
                        format!(
                            "{}; {}: {:?} at word {}..{}",
                            describe_event(world, x),
                            how,
                            y.outcome,
                            y.from,
                            y.to
                        ),
                    );
                    return;
                }
            }
            (Some(x), None) | (None, Some(x)) => {
                v.fail(
                    "differs",
                    format!("only one of two executions has {} ({})", describe_event(world, x), how),
                );
                return;
            }
            _ => {}
        }
    }
}

/// C02 with a shared device: the sequential execution in lock order.
pub fn share(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    v.add("interleavings", 1);
    // Draws hold the device exclusively: their ranges follow one another.
    // Restarts of a unit of work follow one another on its device.
    let mut script: Vec<(usize, usize, u32)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for e in &h.events {
        let unit = (e.task, e.op, e.part);
        if seen.insert(unit) {
            script.push(unit);
        }
    }
    let options = Options { budget: BUDGET };
    let Some(data) =
        isolated(&mut v, &|p| locate(world, p), &|| encode_events(&run_script(world, &options, &script)))
    else {
        return v;
    };
    let model = decode_events(&data);
    // Device by device, and answers task by task.
    let mut groups: Vec<(usize, usize)> = vec![];
    let group = |e: &Event| {
        if e.device == usize::MAX {
            (usize::MAX, e.task)
        } else {
            (e.device, 0)
        }
    };
    for e in h.events.iter().chain(&model) {
        if !groups.contains(&group(e)) {
            groups.push(group(e));
        }
    }
    for g in groups {
        let pick = |events: &'_ [Event]| events.iter().filter(|e| group(e) == g).cloned().collect::<Vec<_>>();
        let (a, b) = (pick(&h.events), pick(&model));
        compare(
            &mut v,
            world,
            &a.iter().collect::<Vec<_>>(),
            &b.iter().collect::<Vec<_>>(),
            "sequentially",
        );
        if v.failed() {
            break;
        }
    }
    v
}

/// C03: samplers against direct draws.
pub fn sampler(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    let picks: Vec<&Event> = h
        .events
        .iter()
        .filter(|e| matches!(world.tasks[e.task].ops[e.op], Op::Iter { .. }))
        .collect();
    let Some(data) = isolated(&mut v, &|p| locate(world, p), &|| {
        let mut out = vec![];
        for e in &picks {
            let Op::Iter { pattern, n, k, .. } = world.tasks[e.task].ops[e.op] else { continue };
            let mut cfg = clean(&world.devices[e.device]);
            if e.outcome == Outcome::Failed {
                cfg.faults.push(Fault { at: e.to, len: 1, kind: Kind::Fail(1) });
            }
            let mut dev = Device::new(&cfg);
            dev.seek(e.from);
            let subject = world.specs[e.d].build();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut draw = || {
                    dev.set_limit(dev.healed_at().max(dev.pos) + BUDGET);
                    subject.draw(&mut dev)
                };
                pattern_model(pattern, n as usize, k as usize, &mut draw)
            }));
            let outcome = match r {
                Ok(x) => Outcome::Values(x),
                Err(p) => describe(p),
            };
            out.push(Event { outcome, to: dev.pos, ..(*e).clone() });
        }
        encode_events(&out)
    }) else {
        return v;
    };
    let model = decode_events(&data);
    compare(&mut v, world, &picks, &model.iter().collect::<Vec<_>>(), "by direct draws");
    v.add("samplers", picks.len() as u64);
    v
}

/// Reported quantities of an object, as bits.
fn fingerprint(s: &Subject, spec: &Spec) -> Vec<u64> {
    let r = spec.reference();
    let mut out = vec![];
    let cheap = !matches!(spec, Spec::Binomial { n, .. } | Spec::BinomialFailure { n, .. } if *n > 3000);
    for q in QUERIES {
        let x = match q {
            Query::Cdf | Query::Density => r.quantile(0.3),
            _ => 0.3,
        };
        if q == Query::Entropy && !cheap {
            continue;
        }
        match catch_unwind(AssertUnwindSafe(|| s.ask(q, x))) {
            Ok(a) => out.extend(bits(&a)),
            Err(_) => out.push(1),
        }
    }
    out
}

/// C04: failures at every read of the draws of a short history.
pub fn contain(world: &World) -> Verdict {
    let mut v = Verdict::default();
    // The explicit faults first (a refined scenario has one).
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    failures(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    let mut base = world.clone();
    for d in base.devices.iter_mut() {
        *d = clean(d);
    }
    let Some(calm) = execute(&mut v, &base, None) else { return v };
    sanity(&mut v, &base, &calm);
    if v.failed() {
        return v;
    }
    if world.tasks.len() > 1 {
        return v;
    }
    let end = calm.events.iter().filter(|e| e.device != usize::MAX).map(|e| e.to).max().unwrap_or(0);
    let mut r = Rng::new(derive(world.seed, &[0xC04]));
    let mut places: Vec<u64> = (0..end).collect();
    r.shuffle(&mut places);
    places.truncate(48);
    for policy in [OnFail::Restart, OnFail::Continue] {
        // One long-suffering object, with a failure at every place in turn.
        for &p in &places {
            let mut w = base.clone();
            let times = 1 + r.below(2) as u32 * r.below(3) as u32;
            w.devices[0].faults.push(Fault { at: p, len: 1, kind: Kind::Fail(times) });
            w.tasks[0].on_fail = policy;
            let Some(h) = execute(&mut v, &w, None) else {
                v.refined = Some(w.text());
                return v;
            };
            sanity(&mut v, &w, &h);
            failures(&mut v, &w, &h);
            v.add("failure.places", 1);
            if policy == OnFail::Restart && !v.failed() {
                let done: Vec<&Event> = h.events.iter().filter(|e| e.outcome != Outcome::Failed).collect();
                compare(&mut v, &w, &done, &calm.events.iter().collect::<Vec<_>>(), "without the failure");
            }
            if v.failed() {
                v.refined = Some(w.text());
                return v;
            }
        }
    }
    // An outage: one place fails over and over again.
    if let Some(&p) = places.first() {
        let mut w = base.clone();
        let times = r.logrange(10.0, 300.0) as u32;
        w.devices[0].faults.push(Fault { at: p, len: 1, kind: Kind::Fail(times) });
        w.tasks[0].on_fail = OnFail::Restart;
        let Some(h) = execute(&mut v, &w, None) else {
            v.refined = Some(w.text());
            return v;
        };
        sanity(&mut v, &w, &h);
        failures(&mut v, &w, &h);
        if !v.failed() {
            let done: Vec<&Event> = h.events.iter().filter(|e| e.outcome != Outcome::Failed).collect();
            compare(&mut v, &w, &done, &calm.events.iter().collect::<Vec<_>>(), "without the failures");
        }
        if v.failed() {
            v.refined = Some(w.text());
            return v;
        }
    }
    suffering(&mut v, &base, &places);
    v
}

/// Check each failed unit of work, and each unit after a failure, against
/// objects that never failed.
fn failures(v: &mut Verdict, world: &World, h: &History) {
    if v.failed() || !h.events.iter().any(|e| e.outcome == Outcome::Failed) {
        return;
    }
    let picks: Vec<&Event> = h.events.iter().filter(|e| e.device != usize::MAX).collect();
    let Some(data) = isolated(v, &|p| locate(world, p), &|| {
        let mut out = vec![];
        for e in &picks {
            let op = &world.tasks[e.task].ops[e.op];
            let mut cfg = clean(&world.devices[e.device]);
            if e.outcome == Outcome::Failed {
                cfg.faults.push(Fault { at: e.to, len: 1, kind: Kind::Fail(1) });
            }
            let mut dev = Device::new(&cfg);
            dev.seek(e.from);
            dev.set_limit(dev.healed_at().max(e.from) + 100_000 + 4 * (e.to - e.from));
            let s = world.specs[e.d].build();
            let r = catch_unwind(AssertUnwindSafe(|| perform(op, &s, &mut dev)));
            let outcome = match r {
                Ok(x) => Outcome::Values(x),
                Err(p) => describe(p),
            };
            let raf = dev.read_after_failure;
            out.push(Event { outcome, to: dev.pos, read_after_failure: raf, ..(*e).clone() });
        }
        encode_events(&out)
    }) else {
        return;
    };
    let model = decode_events(&data);
    compare(v, world, &picks, &model.iter().collect::<Vec<_>>(), "on an object that never failed");
    // The failing read is the one that the fault plan names.
    for e in &h.events {
        if e.outcome == Outcome::Failed {
            v.add("failures", 1);
            let planned = world.devices[e.device]
                .faults
                .iter()
                .any(|f| matches!(f.kind, Kind::Fail(_)) && f.at <= e.to && e.to < f.at + f.len);
            if !planned {
                v.fail("misplaced", format!("a failure surfaced elsewhere: {}", describe_event(world, e)));
            }
        }
    }
}

/// One object that fails at every place: its reported quantities, clones and
/// draws stay those of a fresh object.
fn suffering(v: &mut Verdict, world: &World, places: &[u64]) {
    let Some(data) = isolated(v, &|p| locate(world, p), &|| {
        let mut message = String::new();
        'outer: for spec in &world.specs {
            let s = spec.build();
            let before = fingerprint(&s, spec);
            for (i, &p) in places.iter().enumerate() {
                let mut cfg = world.devices[0].clone();
                cfg.faults.push(Fault { at: p, len: 1, kind: Kind::Fail(1) });
                let mut dev = Device::new(&cfg);
                // Start a few words ahead so that the failure is inside a draw.
                dev.seek(p.saturating_sub((i % 5) as u64));
                dev.set_limit(dev.healed_at().max(dev.pos) + 100_000);
                let mut failed = false;
                for _ in 0..12 {
                    let from = dev.pos;
                    dev.failing = false;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        if i % 2 == 0 {
                            Some(s.draw(&mut dev))
                        } else {
                            s.pull(&mut dev)
                        }
                    }));
                    if r.is_err() {
                        failed = true;
                        let after = fingerprint(&s, spec);
                        if after != before {
                            message = format!("the reported quantities of {:?} changed after a failure at word {} of a draw from word {}", spec, p, from);
                            break 'outer;
                        }
                        let c = s.clone();
                        let fresh = spec.build();
                        let mut x = Device::new(&world.devices[0]);
                        let mut y = Device::new(&world.devices[0]);
                        x.seek(from);
                        y.seek(from);
                        let a = c.draw(&mut x);
                        let b = fresh.draw(&mut y);
                        if a.to_bits() != b.to_bits() || x.pos != y.pos {
                            message = format!("a clone of {:?} made after a failure at word {} of a draw from word {} draws {} instead of {}", spec, p, from, a, b);
                            break 'outer;
                        }
                        break;
                    }
                }
                let _ = failed;
            }
            if fingerprint(&s.clone(), spec) != before {
                message = format!("the reported quantities of a clone of {:?} changed after failures", spec);
                break;
            }
        }
        message.into_bytes()
    }) else {
        return;
    };
    v.add("failure.places", (places.len() * world.specs.len()) as u64);
    if !data.is_empty() {
        v.fail("changed", String::from_utf8_lossy(&data).to_string());
    }
}

/// C05: outcomes are in the support under any words.
pub fn support(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    let references: Vec<_> = world.specs.iter().map(|s| s.reference()).collect();
    for e in &h.events {
        let Outcome::Values(values) = &e.outcome else { continue };
        if e.device == usize::MAX || matches!(world.tasks[e.task].ops[e.op], Op::Fit { .. }) {
            continue;
        }
        for &x in values {
            v.add("comparisons", 1);
            if let Some(m) = outside(&references[e.d], x) {
                v.fail("support", format!("{}: {}", m, describe_event(world, e)));
                return v;
            }
        }
    }
    v
}

pub fn outside(r: &crate::reference::Reference, x: f64) -> Option<String> {
    if x.is_nan() {
        return Some("the outcome is NaN".to_string());
    }
    let (lo, hi) = r.support();
    let e = 8.0 * f64::EPSILON * r.magnitude();
    if x < lo - e || x > hi + e {
        return Some(format!("the outcome {:e} is outside of [{:e}, {:e}]", x, lo, hi));
    }
    if r.discrete() {
        if x != x.floor() || x.is_infinite() {
            return Some(format!("the outcome {:e} is not an outcome", x));
        }
        let impossible = match r {
            crate::reference::Reference::Categorical { p, .. } => p[x as usize] <= 0.0,
            _ => false,
        };
        if impossible {
            return Some(format!("the outcome {} has probability zero", x));
        }
    }
    None
}

/// C06: draws finish within a bounded number of reads and of computation.
pub fn progress(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    for e in &h.events {
        match &e.outcome {
            Outcome::Starved => {
                v.fail(
                    "starved",
                    format!("more than {} healthy words were read: {}", BUDGET, describe_event(world, e)),
                );
            }
            Outcome::Panicked(m) => {
                v.fail("panic", format!("the library panicked ({}): {}", m, describe_event(world, e)));
            }
            Outcome::Values(_) if e.device != usize::MAX => {
                let healthy = e.to.saturating_sub(e.from.max(world.devices[e.device].healed()));
                v.add("healthy.reads", if e.to > world.devices[e.device].healed() { healthy } else { 0 });
            }
            _ => {}
        }
    }
    // Tasks that were not told to die execute all of their operations.
    if !v.failed() {
        for (t, task) in world.tasks.iter().enumerate() {
            if task.on_fail == OnFail::Die {
                continue;
            }
            let last = task.ops.iter().rposition(|o| {
                !matches!(o, Op::Clone { .. } | Op::Rebuild { .. } | Op::Rewind { .. })
                    && !matches!(o, Op::Draw { n: 0, .. })
            });
            if let Some(last) = last {
                if !h.events.iter().any(|e| e.task == t && e.op == last) {
                    v.fail("stuck", format!("task {} never reached operation {}", t, last));
                }
            }
        }
    }
    v
}

/// C11: outcomes do not depend on words outside of their own draws.
pub fn twin(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    let mut r = Rng::new(derive(world.seed, &[0xC11]));
    let mut done: Vec<Event> = h
        .events
        .iter()
        .filter(|e| {
            e.device != usize::MAX
                && matches!(e.outcome, Outcome::Values(_))
                && matches!(world.tasks[e.task].ops[e.op], Op::Draw { .. } | Op::Iter { .. })
        })
        .cloned()
        .collect();
    r.shuffle(&mut done);
    done.truncate(150);
    let seeds: Vec<u64> = done.iter().map(|_| r.word()).collect();
    let Some(data) = isolated(&mut v, &|p| locate(world, p), &|| {
        let mut out = vec![];
        let mut devices: Vec<Device> = world.devices.iter().map(|c| Device::new(&clean(c))).collect();
        let standing: Vec<Subject> = world.specs.iter().map(|s| s.build()).collect();
        for (e, &seed) in done.iter().zip(&seeds) {
            // Other words before, the same words within, other words after.
            let prior = seed % 3;
            let mut warm = Device::new(&DeviceCfg {
                stream: Stream::Mix(seed),
                flavour: world.devices[e.device].flavour,
                faults: vec![],
            });
            for i in 0..prior {
                let d = (e.d + i as usize) % standing.len();
                let _ = standing[d].draw(&mut warm);
            }
            let tape: Vec<u64> = (e.from..e.to).map(|p| devices[e.device].peek(p)).collect();
            let mut dev = Device::new(&DeviceCfg {
                stream: Stream::Tape(std::sync::Arc::new(tape), seed ^ 1),
                flavour: world.devices[e.device].flavour,
                faults: vec![],
            });
            dev.set_limit(100_000 + 4 * (e.to - e.from));
            let op = &world.tasks[e.task].ops[e.op];
            let r = catch_unwind(AssertUnwindSafe(|| perform(op, &standing[e.d], &mut dev)));
            let outcome = match r {
                Ok(x) => Outcome::Values(x),
                Err(p) => describe(p),
            };
            out.push(Event { outcome, to: e.from + dev.pos, ..e.clone() });
        }
        encode_events(&out)
    }) else {
        return v;
    };
    let model = decode_events(&data);
    v.add("twins", done.len() as u64);
    compare(
        &mut v,
        world,
        &done.iter().collect::<Vec<_>>(),
        &model.iter().collect::<Vec<_>>(),
        "with other words before and after it",
    );
    v
}

/// A source over a device that others can look at between draws.
pub struct SharedDevice<'a>(pub &'a std::cell::RefCell<Device>);
impl<'a> probability::source::Source for SharedDevice<'a> {
    #[inline]
    fn read_u64(&mut self) -> u64 {
        self.0.borrow_mut().read_u64()
    }
    #[inline]
    fn read_f64(&mut self) -> f64 {
        self.0.borrow_mut().read_f64()
    }
}

impl DeviceCfg {
    pub fn healed(&self) -> u64 {
        self.faults
            .iter()
            .filter(|f| !matches!(f.kind, Kind::Fail(_) | Kind::Stall(_)))
            .map(|f| f.at + f.len)
            .max()
            .unwrap_or(0)
    }
}
