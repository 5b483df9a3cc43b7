//! A check: a campaign of simulated runs for one property, the report of a
//! violation as a minimised replay file, and the evidence.

use crate::device::*;
use crate::proc::{campaign, harness_error};
use crate::rng::{derive, mix};
use crate::spec::Spec;
use crate::verdict::Verdict;
use crate::world::*;
use crate::{judge, known, numeric, plan};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

static PLACE: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut p) = PLACE.try_lock() {
            *p = info.location().map_or(String::new(), |l| l.to_string());
        }
    }));
}

fn workers() -> u64 {
    if let Some(n) = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()) {
        return n;
    }
    std::thread::available_parallelism().map_or(4, |n| n.get() as u64)
}

pub fn root() -> PathBuf {
    std::env::var("SIM_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

fn guarded(f: &dyn Fn() -> Verdict) -> Verdict {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let m = match describe(p) {
                Outcome::Panicked(m) => m,
                o => format!("{:?}", o),
            };
            let place = PLACE.lock().map(|p| p.clone()).unwrap_or_default();
            let mut v = Verdict::default();
            v.fail("harness", format!("{} at {}", m, place));
            v
        }
    }
}

/// Whether candidates of a minimisation are judged: one that the machinery
/// cannot judge is not a smaller witness.
static MINIMISING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn checked(v: Verdict, world: &World) -> Verdict {
    if let Some((c, m)) = &v.violation {
        if c == "harness" && !MINIMISING.load(std::sync::atomic::Ordering::Relaxed) {
            println!("{}", world.text().chars().take(4000).collect::<String>());
            harness_error(m);
        }
    }
    v
}

/// Judge a scenario as a whole (all chunks of a long history).
pub fn evaluate(world: &World) -> Verdict {
    if world.kind != "law" {
        return checked(guarded(&|| plan::judge(world)), world);
    }
    let results = campaign(
        plan::chunks(world),
        workers(),
        &|c| guarded(&|| numeric::law_chunk(world, c)).encode(),
        &|b| Verdict::decode(b).failed(),
    );
    let mut v = Verdict::default();
    let mut chunks = vec![];
    for (_, b) in results {
        let mut c = Verdict::decode(&b);
        chunks.push(std::mem::take(&mut c.data));
        v.absorb(c);
    }
    if !v.failed() {
        v.absorb(guarded(&|| numeric::law_conclude(world, &chunks)));
    }
    checked(v, world)
}

struct Case {
    kind: &'static str,
    index: u64,
    first: u64,
    chunks: u64,
}

pub struct Outcomes {
    pub violation: Option<(World, Verdict)>,
    pub total: Verdict,
    pub distinct: usize,
    pub cases: u64,
    pub samples: Vec<String>,
    pub kinds: BTreeMap<String, u64>,
    pub digest: u64,
}

/// Explore a property.
pub fn explore(property: &str, seed: u64, thorough: bool) -> Outcomes {
    let mut cases = vec![];
    let mut jobs: Vec<usize> = vec![];
    let mut kinds = BTreeMap::new();
    for (kind, count) in plan::groups(property, thorough) {
        for index in 0..count {
            let chunks = if kind == "law" {
                plan::chunks(&plan::world(property, kind, seed, index, thorough))
            } else {
                1
            };
            cases.push(Case { kind, index, first: jobs.len() as u64, chunks });
            for _ in 0..chunks {
                jobs.push(cases.len() - 1);
            }
        }
        kinds.insert(kind.to_string(), count);
    }
    let world = |c: &Case| plan::world(property, c.kind, seed, c.index, thorough);
    let slow = Mutex::new(());
    let timing = std::env::var("SIM_TIMING").is_ok();
    let results = campaign(
        jobs.len() as u64,
        workers(),
        &|i| {
            let case = &cases[jobs[i as usize]];
            let w = world(case);
            let start = Instant::now();
            let v = guarded(&|| {
                if case.kind == "law" {
                    numeric::law_chunk(&w, i - case.first)
                } else {
                    plan::judge(&w)
                }
            });
            if timing && start.elapsed().as_millis() > 800 {
                let _l = slow.lock();
                println!("slow: {} {} {:.2}s {:?} {:?}", case.kind, case.index, start.elapsed().as_secs_f64(), w.specs, w.law);
            }
            v.encode()
        },
        &|b| b[0] == 1,
    );
    let mut total = Verdict::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut digest = 0;
    let mut data: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    let mut violation = None;
    for (i, b) in results {
        let mut v = Verdict::decode(&b);
        let case = jobs[i as usize];
        for m in v.marks.drain(..) {
            digest = mix(digest ^ m);
            seen.insert(m);
        }
        if cases[case].kind == "law" {
            data.entry(case).or_default().push(std::mem::take(&mut v.data));
        }
        if v.failed() && violation.is_none() {
            violation = Some((world(&cases[case]), v.clone()));
        }
        total.absorb(v);
    }
    // Conclude the long histories.
    if violation.is_none() && !data.is_empty() {
        let list: Vec<(usize, Vec<Vec<u8>>)> = data.into_iter().collect();
        let results = campaign(
            list.len() as u64,
            workers(),
            &|i| {
                let (case, chunks) = &list[i as usize];
                guarded(&|| numeric::law_conclude(&world(&cases[*case]), chunks)).encode()
            },
            &|b| b[0] == 1,
        );
        for (i, b) in results {
            let v = Verdict::decode(&b);
            if v.failed() && violation.is_none() {
                violation = Some((world(&cases[list[i as usize].0]), v.clone()));
            }
            total.absorb(v);
        }
    }
    let mut samples = vec![];
    for (kind, count) in plan::groups(property, thorough) {
        if count > 0 {
            let index = derive(seed, &[7, kind.len() as u64]) % count;
            samples.push(plan::world(property, kind, seed, index, thorough).text());
        }
    }
    Outcomes { violation, total, distinct: seen.len(), cases: cases.len() as u64, samples, kinds, digest }
}

// ---------------------------------------------------------------------------
// Minimisation.

fn drop_task(w: &World, t: usize) -> World {
    let mut c = w.clone();
    c.tasks.remove(t);
    c.switches.retain(|s| s.1 != t);
    for s in c.switches.iter_mut() {
        if s.1 > t {
            s.1 -= 1;
        }
    }
    c
}

fn rename(op: &mut Op, f: &dyn Fn(usize) -> usize) {
    match op {
        Op::Draw { d, .. }
        | Op::Iter { d, .. }
        | Op::Ask { d, .. }
        | Op::Clone { d }
        | Op::Rebuild { d }
        | Op::Fit { d, .. } => *d = f(*d),
        Op::Rewind { .. } => {}
    }
}

/// Simpler variants of a scenario, the boldest first.
fn simpler(w: &World) -> Vec<World> {
    let mut out = vec![];
    let mut push = |c: World| {
        if c != *w {
            out.push(c);
        }
    };
    let edit = |f: &dyn Fn(&mut World)| {
        let mut c = w.clone();
        f(&mut c);
        c
    };
    push(edit(&|c| c.switches.clear()));
    push(edit(&|c| c.devices.iter_mut().for_each(|d| d.faults.clear())));
    if w.tasks.len() > 1 {
        for t in 0..w.tasks.len() {
            push(drop_task(w, t));
        }
    }
    // Operations: halves, quarters, then one by one.
    for t in 0..w.tasks.len() {
        let n = w.tasks[t].ops.len();
        let mut size = n.div_ceil(2);
        while size >= 1 && n > 1 {
            let mut at = 0;
            while at < n {
                let end = (at + size).min(n);
                push(edit(&|c| {
                    c.tasks[t].ops.drain(at..end);
                }));
                at = end;
            }
            if size == 1 {
                break;
            }
            size = size.div_ceil(2);
        }
    }
    for d in 0..w.devices.len() {
        for f in 0..w.devices[d].faults.len() {
            push(edit(&|c| {
                c.devices[d].faults.remove(f);
            }));
        }
    }
    // Preemptions.
    let n = w.switches.len();
    let mut size = n.div_ceil(2);
    while size >= 1 && n > 1 {
        let mut at = 0;
        while at < n {
            let end = (at + size).min(n);
            push(edit(&|c| {
                c.switches.drain(at..end);
            }));
            at = end;
        }
        if size == 1 {
            break;
        }
        size = size.div_ceil(2);
    }
    if n == 1 {
        push(edit(&|c| c.switches.clear()));
    }
    // Unused distributions.
    for d in 0..w.specs.len() {
        let used = w.tasks.iter().flat_map(|t| t.ops.iter()).any(|op| judge::subject_of(op) == Some(d));
        let main = w.law.is_some() && (d == 0 || w.kind == "dependence" && w.specs.len() < 2);
        if !used && !main && w.specs.len() > 1 {
            push(edit(&|c| {
                c.specs.remove(d);
                for t in c.tasks.iter_mut() {
                    for op in t.ops.iter_mut() {
                        rename(op, &|x| if x > d { x - 1 } else { x });
                    }
                }
            }));
        }
    }
    // Unused devices.
    for d in 0..w.devices.len() {
        if w.law.is_none() && w.devices.len() > 1 && !w.tasks.iter().any(|t| t.device == d) {
            push(edit(&|c| {
                c.devices.remove(d);
                for t in c.tasks.iter_mut() {
                    if t.device > d {
                        t.device -= 1;
                    }
                }
            }));
        }
    }
    if let Some(l) = &w.law {
        let with = |f: &dyn Fn(&mut Law)| {
            edit(&|c| {
                let mut m = l.clone();
                f(&mut m);
                c.law = Some(m);
            })
        };
        push(with(&|l| l.failures = 0));
        push(with(&|l| l.mode = 0));
        for k in [64, 8, 2] {
            push(with(&|l| l.chunks = (l.chunks / k).max(1)));
            push(with(&|l| l.n = (l.n / k).max(16).min(l.n)));
        }
    }
    for t in 0..w.tasks.len() {
        for o in 0..w.tasks[t].ops.len() {
            let smaller = |f: &dyn Fn(&mut Op)| edit(&|c| f(&mut c.tasks[t].ops[o]));
            match w.tasks[t].ops[o] {
                Op::Draw { n, .. } if n > 1 => {
                    for m in [1, n / 2, n - 1] {
                        push(smaller(&|op| {
                            if let Op::Draw { n, .. } = op {
                                *n = m
                            }
                        }));
                    }
                }
                Op::Iter { n, k, .. } => {
                    for (a, b) in [(n / 2, k), (n.saturating_sub(1), k), (n, 0), (n, k / 2)] {
                        push(smaller(&|op| {
                            if let Op::Iter { n, k, .. } = op {
                                *n = a;
                                *k = b;
                            }
                        }));
                    }
                }
                Op::Fit { n, .. } => {
                    for m in [n / 16, n / 2, n.saturating_sub(1)] {
                        push(smaller(&|op| {
                            if let Op::Fit { n, .. } = op {
                                *n = m.max(2)
                            }
                        }));
                    }
                    push(smaller(&|op| {
                        if let Op::Fit { scale, .. } = op {
                            *scale = 1.0
                        }
                    }));
                    push(smaller(&|op| {
                        if let Op::Fit { offset, .. } = op {
                            *offset = 0.0
                        }
                    }));
                }
                Op::Rewind { back } if back > 1 => push(smaller(&|op| *op = Op::Rewind { back: 1 })),
                _ => {}
            }
        }
        push(edit(&|c| c.tasks[t].on_fail = OnFail::Restart));
    }
    for d in 0..w.devices.len() {
        for f in 0..w.devices[d].faults.len() {
            let with = |g: &dyn Fn(&mut Fault)| edit(&|c| g(&mut c.devices[d].faults[f]));
            push(with(&|f| f.len = 1));
            push(with(&|f| f.len = (f.len / 2).max(1)));
            push(with(&|f| {
                if let Kind::Fail(n) = &mut f.kind {
                    *n = 1
                }
            }));
        }
        push(edit(&|c| c.devices[d].flavour = Flavour::Word));
        let seed = match w.devices[d].stream {
            Stream::Mix(s) | Stream::Library(s) | Stream::Rare(s) | Stream::Tilt(s) | Stream::Strata(s) | Stream::Tape(_, s) => s,
        };
        push(edit(&|c| c.devices[d].stream = Stream::Mix(seed)));
        if let Stream::Tape(t, s) = &w.devices[d].stream {
            for keep in [t.len() / 2, t.len().saturating_sub(1)] {
                let shorter: Vec<u64> = t[..keep].to_vec();
                push(edit(&|c| c.devices[d].stream = Stream::Tape(std::sync::Arc::new(shorter.clone()), *s)));
            }
        }
    }
    out
}

/// Search for a smaller scenario with a violation of the same class.
pub fn minimise(world: &World, verdict: &Verdict) -> (World, Verdict, u64) {
    let class = verdict.violation.as_ref().unwrap().0.clone();
    let start = Instant::now();
    let mut tried = 0u64;
    let slow = class == "hang" || class == "crash";
    let (cap, seconds) = if slow { (12, 60) } else { (400, 45) };
    let mut best = (world.clone(), verdict.clone());
    unsafe { judge::QUICK_LIMITS = slow };
    MINIMISING.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut attempt = |w: &World| -> Option<Verdict> {
        if tried >= cap || start.elapsed().as_secs() >= seconds {
            return None;
        }
        tried += 1;
        let v = evaluate(w);
        match &v.violation {
            Some((c, _)) if *c == class => Some(v),
            _ => None,
        }
    };
    if let Some(text) = &verdict.refined {
        if let Some(w) = World::parse(text) {
            if let Some(v) = attempt(&w) {
                best = (w, v);
            }
        }
    }
    'search: loop {
        for w in simpler(&best.0) {
            if let Some(v) = attempt(&w) {
                let mut next = (w, v);
                if let Some(r) = next.1.refined.as_ref().and_then(|t| World::parse(t)) {
                    if r.text().len() < next.0.text().len() {
                        if let Some(v) = attempt(&r) {
                            next = (r, v);
                        }
                    }
                }
                best = next;
                continue 'search;
            }
        }
        break;
    }
    unsafe { judge::QUICK_LIMITS = false };
    MINIMISING.store(false, std::sync::atomic::Ordering::Relaxed);
    (best.0, best.1, tried)
}

fn fingerprint(v: &Verdict) -> u64 {
    let (c, m) = v.violation.clone().unwrap_or_default();
    let mut h = 0;
    // The place at which a run was interrupted is not part of it.
    let text = if c == "hang" || c == "crash" { c } else { c + &m };
    for b in text.bytes() {
        h = mix(h ^ b as u64);
    }
    h
}

fn write_replay(world: &World, v: &Verdict) -> PathBuf {
    let (class, message) = v.violation.clone().unwrap();
    let mut text = String::new();
    text += &format!("# {}: {}\n", class, message.replace('\n', " "));
    text += &format!("# digest {:x}\n", fingerprint(v));
    text += &world.text();
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:012x}.sim", world.property, fingerprint(v) >> 16));
    if std::fs::write(&path, text).is_err() {
        harness_error("cannot write the replay file");
    }
    path
}

/// Run a replay file; true if the violation shows again.
pub fn replay(path: &str) -> bool {
    let Ok(text) = std::fs::read_to_string(path) else { harness_error("cannot read the replay file") };
    let Some(world) = World::parse(&text) else { harness_error("cannot parse the replay file") };
    let digest = text
        .lines()
        .find_map(|l| l.strip_prefix("# digest "))
        .and_then(|x| u64::from_str_radix(x, 16).ok());
    let v = evaluate(&world);
    match &v.violation {
        Some((c, m)) => {
            println!("{}: {}", c, m);
            if digest.map_or(false, |d| d != fingerprint(&v)) {
                println!("(a violation, but not the recorded one)");
            }
            println!("VIOLATION property={} replay={}", world.property, path);
            true
        }
        None => {
            println!("no violation of {} in this scenario", world.property);
            false
        }
    }
}

// ---------------------------------------------------------------------------
// A check.

fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            c if (c as u32) < 32 => out += " ",
            c => out.push(c),
        }
    }
    out + "\""
}

fn rule(property: &str) -> &'static str {
    match property {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C11" | "C16" => {
            "A case is a scenario generated from one seed (parameters, device with its words and faults, tasks with operations, preemptions) and executed against the real library; counted distinct and non-trivial when the hash of its recorded history (interleaving, positions and bits of all outcomes) has not occurred before and is not that of an empty history."
        }
        _ => {
            "A case is a scenario generated from one seed: a history of draws (short with questions, or long) of the real library on a simulated device; counted distinct and non-trivial when the hash of its recorded history (positions, outcomes and answers, or the histogram of a chunk) has not occurred before."
        }
    }
}

fn evidence(property: &str, seed: u64, thorough: bool, o: &Outcomes, wall: f64, violations: u64, known: &[String]) {
    let c = |k: &str| o.total.counts.get(k).cloned().unwrap_or(0);
    let hour = 3600.0 / wall.max(1e-3);
    let mut s = String::from("{\n");
    s += &format!("  \"property\": {},\n", json(property));
    s += &format!("  \"tier\": {},\n", json(if thorough { "thorough" } else { "quick" }));
    s += &format!("  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n", seed);
    s += &format!("    \"evaluations\": {},\n", o.cases);
    s += &format!("    \"distinct_nontrivial\": {},\n", o.distinct);
    s += &format!("    \"rule\": {},\n", json(rule(property)));
    let samples: Vec<String> = o.samples.iter().map(|x| json(&x.chars().take(3000).collect::<String>())).collect();
    s += &format!("    \"samples\": [{}],\n", samples.join(", "));
    let kinds: Vec<String> = o.kinds.iter().map(|(k, n)| format!("{}: {}", json(k), n)).collect();
    s += &format!("    \"scenarios_by_kind\": {{{}}},\n", kinds.join(", "));
    s += &format!("    \"scenario_seeds\": {},\n", o.cases);
    s += &format!("    \"scenario_seeds_per_hour\": {},\n", (o.cases as f64 * hour) as u64);
    s += &format!("    \"simulated_runs\": {},\n", c("runs"));
    s += &format!("    \"simulated_runs_per_hour\": {},\n", (c("runs") as f64 * hour) as u64);
    s += &format!("    \"isolated_processes\": {},\n", c("processes"));
    s += &format!("    \"simulated_time\": {{\"scheduler_steps\": {}, \"device_reads\": {}, \"note\": \"the library has no clock: simulated time is counted in scheduler steps and device reads\"}},\n", c("steps"), c("reads"));
    s += &format!("    \"outcomes_drawn\": {},\n", c("draws") + c("outcomes"));
    s += &format!("    \"comparisons\": {},\n", c("comparisons"));
    let faults: Vec<String> =
        KINDS.iter().map(|k| format!("{}: {}", json(k), c(&format!("fault.{}", k)))).collect();
    s += &format!("    \"faults_fired\": {{{}}},\n", faults.join(", "));
    s += &format!("    \"context_switches\": {},\n", c("switches"));
    s += &format!("    \"runs_with_interleaved_tasks\": {},\n", c("interleaved"));
    s += &format!("    \"distinct_histories\": {{\"count\": {}, \"measure\": \"hashes of recorded histories: task switches with their steps, device positions, bits of outcomes\"}},\n", o.distinct);
    let skip = ["runs", "processes", "steps", "reads", "draws", "outcomes", "comparisons", "switches", "interleaved"];
    let other: Vec<String> = o
        .total
        .counts
        .iter()
        .filter(|(k, _)| !k.starts_with("fault.") && !skip.contains(&k.as_str()))
        .map(|(k, n)| format!("{}: {}", json(k), n))
        .collect();
    s += &format!("    \"probes\": {{{}}},\n", other.join(", "));
    s += &format!("    \"digest\": {},\n", json(&format!("{:016x}", o.digest)));
    let k: Vec<String> = known.iter().map(|x| json(x)).collect();
    s += &format!("    \"known_findings_reported\": [{}],\n", k.join(", "));
    s += "    \"components\": {\"real\": [\"all of /repo/src built from the working tree\", \"crates random and special\", \"iterator adapters of core\"], \"stub\": [\"entropy device (a Source under the control of the simulator)\", \"scheduler of tasks (threads parked and released one at a time)\", \"the lock of a shared source\"]}\n";
    s += "  },\n";
    s += "  \"assumptions\": [\"the reference laws of sim/src/reference.rs\", \"a healthy device is a 64-bit mixing generator or the default generator of the library\", \"exploration samples: it is evidence, not proof\"],\n";
    s += &format!("  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", wall, violations);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", property)), s).is_err() {
        harness_error("cannot write the evidence");
    }
}

pub fn check(property: &str, seed: u64, thorough: bool) -> i32 {
    println!("check of {} with seed {} ({})", property, seed, if thorough { "thorough" } else { "quick" });
    let start = Instant::now();
    known::load(&root().join("known_findings.txt"));
    let reported = known::probe(property);
    for line in &reported {
        println!("{}", line);
    }
    let o = explore(property, seed, thorough);
    let wall = start.elapsed().as_secs_f64();
    evidence(property, seed, thorough, &o, wall, o.violation.is_some() as u64, &reported);
    let c = |k: &str| o.total.counts.get(k).cloned().unwrap_or(0);
    println!(
        "{}: {} scenarios, {} runs, {} distinct histories, {} draws, {} comparisons, digest {:016x}, {:.1} s",
        property,
        o.cases,
        c("runs"),
        o.distinct,
        c("draws") + c("outcomes"),
        c("comparisons"),
        o.digest,
        wall
    );
    let Some((world, verdict)) = &o.violation else {
        return 0;
    };
    let world = &World { ..world.clone() };
    checked(verdict.clone(), world);
    let (m, w) = verdict.violation.clone().unwrap();
    println!("found: {}: {}", m, w);
    let (small, v, tried) = minimise(world, verdict);
    // What is reported has been reproduced from its text.
    let parsed = World::parse(&small.text()).unwrap_or_else(|| harness_error("a scenario does not parse"));
    let again = evaluate(&parsed);
    let (small, v) = if again.failed() { (parsed, again) } else { (small, v) };
    let (class, message) = v.violation.clone().unwrap();
    println!("minimised in {} attempts: {}: {}", tried, class, message);
    let path = write_replay(&small, &v);
    println!("VIOLATION property={} replay={}", property, path.display());
    1
}

#[allow(dead_code)]
fn unused(_: &Spec) {}
