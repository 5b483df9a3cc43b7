//! A scenario: distributions, devices, tasks with their operations, and the
//! preemptions.  It can be written to and read from a replay file, and run.

use crate::baton::Baton;
use crate::device::*;
use crate::spec::{each, Spec, Subject};
use crate::verdict::Cursor;
use probability::prelude::*;
use probability::source::Source;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Query {
    Cdf,
    Density,
    Inverse,
    Median,
    Mean,
    Variance,
    Deviation,
    Skewness,
    Kurtosis,
    Entropy,
    Modes,
}

pub const QUERIES: [Query; 11] = [
    Query::Cdf,
    Query::Density,
    Query::Inverse,
    Query::Median,
    Query::Mean,
    Query::Variance,
    Query::Deviation,
    Query::Skewness,
    Query::Kurtosis,
    Query::Entropy,
    Query::Modes,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arg {
    Value(f64),
    /// The last outcome drawn by the task from this distribution, shifted.
    Last(f64),
}

/// Ways in which samplers are consumed.
pub const PATTERNS: usize = 26;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// `n` direct draws.
    Draw { d: usize, n: u32 },
    /// Use of samplers: pattern, count, and step.
    Iter { d: usize, pattern: u8, n: u32, k: u32 },
    Ask { d: usize, q: Query, x: Arg },
    /// Continue with a clone of the object.
    Clone { d: usize },
    /// Continue with a freshly constructed equal object.
    Rebuild { d: usize },
    /// Return the device to where it was `back` units of work ago.
    Rewind { back: u32 },
    /// Collect `n` draws into a Gaussian: mode, scale, offset.
    Fit { d: usize, n: u32, mode: u8, scale: f64, offset: f64 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OnFail {
    Restart,
    Continue,
    Die,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Task {
    pub device: usize,
    pub on_fail: OnFail,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Law {
    /// Draws per chunk, and chunks.
    pub n: u64,
    pub chunks: u64,
    /// Failures per chunk.
    pub failures: u64,
    pub mode: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub property: String,
    pub kind: String,
    pub seed: u64,
    pub specs: Vec<Spec>,
    pub devices: Vec<DeviceCfg>,
    pub tasks: Vec<Task>,
    pub switches: Vec<(u64, usize)>,
    pub law: Option<Law>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Values(Vec<f64>),
    /// A read failed.
    Failed,
    /// The read budget was exhausted.
    Starved,
    /// The library panicked.
    Panicked(String),
}

#[derive(Clone, Debug)]
pub struct Event {
    pub task: usize,
    pub op: usize,
    /// Index of the draw within the operation.
    pub part: u32,
    pub d: usize,
    pub device: usize,
    /// Device positions before and after.
    pub from: u64,
    pub to: u64,
    pub outcome: Outcome,
    pub read_after_failure: bool,
}

#[derive(Default, Debug)]
pub struct History {
    pub events: Vec<Event>,
    pub fired: [u64; 9],
    pub reads: u64,
    pub steps: u64,
    pub switches: u64,
    pub interleaving: u64,
}

impl History {
    pub fn hash(&self) -> u64 {
        let mut h = self.interleaving;
        for e in &self.events {
            h = crate::rng::mix(h ^ ((e.task as u64) << 48) ^ ((e.op as u64) << 20) ^ e.part as u64);
            h = crate::rng::mix(h ^ e.to);
            match &e.outcome {
                Outcome::Values(v) => {
                    for x in v {
                        h = crate::rng::mix(h ^ x.to_bits());
                    }
                }
                Outcome::Failed => h = crate::rng::mix(h ^ 1),
                Outcome::Starved => h = crate::rng::mix(h ^ 2),
                Outcome::Panicked(_) => h = crate::rng::mix(h ^ 3),
            }
        }
        h
    }
}

impl History {
    pub fn encode(&self) -> Vec<u8> {
        let mut out = vec![];
        for v in self.fired.iter().chain(&[self.reads, self.steps, self.switches, self.interleaving]) {
            out.extend_from_slice(&v.to_le_bytes());
        }
        out.extend_from_slice(&encode_events(&self.events));
        out
    }
    pub fn decode(b: &[u8]) -> History {
        let mut c = Cursor(b, 0);
        let mut h = History::default();
        for i in 0..9 {
            h.fired[i] = c.u64();
        }
        h.reads = c.u64();
        h.steps = c.u64();
        h.switches = c.u64();
        h.interleaving = c.u64();
        h.events = decode_events(&b[c.1..]);
        h
    }
}

pub fn encode_events(events: &[Event]) -> Vec<u8> {
    let mut out = vec![];
    for e in events {
        let (tag, n) = match &e.outcome {
            Outcome::Values(v) => (0, v.len()),
            Outcome::Failed => (1, 0),
            Outcome::Starved => (2, 0),
            Outcome::Panicked(s) => (3, s.len()),
        };
        for v in [
            e.task as u64,
            e.op as u64,
            e.part as u64,
            e.d as u64,
            e.device as u64,
            e.from,
            e.to,
            e.read_after_failure as u64,
            tag,
            n as u64,
        ] {
            out.extend_from_slice(&v.to_le_bytes());
        }
        match &e.outcome {
            Outcome::Values(v) => {
                for x in v {
                    out.extend_from_slice(&x.to_bits().to_le_bytes());
                }
            }
            Outcome::Panicked(s) => out.extend_from_slice(s.as_bytes()),
            _ => {}
        }
    }
    out
}

pub fn decode_events(b: &[u8]) -> Vec<Event> {
    let mut events = vec![];
    let mut c = Cursor(b, 0);
    while c.1 < b.len() {
        let task = c.u64() as usize;
        let op = c.u64() as usize;
        let part = c.u64() as u32;
        let d = c.u64() as usize;
        let device = c.u64() as usize;
        let from = c.u64();
        let to = c.u64();
        let read_after_failure = c.u64() == 1;
        let tag = c.u64();
        let n = c.u64() as usize;
        let outcome = match tag {
            0 => Outcome::Values((0..n).map(|_| c.f64()).collect()),
            1 => Outcome::Failed,
            2 => Outcome::Starved,
            _ => {
                let s = String::from_utf8_lossy(&b[c.1..c.1 + n]).to_string();
                c.1 += n;
                Outcome::Panicked(s)
            }
        };
        events.push(Event { task, op, part, d, device, from, to, outcome, read_after_failure });
    }
    events
}

pub trait Real: Copy {
    fn real(self) -> f64;
}
impl Real for f64 {
    #[inline(always)]
    fn real(self) -> f64 {
        self
    }
}
impl Real for u8 {
    #[inline(always)]
    fn real(self) -> f64 {
        self as f64
    }
}
impl Real for usize {
    #[inline(always)]
    fn real(self) -> f64 {
        self as f64
    }
}

/// Consume samplers over `s` following a pattern of iterator operations.
fn iterate<D, V, S>(d: &D, s: &mut S, pattern: u8, n: usize, k: usize) -> Vec<f64>
where
    D: Sample<Value = V>,
    V: Real,
    S: Source,
{
    let mut out = vec![];
    let mut put = |x: V| x.real();
    match pattern {
        0 => {
            let mut it = Independent(d, s);
            for _ in 0..n {
                out.extend(it.next().map(&mut put));
            }
        }
        1 => {
            for _ in 0..n {
                out.extend(Independent(d, &mut *s).next().map(&mut put));
            }
        }
        2 => out = Independent(d, s).take(n).map(put).collect(),
        3 => {
            let mut it = Independent(d, s);
            for _ in 0..n {
                out.extend(it.nth(k).map(&mut put));
            }
        }
        4 => out = Independent(d, s).skip(k).take(n).map(put).collect(),
        5 => out = Independent(d, s).step_by(k + 1).take(n).map(put).collect(),
        6 => {
            let mut it = Independent(d, s);
            out.extend(it.by_ref().take(n).map(&mut put));
            out.extend(it.by_ref().take(k).map(&mut put));
        }
        7 => {
            let mut it = Independent(d, s).peekable();
            for _ in 0..n {
                out.extend(it.peek().map(|x| x.real()));
                out.extend(it.next().map(&mut put));
            }
        }
        8 => {
            let mut c = 0;
            out = Independent(d, s)
                .take_while(|_| {
                    c += 1;
                    c <= n
                })
                .map(put)
                .collect();
        }
        9 => {
            out = Independent(d, s)
                .enumerate()
                .filter(|(i, _)| i % (k + 1) == 0)
                .map(|(_, x)| x.real())
                .take(n)
                .collect()
        }
        10 => out.push(Independent(d, s).take(n).fold(0.0, |a, x| 0.5 * a + x.real())),
        11 => {
            for x in &mut Independent(d, s) {
                out.push(x.real());
                if out.len() >= n {
                    break;
                }
            }
        }
        12 => out = (0..n).zip(Independent(d, s)).map(|(_, x)| x.real()).collect(),
        13 => out = Independent(d, s).zip(0..n).map(|(x, _)| x.real()).collect(),
        14 => {
            let it = Independent(d, s);
            let hint = it.size_hint();
            // An endless sequence: any lower bound, no upper bound.
            out.push(if hint.1.is_none() { 1.0 } else { 0.0 });
        }
        15 => out.extend(Independent(d, s).take(n).last().map(put)),
        16 => {
            let mut c = 0;
            let p = Independent(d, s).position(|_| {
                c += 1;
                c > n
            });
            out.push(p.map_or(-1.0, |p| p as f64));
        }
        17 => {
            let mut c = 0;
            out.push(Independent(d, s).any(|_| {
                c += 1;
                c > n
            }) as u8 as f64);
        }
        18 => {
            out = Independent(d, s)
                .scan(0.0, |a, x| {
                    *a = 0.5 * *a + x.real();
                    Some(*a)
                })
                .fuse()
                .take(n)
                .collect()
        }
        19 => {
            let mut c = 0;
            let x = Independent(d, s).find(|_| {
                c += 1;
                c > n
            });
            out.extend(x.map(&mut put));
        }
        20 => {
            let mut it = Independent(d, s);
            let r: Result<(), ()> = it.try_for_each(|x| {
                out.push(x.real());
                if out.len() > n {
                    Err(())
                } else {
                    Ok(())
                }
            });
            out.push(r.is_err() as u8 as f64);
            out.extend(it.next().map(&mut put));
        }
        21 => {
            let mut c = 0;
            out = Independent(d, s)
                .map_while(|x| {
                    c += 1;
                    if c <= n {
                        Some(x.real())
                    } else {
                        None
                    }
                })
                .collect();
        }
        22 => {
            // Two samplers take turns over the same source.
            for i in 0..n {
                let mut it = Independent(d, &mut *s);
                let m = if i % 2 == 0 { 1 } else { k.min(8) };
                for _ in 0..m {
                    out.extend(it.next().map(&mut put));
                }
            }
        }
        23 => {
            out = Independent(d, s).skip_while(|_| false).inspect(|_| ()).take(n).map(put).collect()
        }
        24 => {
            // Growth by `extend` and by reference.
            let mut it = Independent(d, s);
            let mut v: Vec<V> = Vec::new();
            v.extend(it.by_ref().take(n));
            v.extend((&mut it).take(k));
            out = v.into_iter().map(put).collect();
        }
        _ => {
            let it = Independent(d, s);
            drop(it);
        }
    }
    out
}

/// What the pattern means in terms of direct draws.
pub fn pattern_model(pattern: u8, n: usize, k: usize, draw: &mut dyn FnMut() -> f64) -> Vec<f64> {
    let mut out = vec![];
    match pattern {
        0 | 1 | 2 | 12 => {
            for _ in 0..n {
                out.push(draw());
            }
        }
        3 => {
            for _ in 0..n {
                for _ in 0..k {
                    draw();
                }
                out.push(draw());
            }
        }
        4 => {
            if n > 0 {
                for _ in 0..k {
                    draw();
                }
                for _ in 0..n {
                    out.push(draw());
                }
            }
        }
        5 => {
            for i in 0..n {
                if i > 0 {
                    for _ in 0..k {
                        draw();
                    }
                }
                out.push(draw());
            }
        }
        6 => {
            for _ in 0..n + k {
                out.push(draw());
            }
        }
        7 => {
            for _ in 0..n {
                let x = draw();
                out.push(x);
                out.push(x);
            }
        }
        8 | 13 => {
            for _ in 0..n {
                out.push(draw());
            }
            draw();
        }
        9 => {
            for i in 0..n {
                if i > 0 {
                    for _ in 0..k {
                        draw();
                    }
                }
                out.push(draw());
            }
        }
        10 => {
            let mut a = 0.0;
            for _ in 0..n {
                a = 0.5 * a + draw();
            }
            out.push(a);
        }
        11 => {
            for _ in 0..n.max(1) {
                out.push(draw());
            }
        }
        14 => out.push(1.0),
        15 => {
            let mut last = None;
            for _ in 0..n {
                last = Some(draw());
            }
            out.extend(last);
        }
        16 => {
            for _ in 0..n + 1 {
                draw();
            }
            out.push(n as f64);
        }
        17 => {
            for _ in 0..n + 1 {
                draw();
            }
            out.push(1.0);
        }
        18 => {
            let mut a = 0.0;
            for _ in 0..n {
                a = 0.5 * a + draw();
                out.push(a);
            }
        }
        19 => {
            for _ in 0..n {
                draw();
            }
            out.push(draw());
        }
        20 => {
            for _ in 0..n + 1 {
                out.push(draw());
            }
            out.push(1.0);
            out.push(draw());
        }
        21 => {
            for _ in 0..n {
                out.push(draw());
            }
            draw();
        }
        22 => {
            for i in 0..n {
                let m = if i % 2 == 0 { 1 } else { k.min(8) };
                for _ in 0..m {
                    out.push(draw());
                }
            }
        }
        23 => {
            for _ in 0..n {
                out.push(draw());
            }
        }
        24 => {
            for _ in 0..n + k {
                out.push(draw());
            }
        }
        _ => {}
    }
    out
}

impl Subject {
    pub fn iterate<S: Source>(&self, s: &mut S, pattern: u8, n: usize, k: usize) -> Vec<f64> {
        each!(self, d => iterate(d, s, pattern, n, k))
    }

    pub fn ask(&self, q: Query, x: f64) -> Vec<f64> {
        let one = |v: Option<f64>| v.into_iter().collect();
        match q {
            Query::Cdf => vec![self.cdf(x)],
            Query::Density => vec![self.density(x)],
            Query::Inverse => one(self.inverse(x)),
            Query::Median => one(self.median()),
            Query::Mean => one(self.mean()),
            Query::Variance => one(self.variance()),
            Query::Deviation => one(self.deviation()),
            Query::Skewness => one(self.skewness()),
            Query::Kurtosis => one(self.kurtosis()),
            Query::Entropy => vec![self.entropy()],
            Query::Modes => self.modes().unwrap_or_default(),
        }
    }
}

/// A stream of values with a chosen size hint.
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator<Item = f64>> Iterator for Hinted<I> {
    type Item = f64;
    fn next(&mut self) -> Option<f64> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// A stream that yields again when asked after its end.
struct Resuming<I>(I, (usize, Option<usize>), bool);
impl<I: Iterator<Item = f64>> Iterator for Resuming<I> {
    type Item = f64;
    fn next(&mut self) -> Option<f64> {
        if self.2 {
            return Some(-1e30);
        }
        let x = self.0.next();
        self.2 = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// A stream made of another one, depending on the mode.
pub fn molded(values: &[f64], mode: u8) -> Vec<f64> {
    let mut v = values.to_vec();
    let n = v.len();
    match mode / 10 {
        // Zeros of both signs.
        1 => (0..n).for_each(|i| match i % 5 {
            0 => v[i] = -0.0,
            3 => v[i] = 0.0,
            _ => {}
        }),
        2 => v.sort_by(|a, b| a.partial_cmp(b).unwrap()),
        // Repetitions.
        3 => (0..n).for_each(|i| v[i] = v[i / 3 * 3]),
        // Outliers at both ends.
        4 if n > 3 => {
            v[0] *= 1e6;
            v[n - 1] *= -1e3;
        }
        // All equal but the last.
        5 => (0..n - n.min(1)).for_each(|i| v[i] = v[0]),
        // Whole numbers.
        6 => v.iter_mut().for_each(|x| *x = x.round()),
        // Two clusters, one after the other.
        7 => (n / 2..n).for_each(|i| v[i] = 1e3 * v[0] + v[i]),
        // Much the same everywhere but at the first.
        8 => (1..n).for_each(|i| v[i] = v[n - 1] * (1.0 + 1e-9 * (i % 7) as f64)),
        // Alternating signs.
        9 => (0..n).for_each(|i| if i % 2 == 0 { v[i] = -v[i] }),
        _ => {}
    }
    v
}

/// Fit a Gaussian to values delivered in one of several ways.
pub fn fit_values(values: &[f64], mode: u8) -> (f64, f64) {
    let values = &molded(values, mode)[..];
    let n = values.len();
    let v = values.iter().cloned();
    let g: Gaussian = match mode % 10 {
        0 => values.to_vec().into_iter().collect(),
        1 => Hinted(v, (0, None)).collect(),
        2 => Hinted(v, (n / 2, Some(n * 2))).collect(),
        3 => {
            let h = n / 3;
            values[..h].iter().chain(values[h..].iter()).cloned().collect()
        }
        4 => v.rev().collect(),
        5 => Hinted(v, (0, Some(usize::MAX))).collect(),
        6 => v.filter(|x| x.is_finite()).collect(),
        // Streams that would go on after their end.
        8 => Resuming(v, (0, None), false).collect(),
        9 => Resuming(v, (n, Some(n)), false).collect(),
        _ => {
            let mut i = 0;
            core::iter::from_fn(|| {
                i += 1;
                values.get(i - 1).cloned()
            })
            .collect()
        }
    };
    (g.mu(), g.sigma())
}

fn fit_live<S: Source>(d: &Subject, s: &mut S, n: usize, a: f64, b: f64) -> (f64, f64) {
    let g: Gaussian =
        each!(d, d => Independent(d, s).take(n).map(|x| a * x.real() + b).collect());
    (g.mu(), g.sigma())
}

/// Share an object between threads that the baton serialises.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

enum Handle {
    Shared(usize),
    Own(Box<Subject>),
}

pub fn describe(p: Box<dyn Any + Send>) -> Outcome {
    if p.is::<SimFailure>() {
        Outcome::Failed
    } else if p.is::<SimBudget>() {
        Outcome::Starved
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Outcome::Panicked(s.to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        Outcome::Panicked(s.clone())
    } else {
        Outcome::Panicked("an unknown panic".to_string())
    }
}

pub struct Options {
    /// Reads allowed per draw once healthy (0: unlimited).
    pub budget: u64,
}

/// One unit of work of an operation against a device.
pub fn perform(op: &Op, s: &Subject, dev: &mut Device) -> Vec<f64> {
    match *op {
        Op::Draw { .. } => vec![s.draw(dev)],
        Op::Iter { pattern, n, k, .. } => s.iterate(dev, pattern, n as usize, k as usize),
        Op::Fit { n, mode, scale, offset, .. } => {
            let (m, v) = if mode == 0 {
                fit_live(s, dev, n as usize, scale, offset)
            } else {
                let v: Vec<f64> = (0..n).map(|_| scale * s.draw(dev) + offset).collect();
                fit_values(&v, mode)
            };
            vec![m, v]
        }
        _ => vec![],
    }
}

/// A task: its handles, and its way to a device.
struct Runner<'a> {
    world: &'a World,
    id: usize,
    shared: &'a Share<Vec<Subject>>,
    handles: Vec<Handle>,
    last: Vec<f64>,
    trail: Vec<u64>,
    events: &'a Mutex<Vec<Event>>,
    options: &'a Options,
}

impl<'a> Runner<'a> {
    fn subject(&self, d: usize) -> &Subject {
        match self.handles[d] {
            Handle::Shared(i) => &self.shared.0[i],
            Handle::Own(ref s) => s,
        }
    }

    fn log(&self, e: Event) {
        self.events.lock().unwrap().push(e);
    }

    /// Run one unit of work against the device with restarts; false to stop.
    fn attempt(
        &mut self,
        dev: &mut Device,
        op: usize,
        part: u32,
        d: usize,
    ) -> bool {
        let kind = self.world.tasks[self.id].ops[op].clone();
        let index = self.world.tasks[self.id].device;
        for _ in 0..5000 {
            let from = dev.pos;
            if self.options.budget > 0 {
                let healed = dev.healed_at().max(from);
                let draws = match kind {
                    Op::Iter { n, k, .. } => (n as u64 + 1) * (k as u64 + 1),
                    Op::Fit { n, .. } => 1 + n as u64,
                    _ => 1,
                };
                dev.set_limit(healed.saturating_add(self.options.budget.saturating_mul(draws)));
            }
            dev.failing = false;
            dev.read_after_failure = false;
            crate::proc::progress(self.id as u64, op as u64, part as u64);
            let result = {
                let subject = self.subject(d);
                catch_unwind(AssertUnwindSafe(|| perform(&kind, subject, dev)))
            };
            let outcome = match result {
                Ok(v) => Outcome::Values(v),
                Err(p) => describe(p),
            };
            let raf = dev.read_after_failure || (dev.failing && outcome != Outcome::Failed);
            dev.failing = false;
            let e = Event {
                task: self.id,
                op,
                part,
                d,
                device: index,
                from,
                to: dev.pos,
                outcome: outcome.clone(),
                read_after_failure: raf,
            };
            self.log(e);
            match outcome {
                Outcome::Values(v) => {
                    if let Some(&x) = v.last() {
                        self.last[d] = x;
                    }
                    if self.trail.len() < 1 << 16 {
                        self.trail.push(from);
                    }
                    return true;
                }
                Outcome::Failed => match self.world.tasks[self.id].on_fail {
                    OnFail::Restart => dev.seek(from),
                    OnFail::Continue => {}
                    OnFail::Die => return false,
                },
                _ => return false,
            }
        }
        true
    }

    fn clone_handle(&mut self, d: usize) {
        let c = self.subject(d).clone();
        self.handles[d] = Handle::Own(Box::new(c));
    }

    fn rebuild(&mut self, d: usize) {
        self.handles[d] = Handle::Own(Box::new(self.world.specs[d].build()));
    }

    /// Ask for a reported quantity; the argument is logged before the answer.
    fn ask(&mut self, op: usize, d: usize, q: Query, x: Arg) -> bool {
        let x = match x {
            Arg::Value(x) => x,
            Arg::Last(dx) => self.last[d] + dx,
        };
        // Masses are defined for outcomes only.
        let x = match (q, &self.world.specs[d]) {
            (Query::Density, Spec::Bernoulli { .. } | Spec::BernoulliFailure { .. }) => x.round().clamp(0.0, 1.0),
            (Query::Density, Spec::Categorical { p }) => x.round().clamp(0.0, p.len() as f64 - 1.0),
            _ => x,
        };
        crate::proc::progress(self.id as u64, op as u64, 0);
        let r = {
            let s = self.subject(d);
            catch_unwind(AssertUnwindSafe(|| s.ask(q, x)))
        };
        let outcome = match r {
            Ok(mut v) => {
                v.insert(0, x);
                Outcome::Values(v)
            }
            Err(p) => describe(p),
        };
        let alive = matches!(outcome, Outcome::Values(_));
        self.log(Event {
            task: self.id,
            op,
            part: 0,
            d,
            device: usize::MAX,
            from: 0,
            to: 0,
            outcome,
            read_after_failure: false,
        });
        alive
    }

    fn run(&mut self, dev: &Share<*mut Device>, baton: Option<&Baton>, shared_device: bool) {
        let index = self.world.tasks[self.id].device;
        let ops = self.world.tasks[self.id].ops.clone();
        for (i, op) in ops.iter().enumerate() {
            if let Some(b) = baton {
                b.yield_point(self.id, 0);
            }
            let id = self.id;
            // Exclusive use of a shared device for the duration of a draw.
            let lock = |on: bool| {
                if let (Some(b), true) = (baton, shared_device) {
                    if on {
                        b.acquire(id, index);
                        unsafe { (*dev.0).set_task(id) };
                    } else {
                        b.release(index);
                    }
                }
            };
            let alive = match *op {
                Op::Draw { d, n } => {
                    let mut alive = true;
                    for part in 0..n {
                        lock(true);
                        let device = unsafe { &mut *dev.0 };
                        alive = self.attempt(device, i, part, d);
                        lock(false);
                        if !alive {
                            break;
                        }
                        if shared_device {
                            if let Some(b) = baton {
                                b.yield_point(self.id, 0);
                            }
                        }
                    }
                    alive
                }
                Op::Iter { d, .. } | Op::Fit { d, .. } => {
                    lock(true);
                    let device = unsafe { &mut *dev.0 };
                    let alive = self.attempt(device, i, 0, d);
                    lock(false);
                    alive
                }
                Op::Rewind { back } => {
                    if !shared_device && !self.trail.is_empty() {
                        let n = self.trail.len();
                        let at = self.trail[n - (back as usize).clamp(1, n)];
                        unsafe { (*dev.0).seek(at) };
                    }
                    true
                }
                Op::Ask { d, q, x } => self.ask(i, d, q, x),
                Op::Clone { d } => {
                    self.clone_handle(d);
                    true
                }
                Op::Rebuild { d } => {
                    self.rebuild(d);
                    true
                }
            };
            if !alive {
                return;
            }
        }
    }
}

/// Execute units of work one after another on one thread and one device: the
/// sequential model of tasks that share a device.
pub fn run_script(world: &World, options: &Options, script: &[(usize, usize, u32)]) -> Vec<Event> {
    let shared = Share(world.specs.iter().map(|s| s.build()).collect::<Vec<_>>());
    let start: Vec<f64> = world.specs.iter().map(|s| s.reference().quantile(0.5)).collect();
    let events = Mutex::new(vec![]);
    let mut devices: Vec<Device> = world.devices.iter().map(Device::new).collect();
    let mut runners: Vec<Runner> = (0..world.tasks.len())
        .map(|id| Runner {
            world,
            id,
            shared: &shared,
            handles: (0..world.specs.len()).map(Handle::Shared).collect(),
            last: start.clone(),
            trail: vec![],
            events: &events,
            options,
        })
        .collect();
    let mut applied = vec![0; world.tasks.len()];
    for &(t, op, part) in script {
        let runner = &mut runners[t];
        while applied[t] < op {
            match world.tasks[t].ops[applied[t]] {
                Op::Clone { d } => runner.clone_handle(d),
                Op::Rebuild { d } => runner.rebuild(d),
                _ => {}
            }
            applied[t] += 1;
        }
        match world.tasks[t].ops[op] {
            Op::Draw { d, .. } | Op::Iter { d, .. } | Op::Fit { d, .. } => {
                runner.attempt(&mut devices[world.tasks[t].device], op, part, d);
            }
            Op::Ask { d, q, x } => {
                runner.ask(op, d, q, x);
            }
            _ => {}
        }
    }
    drop(runners);
    events.into_inner().unwrap()
}

/// Run a scenario.  Only the named task runs if `solo` is given.
pub fn run(world: &World, options: &Options, solo: Option<usize>) -> History {
    let shared = Share(world.specs.iter().map(|s| s.build()).collect::<Vec<_>>());
    let start: Vec<f64> = world.specs.iter().map(|s| s.reference().quantile(0.5)).collect();
    let events = Mutex::new(vec![]);
    let active: Vec<usize> = (0..world.tasks.len()).filter(|&t| solo.map_or(true, |s| s == t)).collect();
    let mut history = History::default();
    let fresh = |id: usize| Runner {
        world,
        id,
        shared: &shared,
        handles: (0..world.specs.len()).map(Handle::Shared).collect(),
        last: start.clone(),
            trail: vec![],
        events: &events,
        options,
    };
    let mut devices: Vec<Device>;
    if active.len() <= 1 {
        devices = world.devices.iter().map(Device::new).collect();
        for &t in &active {
            let dev = Share(&mut devices[world.tasks[t].device] as *mut Device);
            fresh(t).run(&dev, None, false);
        }
    } else {
        let baton =
            Arc::new(Baton::new(world.tasks.len(), world.devices.len(), &world.switches));
        devices = world
            .devices
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let owner = world.tasks.iter().position(|t| t.device == i).unwrap_or(0);
                Device::new(c).gated(baton.clone(), owner)
            })
            .collect();
        let used: Vec<usize> = (0..world.devices.len())
            .map(|i| world.tasks.iter().filter(|t| t.device == i).count())
            .collect();
        let pointers: Vec<Share<*mut Device>> =
            devices.iter_mut().map(|d| Share(d as *mut Device)).collect();
        std::thread::scope(|scope| {
            for &t in &active {
                let mut runner = fresh(t);
                let dev = &pointers[world.tasks[t].device];
                let many = used[world.tasks[t].device] > 1;
                let baton = &baton;
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(scope, move || {
                        baton.enter(t);
                        runner.run(dev, Some(baton), many);
                        baton.leave(t);
                    })
                    .unwrap();
            }
        });
        let (steps, switches, hash) = baton.summary();
        history.steps = steps;
        history.switches = switches;
        history.interleaving = hash;
    }
    for d in &devices {
        for i in 0..9 {
            history.fired[i] += d.fired[i];
        }
    }
    history.events = events.into_inner().unwrap();
    history.reads = history
        .events
        .iter()
        .map(|e| e.to.saturating_sub(e.from) + (e.outcome == Outcome::Failed) as u64)
        .sum();
    if history.steps == 0 {
        history.steps = history.reads + history.events.len() as u64;
    }
    history
}

// ---------------------------------------------------------------------------
// Text form.

fn num(x: f64) -> String {
    format!("{:?}", x)
}

impl World {
    pub fn text(&self) -> String {
        let mut s = String::from("sim 1\n");
        s += &format!("property {}\nkind {}\nseed {}\n", self.property, self.kind, self.seed);
        for p in &self.specs {
            s += &format!("spec {}", p.name());
            for v in p.parameters() {
                s += &format!(" {}", num(v));
            }
            s += "\n";
        }
        for d in &self.devices {
            let stream = match &d.stream {
                Stream::Mix(x) => format!("mix {}", x),
                Stream::Library(x) => format!("library {}", x),
                Stream::Rare(x) => format!("rare {}", x),
                Stream::Tilt(x) => format!("tilt {}", x),
                Stream::Strata(x) => format!("strata {}", x),
                Stream::Tape(t, x) => {
                    let t: Vec<String> = t.iter().map(|w| format!("{:x}", w)).collect();
                    format!("tape {} {}", x, t.join(" "))
                }
            };
            let flavour = match d.flavour {
                Flavour::Word => "word",
                Flavour::Half => "half",
            };
            s += &format!("device {} {}\n", flavour, stream);
            for f in &d.faults {
                s += &format!(
                    "fault {} {} {} {}\n",
                    f.at,
                    f.len,
                    KINDS[f.kind.index()],
                    f.kind.argument()
                );
            }
        }
        for t in &self.tasks {
            let fail = match t.on_fail {
                OnFail::Restart => "restart",
                OnFail::Continue => "continue",
                OnFail::Die => "die",
            };
            s += &format!("task {} {}\n", t.device, fail);
            for op in &t.ops {
                s += &match *op {
                    Op::Draw { d, n } => format!("op draw {} {}\n", d, n),
                    Op::Iter { d, pattern, n, k } => format!("op iter {} {} {} {}\n", d, pattern, n, k),
                    Op::Ask { d, q, x } => {
                        let q = QUERIES.iter().position(|&p| p == q).unwrap();
                        match x {
                            Arg::Value(x) => format!("op ask {} {} value {}\n", d, q, num(x)),
                            Arg::Last(x) => format!("op ask {} {} last {}\n", d, q, num(x)),
                        }
                    }
                    Op::Clone { d } => format!("op clone {}\n", d),
                    Op::Rewind { back } => format!("op rewind {}\n", back),
                    Op::Rebuild { d } => format!("op rebuild {}\n", d),
                    Op::Fit { d, n, mode, scale, offset } => {
                        format!("op fit {} {} {} {} {}\n", d, n, mode, num(scale), num(offset))
                    }
                };
            }
        }
        if !self.switches.is_empty() {
            s += "switches";
            for (a, b) in &self.switches {
                s += &format!(" {}:{}", a, b);
            }
            s += "\n";
        }
        if let Some(l) = &self.law {
            s += &format!("law {} {} {} {}\n", l.n, l.chunks, l.failures, l.mode);
        }
        s += "end\n";
        s
    }

    pub fn parse(text: &str) -> Option<World> {
        let mut w = World {
            property: String::new(),
            kind: String::new(),
            seed: 0,
            specs: vec![],
            devices: vec![],
            tasks: vec![],
            switches: vec![],
            law: None,
        };
        for line in text.lines() {
            if line.starts_with('#') {
                continue;
            }
            let p: Vec<&str> = line.split_whitespace().collect();
            if p.is_empty() {
                continue;
            }
            let f = |i: usize| p.get(i).and_then(|x| x.parse::<f64>().ok());
            let u = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok());
            match p[0] {
                "sim" => {}
                "property" => w.property = p.get(1)?.to_string(),
                "kind" => w.kind = p.get(1)?.to_string(),
                "seed" => w.seed = u(1)?,
                "spec" => {
                    let v: Vec<f64> = p[2..].iter().filter_map(|x| x.parse().ok()).collect();
                    w.specs.push(Spec::from_parts(p.get(1)?, &v)?);
                }
                "device" => {
                    let flavour = if *p.get(1)? == "half" { Flavour::Half } else { Flavour::Word };
                    let stream = match *p.get(2)? {
                        "mix" => Stream::Mix(u(3)?),
                        "library" => Stream::Library(u(3)?),
                        "rare" => Stream::Rare(u(3)?),
                        "tilt" => Stream::Tilt(u(3)?),
                        "strata" => Stream::Strata(u(3)?),
                        "tape" => {
                            let t: Vec<u64> =
                                p[4..].iter().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
                            Stream::Tape(Arc::new(t), u(3)?)
                        }
                        _ => return None,
                    };
                    w.devices.push(DeviceCfg { stream, flavour, faults: vec![] });
                }
                "fault" => {
                    let kind = Kind::from_parts(p.get(3)?, u(4)?)?;
                    w.devices.last_mut()?.faults.push(Fault { at: u(1)?, len: u(2)?, kind });
                }
                "task" => {
                    let on_fail = match *p.get(2)? {
                        "continue" => OnFail::Continue,
                        "die" => OnFail::Die,
                        _ => OnFail::Restart,
                    };
                    w.tasks.push(Task { device: u(1)? as usize, on_fail, ops: vec![] });
                }
                "op" => {
                    let d = u(2)? as usize;
                    let op = match p[1] {
                        "draw" => Op::Draw { d, n: u(3)? as u32 },
                        "iter" => Op::Iter {
                            d,
                            pattern: u(3)? as u8,
                            n: u(4)? as u32,
                            k: u(5)? as u32,
                        },
                        "ask" => {
                            let q = QUERIES[u(3)? as usize];
                            let x = if p[4] == "last" { Arg::Last(f(5)?) } else { Arg::Value(f(5)?) };
                            Op::Ask { d, q, x }
                        }
                        "clone" => Op::Clone { d },
                        "rewind" => Op::Rewind { back: d as u32 },
                        "rebuild" => Op::Rebuild { d },
                        "fit" => Op::Fit {
                            d,
                            n: u(3)? as u32,
                            mode: u(4)? as u8,
                            scale: f(5)?,
                            offset: f(6)?,
                        },
                        _ => return None,
                    };
                    w.tasks.last_mut()?.ops.push(op);
                }
                "switches" => {
                    for x in &p[1..] {
                        let (a, b) = x.split_once(':')?;
                        w.switches.push((a.parse().ok()?, b.parse().ok()?));
                    }
                }
                "law" => {
                    w.law = Some(Law { n: u(1)?, chunks: u(2)?, failures: u(3)?, mode: u(4)? as u8 })
                }
                "end" => {}
                _ => return None,
            }
        }
        Some(w)
    }
}
