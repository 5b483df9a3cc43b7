//! Judges that compare histories and answers with the reference model.

use crate::device::*;
use crate::judge::*;
use crate::reference::{Moments, Reference};
use crate::rng::{derive, mix, Rng};
use crate::spec::{each, Spec, Subject};
use crate::stats::*;
use crate::verdict::{Cursor, Verdict};
use crate::world::*;
use probability::prelude::*;
use probability::source::Source;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Which known findings are listed (and only those are tolerated).
pub static mut KNOWN: [bool; 3] = [false; 3];
pub fn known(i: usize) -> bool {
    unsafe { KNOWN[i - 1] }
}

/// K1: the error of the eleventh entry of the table of Stirling errors.
pub const K1_DELTA: f64 = 1.8369189342036158e-4;

pub struct Model {
    pub spec: Spec,
    pub r: Reference,
    pub moments: Option<Moments>,
    entropy: std::cell::OnceCell<f64>,
}

/// The regimes of the binomial inverse.
#[derive(PartialEq, Clone, Copy)]
pub enum Regime {
    Exact,
    Newton,
    Normal,
}

impl Model {
    pub fn new(spec: &Spec) -> Model {
        let r = spec.reference();
        Model { spec: spec.clone(), moments: r.moments(), r, entropy: Default::default() }
    }

    pub fn regime(&self) -> Regime {
        match self.r {
            Reference::Binomial { n, p, q } if n >= 1000 => {
                if n as f64 * p * q > 80.0 {
                    Regime::Normal
                } else {
                    Regime::Newton
                }
            }
            _ => Regime::Exact,
        }
    }

    /// Rounding of cumulative probabilities.
    fn cdf_tolerance(&self) -> f64 {
        match self.r {
            Reference::Binomial { n, .. } => 1e-12 + 4e-15 * n as f64,
            Reference::Gamma { k, .. } => 1e-12 + 4e-15 * k,
            Reference::Beta { alpha, beta, .. } => 1e-12 + 5e-15 * (alpha + beta),
            _ => 1e-12,
        }
    }

    /// Rounding of probabilities in the quantiles of discrete families.
    pub fn quantile_tolerance(&self) -> f64 {
        match self.r {
            Reference::Bernoulli { .. } => 0.0,
            Reference::Categorical { ref p, .. } => {
                if p.iter().all(|x| (x * 64.0).fract() == 0.0) {
                    0.0
                } else {
                    4e-16 * p.len() as f64
                }
            }
            Reference::Binomial { n, .. } => match self.regime() {
                Regime::Exact => 1e-12,
                Regime::Newton | Regime::Normal => 1e-12 + 4e-15 * n as f64,
            },
            _ => 0.0,
        }
    }

    fn k1(&self, x: f64) -> f64 {
        if let Reference::Binomial { n, .. } = self.r {
            let n = n as f64;
            if x > 0.0 && x < n {
                let hit = |y: f64| (y == 11.0) as i32 as f64;
                return (K1_DELTA * (hit(n) - hit(x) - hit(n - x))).exp();
            }
        }
        1.0
    }

    pub fn entropy(&self) -> f64 {
        *self.entropy.get_or_init(|| match self.r {
            Reference::Binomial { n, .. } if known(1) => {
                let m = self.moments.as_ref().unwrap();
                let sd = m.variance.sqrt();
                let lo = (m.mean - 45.0 * sd - 60.0).max(0.0).floor() as usize;
                let hi = (m.mean + 45.0 * sd + 60.0).min(n as f64).ceil() as usize;
                -(lo..=hi)
                    .map(|k| {
                        let p = self.r.density(k as f64) * self.k1(k as f64);
                        if p > 0.0 {
                            p * p.ln()
                        } else {
                            0.0
                        }
                    })
                    .sum::<f64>()
            }
            _ => self.r.entropy(),
        })
    }

    fn blur(&self, x: f64) -> f64 {
        if self.r.discrete() || !x.is_finite() {
            0.0
        } else {
            (16.0 * f64::EPSILON * self.r.magnitude().max(x.abs())).max(1e-322)
        }
    }

    /// The normal approximation of the binomial quantile can be off by one when
    /// the probability is within this fraction of a mass of a boundary.
    pub fn slop(&self, k: f64) -> f64 {
        match self.r {
            Reference::Binomial { n, p, q } if self.regime() == Regime::Normal => {
                let n = n as f64;
                let sd = (n * p * q).sqrt();
                let w = ((k - n * p).abs() + 1.0) / sd;
                let mass = [-1.0, 0.0, 1.0].iter().map(|d| self.r.density((k + d).clamp(0.0, n))).fold(0.0, f64::max);
                // The expansion has terms up to sd^-4; what it drops was measured
                // to be at most a quarter of this.
                let dropped = (9.0 / sd).min(1.0).powi(5);
                (1e-6 + (1e-5 + 0.03 * (w / 7.0).powi(6)) * dropped) * mass + 4e-16
            }
            _ => 0.0,
        }
    }

    /// Is `k` the quantile of `u`?
    pub fn quantile_ok(&self, u: f64, k: f64, tol: f64) -> bool {
        if !(k >= 0.0 && k <= self.r.support().1 && k == k.floor()) {
            return false;
        }
        let tol = tol + self.slop(k);
        let (below, _) = self.r.cdf(k - 1.0);
        let (at, over) = self.r.cdf(k);
        let ok = |below: f64, at: f64, over: f64| {
            (below <= u + tol) && (at >= u - tol || over <= (1.0 - u) + tol)
        };
        // "Smallest" excludes a point whose predecessor already suffices.
        if tol == 0.0 && u > 0.0 {
            return below < u && at >= u;
        }
        if ok(below, at, over) {
            return true;
        }
        if known(2) && self.regime() == Regime::Newton && k + 1.0 <= self.r.support().1 {
            // K2: the iterations stop within half of the mass of an outcome.
            let (at, over) = self.r.cdf(k);
            let short = if u < 0.5 { u - at } else { over - (1.0 - u) };
            return short >= -tol && short <= 0.5 * self.r.density(k) * (1.0 + 1e-6) + tol;
        }
        false
    }

    /// Compare a reported quantity with the textbook.
    pub fn check(&self, q: Query, x: f64, a: &[f64]) -> Result<(), String> {
        let r = &self.r;
        let e = self.blur(x);
        let near = |v: f64, w: f64, tol: f64| -> Result<(), String> {
            if (v - w).abs() <= tol || v == w {
                Ok(())
            } else {
                Err(format!("{:?}({:e}) = {:e} instead of {:e}", q, x, v, w))
            }
        };
        match q {
            Query::Cdf => {
                let v = a[0];
                let t = self.cdf_tolerance();
                let (lo, hi) = (r.cdf(x - e).0, r.cdf(x + e).0);
                // Lower tails that are not differences are relatively precise.
                let sharp = matches!(
                    r,
                    Reference::Exponential { .. } | Reference::Laplace { .. } | Reference::Logistic { .. }
                );
                let small = sharp && hi < 0.5 && !(v >= lo * (1.0 - 1e-11) - 1e-300 && v <= hi * (1.0 + 1e-11) + 1e-300);
                if v >= lo - t && v <= hi + t && !small {
                    Ok(())
                } else {
                    Err(format!("the distribution function at {:e} is {:e} instead of {:e}", x, v, r.cdf(x).0))
                }
            }
            Query::Density => {
                let v = a[0];
                if r.discrete() && (x < 0.0 || x != x.floor()) {
                    return Ok(());
                }
                let mut d = [r.density(x - e), r.density(x), r.density(x + e)];
                if known(1) {
                    let f = self.k1(x);
                    d.iter_mut().for_each(|d| *d *= f);
                }
                let lo = d.iter().cloned().fold(f64::INFINITY, f64::min);
                let mut hi = d.iter().cloned().fold(0.0, f64::max);
                // An end of the support within rounding.
                let (a, b) = r.support();
                for end in [a, b] {
                    if end.is_finite() && (x - end).abs() <= e {
                        hi = hi.max(r.density(end));
                    }
                }
                let tol = match *r {
                    // Powers of rounded complements.
                    Reference::Binomial { n, .. } => 1e-9 + 4e-16 * n as f64,
                    _ => 1e-9,
                };
                if v >= lo * (1.0 - tol) - 1e-290 && v <= hi * (1.0 + tol) + 1e-290 {
                    Ok(())
                } else {
                    Err(format!("the density or mass at {:e} is {:e} instead of {:e}", x, v, d[1]))
                }
            }
            Query::Inverse => {
                let Some(&v) = a.first() else { return Ok(()) };
                self.check_inverse(x, v)
            }
            Query::Median => {
                let Some(&m) = a.first() else { return Ok(()) };
                let tol = match self.spec {
                    Spec::Beta { alpha, beta, .. } if alpha > 1.0 && beta > 1.0 && alpha != beta => 0.02,
                    _ => self.quantile_tolerance().max(1e-9),
                };
                let e = self.blur(m);
                if r.cdf_left(m - e).0 <= 0.5 + tol && r.cdf(m + e).0 >= 0.5 - tol {
                    return Ok(());
                }
                if known(2) && self.regime() == Regime::Newton && self.quantile_ok(0.5, m, tol) {
                    return Ok(());
                }
                if !r.discrete() && self.check_inverse(0.5, m).is_ok() {
                    return Ok(());
                }
                if known(3) {
                    if let Reference::Categorical { .. } = r {
                        // K3: half below the boundary at which half is reached.
                        let k = m + 0.5;
                        if k == k.floor() && k >= 1.0 && (r.cdf(k).0 - 0.5).abs() <= 1e-15 {
                            return Ok(());
                        }
                    }
                }
                Err(format!(
                    "the median is {:e} with {:.6} of the law below and {:.6} above",
                    m,
                    r.cdf_left(m).0,
                    r.cdf(m).1
                ))
            }
            Query::Mean | Query::Variance | Query::Deviation | Query::Skewness | Query::Kurtosis => {
                let (Some(m), Some(&v)) = (&self.moments, a.first()) else { return Ok(()) };
                let sd = m.variance.sqrt();
                match q {
                    Query::Mean => near(v, m.mean, 1e-10 * sd + 1e-14 * m.mean.abs() + 8.0 * f64::EPSILON * r.magnitude()),
                    Query::Variance => near(v, m.variance, 1e-9 * m.variance + 1e-24 * m.mean * m.mean),
                    Query::Deviation => near(v, sd, 1e-9 * sd + 1e-12 * m.mean.abs()),
                    _ if !(m.variance > 1e-12 * m.mean * m.mean) || !(m.variance > 0.0) => Ok(()),
                    Query::Skewness => near(v, m.skewness, 1e-9 * (1.0 + m.skewness.abs())),
                    _ => near(v, m.kurtosis, 1e-9 * (1.0 + m.kurtosis.abs())),
                }
            }
            Query::Entropy => {
                let w = self.entropy();
                let tol = match r {
                    Reference::Binomial { n, p, q } => {
                        let v = *n as f64 * p * q;
                        if *n > 10000 && v > 80.0 {
                            0.1 / v
                        } else {
                            1e-10 * (1.0 + w.abs()) + 1e-15 * *n as f64
                        }
                    }
                    _ => 1e-9 * (1.0 + w.abs()),
                };
                near(a[0], w, tol)
            }
            Query::Modes => self.check_modes(a),
        }
    }

    fn check_inverse(&self, u: f64, v: f64) -> Result<(), String> {
        let r = &self.r;
        let bad = || Err(format!("the quantile of {:e} is {:e} instead of {:e}", u, v, r.quantile(u)));
        if r.discrete() {
            let tol = self.quantile_tolerance();
            if u == 1.0 {
                // Everything at or below, up to rounding.
                let (_, over) = r.cdf(v);
                return if v <= r.support().1 && over <= tol.max(1e-15) { Ok(()) } else { bad() };
            }
            return if self.quantile_ok(u, v, tol) { Ok(()) } else { bad() };
        }
        if v.is_nan() {
            return bad();
        }
        let (lo, hi) = r.support();
        if u == 0.0 {
            let x = lo;
            let e = self.blur(x);
            return if v == x || (v - x).abs() <= e { Ok(()) } else if r.cdf(v + e).0 <= 4e-16 { Ok(()) } else { bad() };
        }
        if u == 1.0 {
            let x = hi;
            let e = self.blur(x);
            return if v == x || (v - x).abs() <= e { Ok(()) } else if r.cdf(v - e).1 <= 4e-16 { Ok(()) } else { bad() };
        }
        let e = self.blur(v);
        let (f0, s0) = r.cdf(v - e);
        let (f1, s1) = r.cdf(v + e);
        let sharp = matches!(
            r,
            Reference::Gaussian { .. }
                | Reference::Lognormal { .. }
                | Reference::Laplace { .. }
                | Reference::Logistic { .. }
                | Reference::Exponential { .. }
        );
        let t = 1e-9 * u.min(1.0 - u) + if sharp && u < 0.5 { 6e-309 } else { 4e-16 };
        let ok = if u < 0.5 {
            f0 <= u + t && f1 >= u - t
        } else {
            s1 <= (1.0 - u) + t && s0 >= (1.0 - u) - t
        };
        if ok {
            return Ok(());
        }
        if let Reference::Beta { alpha, beta, a, b } = r {
            // Iterative solution in either coordinate.
            let w = r.quantile(u);
            let t = if alpha + beta > 150.0 { 1e-10 } else { 1e-11 };
            if (v - w).abs() <= t * (b - a) || (r.cdf(v).0 - u).abs() <= 2e-9 {
                return Ok(());
            }
        }
        bad()
    }

    fn check_modes(&self, a: &[f64]) -> Result<(), String> {
        let r = &self.r;
        let (lo, hi) = r.support();
        for &m in a {
            let e = self.blur(m);
            if !(m >= lo - e && m <= hi + e) || (r.discrete() && m != m.floor()) {
                return Err(format!("the mode {:e} is outside of the support", m));
            }
        }
        match r {
            Reference::Binomial { n, p, .. } => {
                // Candidates by mass; exact ties when (n + 1) p is an integer.
                let t = (*n as f64 + 1.0) * p;
                let k = t.round();
                let exact = (*n as f64 + 1.0).mul_add(*p, -k) == 0.0;
                let close = (t - k).abs() <= 1e-9 * (1.0 + t);
                let mut all: Vec<f64> = if close {
                    vec![k - 1.0, k]
                } else {
                    vec![t.floor()]
                };
                all.retain(|&x| x >= 0.0 && x <= *n as f64);
                let wrong = a.iter().any(|m| !all.contains(m))
                    || a.is_empty()
                    || (exact || !close) && all.iter().any(|m| !a.contains(m))
                    || (a.len() > 1 && a[0] == a[1]);
                if wrong {
                    return Err(format!("the modes are {:?} instead of {:?}", a, all));
                }
            }
            Reference::Bernoulli { .. } | Reference::Categorical { .. } => {
                let w = r.modes();
                let mut s = a.to_vec();
                s.sort_by(|x, y| x.partial_cmp(y).unwrap());
                if s != w {
                    return Err(format!("the modes are {:?} instead of {:?}", a, w));
                }
            }
            Reference::Uniform { .. } => {}
            Reference::Beta { alpha, beta, .. } if *alpha == 1.0 && *beta == 1.0 => {}
            _ => {
                let w = r.modes();
                let e = |x: f64| 1e-12 * r.scale() + 16.0 * f64::EPSILON * r.magnitude().max(x.abs());
                let hit = |x: f64, v: &[f64]| v.iter().any(|y| (x - y).abs() <= e(x));
                let ok = a.iter().all(|&x| hit(x, &w)) && w.iter().all(|&x| hit(x, a)) && a.len() == w.len();
                if !ok {
                    return Err(format!("the modes are {:?} instead of {:?}", a, w));
                }
            }
        }
        Ok(())
    }
}

/// Shares of outcomes that the normal approximation of the binomial quantile
/// may move between neighbours.
pub const NORMAL_TOLERANCE: f64 = 1e-5;

/// Queries of a property.
pub fn queries(property: &str) -> &'static [Query] {
    match property {
        "C12" => &[Query::Cdf, Query::Density],
        "C13" => &[Query::Inverse, Query::Median],
        "C14" => &[Query::Mean, Query::Variance, Query::Deviation, Query::Skewness, Query::Kurtosis],
        "C15" => &[Query::Entropy, Query::Modes],
        _ => &QUERIES,
    }
}

/// C12 to C15: answers given during a history agree with the model, do not
/// depend on when they are asked, and do not change draws.
pub fn ask(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    if v.failed() {
        return v;
    }
    let models: Vec<Model> = world.specs.iter().map(Model::new).collect();
    let mine = queries(&world.property);
    let mut memo: HashMap<(usize, usize, u64), &Event> = HashMap::new();
    for e in &h.events {
        let Op::Ask { d, q, .. } = world.tasks[e.task].ops[e.op] else { continue };
        let Outcome::Values(values) = &e.outcome else { continue };
        let (x, a) = (values[0], &values[1..]);
        let argument = matches!(q, Query::Cdf | Query::Density | Query::Inverse);
        let key = (d, q as usize, if argument { x.to_bits() } else { 0 });
        let first = memo.entry(key).or_insert(e);
        let Outcome::Values(before) = &first.outcome else { continue };
        if !same(&before[1..], a) {
            v.fail(
                "unstable",
                format!("{} after {}", describe_event(world, e), describe_event(world, first)),
            );
            return v;
        }
        if mine.contains(&q) {
            v.add("comparisons", 1);
            if let Err(m) = models[d].check(q, x, a) {
                v.fail("answer", format!("{}: {}", m, describe_event(world, e)));
                return v;
            }
        }
    }
    // The same history without questions.
    let mut silent = world.clone();
    let mut index = vec![];
    for t in silent.tasks.iter_mut() {
        let keep: Vec<usize> = (0..t.ops.len()).filter(|&i| !matches!(t.ops[i], Op::Ask { .. })).collect();
        t.ops = keep.iter().map(|&i| t.ops[i].clone()).collect();
        index.push(keep);
    }
    let Some(g) = execute(&mut v, &silent, None) else { return v };
    for t in 0..world.tasks.len() {
        let a: Vec<&Event> =
            h.events.iter().filter(|e| e.task == t && e.device != usize::MAX).collect();
        let b: Vec<&Event> =
            g.events.iter().filter(|e| e.task == t && e.device != usize::MAX).collect();
        for (x, y) in a.iter().zip(&b) {
            v.add("comparisons", 1);
            let equal = match (&x.outcome, &y.outcome) {
                (Outcome::Values(p), Outcome::Values(q)) => same(p, q),
                (p, q) => p == q,
            };
            if !equal || (x.from, x.to) != (y.from, y.to) || index[t][y.op] != x.op {
                v.fail(
                    "disturbed",
                    format!(
                        "{}, but without questions {:?} at word {}..{}",
                        describe_event(world, x),
                        y.outcome,
                        y.from,
                        y.to
                    ),
                );
                return v;
            }
        }
        if a.len() != b.len() {
            v.fail("disturbed", format!("task {} performs {} draws instead of {} without questions", t, a.len(), b.len()));
        }
    }
    v
}

/// C06: every quantity is computed (whatever the answer).
pub fn answers(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    sanity(&mut v, world, &h);
    v
}

/// The uniform numbers that a device gives for a word.
fn unit_of(w: u64, flavour: Flavour) -> f64 {
    match flavour {
        Flavour::Word => w as f64 / u64::MAX as f64,
        Flavour::Half => (w >> 11) as f64 * (1.0 / 9007199254740992.0),
    }
}

/// C07 and C10: draws that take one word map it through the law, exactly,
/// rare words included.  Only applies to samplers of that kind, recognised by
/// most of their draws.
pub fn transform(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let spec = &world.specs[0];
    let what = |_: [u64; 3]| format!("draws of {:?}", spec);
    let cfg = &world.devices[0];
    let data = isolated(&mut v, &what, &|| {
        let s = spec.build();
        let mut dev = Device::new(cfg);
        let mut out = vec![];
        for _ in 0..law.n {
            let from = dev.pos;
            let r = catch_unwind(AssertUnwindSafe(|| s.draw(&mut dev)));
            let Ok(x) = r else {
                out.extend_from_slice(&u64::MAX.to_le_bytes());
                out.extend_from_slice(&from.to_le_bytes());
                break;
            };
            if dev.pos == from + 1 {
                out.extend_from_slice(&from.to_le_bytes());
                out.extend_from_slice(&x.to_bits().to_le_bytes());
            }
        }
        out
    });
    let Some(data) = data else { return v };
    v.add("runs", 1);
    v.add("draws", law.n);
    v.add("reads", law.n);
    v.add("steps", law.n);
    let m = Model::new(spec);
    let r = &m.r;
    let mut dev = Device::new(cfg);
    let discrete_tol = m.quantile_tolerance().max(1e-15);
    let mut miss: [Option<String>; 2] = [None, None];
    let mut hits = [0u64; 2];
    let mut total = 0;
    let mut hash = 0;
    for c in data.chunks(16) {
        let pos = u64::from_le_bytes(c[..8].try_into().unwrap());
        let b = u64::from_le_bytes(c[8..].try_into().unwrap());
        if pos == u64::MAX {
            v.fail("panic", format!("a draw of {:?} from word {} ({:#x}) panicked", spec, b, dev.peek(b)));
            return v;
        }
        let x = f64::from_bits(b);
        hash = mix(hash ^ b);
        let w = dev.peek(pos);
        let u = unit_of(w, cfg.flavour);
        let (lo, hi) = (u, unit_of(!w, cfg.flavour));
        total += 1;
        // Orientations: F(x) = u, or 1 - F(x) = u.
        for side in 0..2 {
            // (u, 1 - u) of the orientation, both accurate.
            let (a, b) = if side == 0 { (lo, 1.0 - lo) } else { (1.0 - lo, lo) };
            let _ = hi;
            let ok = if x.is_nan() {
                false
            } else if r.discrete() {
                // Closed on both sides: the boundary has no probability.
                let (below, _) = r.cdf(x - 1.0);
                let (at, over) = r.cdf(x);
                let discrete_tol = discrete_tol + m.slop(x);
                let sane = x >= 0.0 && x <= r.support().1 && x == x.floor();
                sane && (below <= a + discrete_tol && (at >= a - discrete_tol || over <= b + discrete_tol)
                    || (side == 0 && m.quantile_ok(u, x, discrete_tol)))
            } else {
                let e = if x.is_finite() { 16.0 * f64::EPSILON * r.magnitude().max(x.abs()) } else { 0.0 };
                let (f0, s0) = r.cdf(x - e);
                let (f1, s1) = r.cdf(x + e);
                let t = 1e-9 * a.min(b) + 4e-16;
                if a < 0.5 {
                    f0 <= a + t && f1 >= a - t
                } else {
                    s1 <= b + t && s0 >= b - t
                }
            };
            if ok {
                hits[side] += 1;
            } else if miss[side].is_none() {
                miss[side] = Some(format!(
                    "word {:#x} (uniform number {:e}) at {} gives {:e} with {:e} of the law at or below and {:e} above",
                    w,
                    u,
                    pos,
                    x,
                    r.cdf(x).0,
                    r.cdf(x).1
                ));
            }
        }
    }
    v.mark(hash);
    v.add("comparisons", total);
    // Narrow laws agree both ways.
    let side = if hits[0] >= hits[1] { 0 } else { 1 };
    if total * 5 >= law.n * 3 && hits[side] * 5 >= total * 3 {
        v.add("transforms", 1);
        if let Some(m) = &miss[side] {
            v.fail(
                "transform",
                format!("{:?}: {} ({} of {} draws follow the law exactly)", spec, m, hits[side], total),
            );
        }
    }
    v
}

/// C07: outcomes have the resolution of the source's uniform numbers.
pub fn ties(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let spec = &world.specs[0];
    let n = law.n;
    let data = isolated(&mut v, &|_| format!("draws of {:?}", spec), &|| {
        let s = spec.build();
        let mut dev = Device::new(&world.devices[0]);
        let mut x: Vec<f64> = (0..n).map(|_| s.draw(&mut dev)).collect();
        x.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        let ties = x.windows(2).filter(|w| w[0] == w[1]).count() as u64;
        let mut out = ties.to_le_bytes().to_vec();
        out.extend_from_slice(&dev.pos.to_le_bytes());
        out
    });
    let Some(data) = data else { return v };
    if data.len() != 16 {
        v.fail("panic", format!("draws of {:?} panicked", spec));
        return v;
    }
    let ties = u64::from_le_bytes(data[..8].try_into().unwrap());
    v.add("runs", 1);
    v.add("draws", n);
    v.add("reads", n);
    v.add("steps", n);
    v.add("comparisons", 1);
    v.mark(derive(world.seed, &[ties]));
    // The chance that two draws fall on the same number, given rounding of
    // outcomes and 53 bits of the uniform numbers.
    let r = spec.reference();
    let mut chance = 0.0;
    let steps = 400;
    for i in 0..steps {
        let u = (i as f64 + 0.5) / steps as f64;
        let x = r.quantile(u);
        let ulp = f64::EPSILON * r.magnitude().max(x.abs());
        let mass = (r.cdf(x + 4.0 * ulp).0 - r.cdf(x - 4.0 * ulp).0).abs() + 2f64.powi(-52);
        chance += mass / steps as f64;
    }
    let expected = 0.5 * n as f64 * n as f64 * chance;
    let allowed = 4.0 * expected + 12.0;
    if ties as f64 > allowed {
        v.fail(
            "ties",
            format!("{} of {} draws of {:?} tie where the law gives at most about {:.1}", ties, n, spec, expected),
        );
    }
    v
}

// ---------------------------------------------------------------------------
// Long histories against exact probabilities.

/// Centres of refinement of the histogram of a law.
pub fn histogram(spec: &Spec) -> Hist {
    let r = spec.reference();
    let mut extra = vec![];
    match &r {
        Reference::Triangular { c, .. } => extra.push(*c),
        Reference::Gamma { .. } | Reference::Beta { .. } | Reference::Exponential { .. } | Reference::Lognormal { .. } => {
            extra.push(r.quantile(0.5))
        }
        _ => {}
    }
    Hist::for_reference(&r, &extra)
}

/// Sums for averages: n, four centred powers, their squares, surprisal, its square.
pub const SUMS: usize = 11;

struct Sink<'a> {
    hist: &'a mut Hist,
    left: u64,
    done: u64,
}

#[inline(never)]
fn direct<D, V>(d: &D, dev: &mut Device, sink: &mut Sink, n: u64)
where
    D: Sample<Value = V>,
    V: Real,
{
    let mut done = 0;
    while done < n {
        let from = std::cell::Cell::new(dev.pos);
        let count = std::cell::Cell::new(0u64);
        let r = catch_unwind(AssertUnwindSafe(|| {
            while done + count.get() < n {
                from.set(dev.pos);
                let x = d.sample(dev).real();
                sink.hist.add(x);
                count.set(count.get() + 1);
            }
        }));
        done += count.get();
        sink.done += count.get();
        if let Err(p) = r {
            match describe(p) {
                Outcome::Failed => dev.seek(from.get()),
                Outcome::Panicked(m) => panic!("{}", m),
                _ => return,
            }
        }
    }
}

/// A batch through one sampler; a failed batch is restarted as a whole.
fn batch<D, V>(d: &D, dev: &mut Device, sink: &mut Sink, n: u64)
where
    D: Sample<Value = V>,
    V: Real,
{
    for _ in 0..100 {
        let from = dev.pos;
        let r = catch_unwind(AssertUnwindSafe(|| {
            Independent(d, &mut *dev).take(n as usize).map(|x| x.real()).collect::<Vec<f64>>()
        }));
        match r {
            Ok(v) => {
                v.iter().for_each(|&x| sink.hist.add(x));
                sink.done += n;
                return;
            }
            Err(p) => match describe(p) {
                Outcome::Failed => dev.seek(from),
                Outcome::Panicked(m) => panic!("{}", m),
                _ => return,
            },
        }
    }
}

/// Draws between which other distributions are used and questions are asked.
fn mingled(
    s: &Subject,
    others: &[Subject],
    dev: &mut Device,
    sink: &mut Sink,
    n: u64,
    r: &mut Rng,
) {
    let mut done = 0;
    while done < n {
        let from = dev.pos;
        let k = r.below(3);
        let pick = r.word();
        match catch_unwind(AssertUnwindSafe(|| s.draw(dev))) {
            Ok(x) => {
                sink.hist.add(x);
                sink.done += 1;
                done += 1;
                if pick & 63 == 0 {
                    let _ = s.ask(QUERIES[(pick >> 8) as usize % 9], 0.25);
                }
            }
            Err(p) => match describe(p) {
                Outcome::Failed => {
                    dev.seek(from);
                    continue;
                }
                Outcome::Panicked(m) => panic!("{}", m),
                _ => return,
            },
        }
        for i in 0..k {
            if others.is_empty() {
                break;
            }
            let o = &others[(pick as usize).wrapping_add(i as usize) % others.len()];
            let from = dev.pos;
            if let Err(p) = catch_unwind(AssertUnwindSafe(|| o.draw(dev))) {
                match describe(p) {
                    Outcome::Failed => dev.seek(from),
                    Outcome::Panicked(m) => panic!("{}", m),
                    _ => return,
                }
            }
        }
    }
}

/// One chunk of a long history.
pub fn law_chunk(world: &World, chunk: u64) -> Verdict {
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let spec = &world.specs[0];
    let mut cfg = world.devices[0].clone();
    let seed = match cfg.stream {
        Stream::Mix(s) | Stream::Library(s) | Stream::Rare(s) | Stream::Tilt(s) | Stream::Strata(s) | Stream::Tape(_, s) => s,
    };
    let seed = derive(seed, &[chunk]);
    cfg.stream = match cfg.stream {
        Stream::Library(_) => Stream::Library(seed),
        _ => Stream::Mix(seed),
    };
    let mut r = Rng::new(derive(seed, &[1]));
    for _ in 0..law.failures {
        cfg.faults.push(Fault {
            at: r.below(law.n * 2),
            len: 1,
            kind: Kind::Fail(1 + r.below(2) as u32),
        });
    }
    let shape = histogram(spec);
    let data = isolated_long(&mut v, &|_| format!("draws of {:?} in chunk {}", spec, chunk), &|| {
        let mut hist = shape.clone();
        let s = spec.build();
        let others: Vec<Subject> = world.specs[1..].iter().map(|s| s.build()).collect();
        let mut dev = Device::new(&cfg);
        let mut sink = Sink { hist: &mut hist, left: law.n, done: 0 };
        let mut r = Rng::new(derive(seed, &[2]));
        let result = catch_unwind(AssertUnwindSafe(|| {
            while sink.done < law.n {
                let left = law.n - sink.done;
                let style = r.below(8);
                if law.mode & 1 == 1 && style < 2 {
                    let n = left.min(r.between(1, 2000));
                    mingled(&s, &others, &mut dev, &mut sink, n, &mut r);
                } else if law.mode & 2 == 2 && style < 4 {
                    let n = left.min(r.between(1, 5000));
                    each!(&s, d => batch(d, &mut dev, &mut sink, n));
                } else {
                    let n = left.min(r.between(1, if law.mode == 0 { 1 << 40 } else { 200_000 }));
                    each!(&s, d => direct(d, &mut dev, &mut sink, n));
                }
                let _ = sink.left;
            }
        }));
        let mut out = vec![result.is_ok() as u8];
        if let Err(p) = result {
            if let Outcome::Panicked(m) = describe(p) {
                out.extend_from_slice(m.as_bytes());
            }
            return out;
        }
        out.extend_from_slice(&dev.pos.to_le_bytes());
        for f in dev.fired {
            out.extend_from_slice(&f.to_le_bytes());
        }
        out.extend_from_slice(&hist.encode());
        out
    });
    let Some(data) = data else { return v };
    if data[0] == 0 {
        v.fail(
            "panic",
            format!("the library panicked ({}): draws of {:?}", String::from_utf8_lossy(&data[1..]), spec),
        );
        return v;
    }
    let mut c = Cursor(&data, 1);
    let reads = c.u64();
    for i in 0..9 {
        let f = c.u64();
        v.add(&format!("fault.{}", KINDS[i]), f);
    }
    v.add("runs", 1);
    v.add("draws", law.n);
    v.add("reads", reads);
    v.add("steps", reads);
    v.data = data[c.1..].to_vec();
    v.mark(data.chunks(8).fold(seed, |h, c| mix(h ^ c.iter().fold(0, |a, &b| a << 8 | b as u64))));
    v
}

/// Relative error that samplers may have by construction (tables and
/// approximations), far below what the histories can resolve.
fn slack(spec: &Spec) -> f64 {
    match spec {
        Spec::Gaussian { .. } | Spec::Lognormal { .. } | Spec::Cauchy { .. } => 1e-6,
        Spec::Gamma { .. } | Spec::Beta { .. } | Spec::Pert { .. } => 1e-6,
        Spec::Binomial { .. } | Spec::BinomialFailure { .. } => 1e-9,
        _ => 1e-12,
    }
}

/// Conclude a long history from its chunks.
pub fn law_conclude(world: &World, chunks: &[Vec<u8>]) -> Verdict {
    let mut v = Verdict::default();
    let spec = &world.specs[0];
    let mut hist = histogram(spec);
    for c in chunks {
        hist.merge(&mut Cursor(c, 0));
    }
    let r = spec.reference();
    let m = Model::new(spec);
    if m.regime() == Regime::Newton && known(2) {
        // The counts follow the known finding; the exact transform decides.
        v.add("cells", hist.occupied());
        return v;
    }
    let extra = if m.regime() == Regime::Normal { 1e-3 } else { 0.0 };
    let (tested, worst, message) = hist.test(&r, slack(spec) + extra);
    v.add("intervals", tested);
    v.add("comparisons", tested);
    v.add("cells", hist.occupied());
    if worst > THRESHOLD {
        v.fail("law", format!("{:?}: {} (surprise {:.1})", spec, message, worst));
    }
    v
}

/// C07 to C10: no interval, however rare, is hit more often than the law says,
/// by importance sampling of the words.
pub fn tilt(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let spec = &world.specs[0];
    let shape = histogram(spec);
    let m = Model::new(spec);
    if m.regime() == Regime::Newton && known(2) {
        return v;
    }
    let r = &m.r;
    let extra = if m.regime() == Regime::Normal { 0.25 } else { 0.0 };
    let slack = slack(spec) + 1e-4 + extra;
    let data = isolated_long(&mut v, &|_| format!("draws of {:?}", spec), &|| {
        let s = spec.build();
        let mut dev = Device::new(&world.devices[0]);
        let mut w = Weighted::new(&shape);
        let result = catch_unwind(AssertUnwindSafe(|| {
            for _ in 0..law.n {
                dev.weight = 1.0;
                let x = s.draw(&mut dev);
                w.add(x, dev.weight);
            }
        }));
        let mut out = vec![result.is_ok() as u8];
        if let Err(p) = result {
            if let Outcome::Panicked(m) = describe(p) {
                out.extend_from_slice(m.as_bytes());
            }
            return out;
        }
        let (tested, worst, message) = w.test(r, slack);
        if std::env::var("SIM_TIMING").is_ok() {
            println!("{:?} {} {}", spec, worst, message);
        }
        for x in [tested, worst.to_bits(), dev.pos] {
            out.extend_from_slice(&x.to_le_bytes());
        }
        out.extend_from_slice(message.as_bytes());
        out
    });
    let Some(data) = data else { return v };
    if data[0] == 0 {
        v.fail(
            "panic",
            format!("the library panicked ({}): draws of {:?}", String::from_utf8_lossy(&data[1..]), spec),
        );
        return v;
    }
    let mut c = Cursor(&data, 1);
    let (tested, worst, reads) = (c.u64(), f64::from_bits(c.u64()), c.u64());
    let message = String::from_utf8_lossy(&data[c.1..]).to_string();
    v.add("runs", 1);
    v.add("tilted", law.n);
    v.add("draws", law.n);
    v.add("reads", reads);
    v.add("steps", reads);
    v.add("comparisons", tested);
    v.mark(data.iter().fold(world.seed, |h, &b| mix(h ^ b as u64)));
    if worst > crate::stats::TILT_THRESHOLD {
        v.fail("rare", format!("{:?}: {} (surprise {:.1})", spec, message, worst));
    }
    v
}

/// Layouts of strata: the bits of the first words of a draw that take all
/// values evenly.
pub const LAYOUTS: [[u64; 4]; 5] = [
    // One Gaussian word and a bit of the next.
    [0xFFFC_00FF, 0xF << 60, 0, 0],
    [0xFF00_00FF, 0xFF << 56, 0, 0],
    // A Gaussian word and two uniform ones.
    [0xF000_00FF, 0xF << 60, 0xFF << 56, 0],
    // Two Gaussian words, next to each other or not.
    [0xF000_00FF, 0xF000_00FF, 0, 0],
    [0xF000_00FF, 0, 0xF000_00FF, 0],
];

/// C08 and C09: the law at a higher resolution, by stratified words.
pub fn strata(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let spec = &world.specs[0];
    let shape = histogram(spec);
    let r = spec.reference();
    let masks = LAYOUTS[law.mode as usize % LAYOUTS.len()];
    let bits: u32 = masks.iter().map(|m| m.count_ones()).sum();
    let data = isolated_long(&mut v, &|_| format!("draws of {:?}", spec), &|| {
        let s = spec.build();
        let mut dev = Device::new(&world.devices[0]);
        dev.masks = masks;
        let mut w = Paired::new(&shape);
        let result = catch_unwind(AssertUnwindSafe(|| {
            for _ in 0..law.n {
                for stratum in 0..1u64 << bits {
                    dev.enter(stratum);
                    let x = s.draw(&mut dev);
                    dev.word = 0;
                    w.add(x, s.draw(&mut dev));
                }
            }
        }));
        let mut out = vec![result.is_ok() as u8];
        if let Err(p) = result {
            if let Outcome::Panicked(m) = describe(p) {
                out.extend_from_slice(m.as_bytes());
            }
            return out;
        }
        let (tested, worst, message) = w.test(&r, slack(spec));
        if std::env::var("SIM_TIMING").is_ok() {
            println!("{:?} {} {} {}", spec, law.mode, worst, message);
        }
        for x in [tested, worst.to_bits(), dev.pos] {
            out.extend_from_slice(&x.to_le_bytes());
        }
        out.extend_from_slice(message.as_bytes());
        out
    });
    let Some(data) = data else { return v };
    if data[0] == 0 {
        v.fail(
            "panic",
            format!("the library panicked ({}): draws of {:?}", String::from_utf8_lossy(&data[1..]), spec),
        );
        return v;
    }
    let mut c = Cursor(&data, 1);
    let (tested, worst, reads) = (c.u64(), f64::from_bits(c.u64()), c.u64());
    let message = String::from_utf8_lossy(&data[c.1..]).to_string();
    let draws = law.n << (bits + 1);
    v.add("runs", 1);
    v.add("stratified", draws);
    v.add("draws", draws);
    v.add("reads", reads);
    v.add("steps", reads);
    v.add("comparisons", tested);
    v.mark(data.iter().fold(world.seed, |h, &b| mix(h ^ b as u64)));
    if worst > crate::stats::TILT_THRESHOLD {
        v.fail("strata", format!("{:?}: {} (surprise {:.1})", spec, message, worst));
    }
    v
}

/// C12 to C15 by history: shares and averages of draws against the reported
/// quantities.
pub fn shares(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let spec = &world.specs[0];
    let n = law.n;
    let r = spec.reference();
    let m = Model::new(spec);
    let property = world.property.clone();
    let mut rng = Rng::new(derive(world.seed, &[12]));
    let mut us: Vec<f64> = (0..24).map(|_| rng.unit()).collect();
    us.extend([0.5, 0.25, 0.75, 1e-3, 0.999, 1e-4, 0.9999]);
    let points: Vec<f64> = us.iter().map(|&u| r.quantile(u)).collect();
    let data = isolated(&mut v, &|_| format!("draws of {:?}", spec), &|| {
        let s = spec.build();
        let mut dev = Device::new(&world.devices[0]);
        let mut x: Vec<f64> = vec![];
        let result = catch_unwind(AssertUnwindSafe(|| {
            while x.len() < n as usize {
                let from = dev.pos;
                match catch_unwind(AssertUnwindSafe(|| s.draw(&mut dev))) {
                    Ok(y) => x.push(y),
                    Err(p) => match describe(p) {
                        Outcome::Failed => dev.seek(from),
                        Outcome::Panicked(m) => panic!("{}", m),
                        _ => panic!("starved"),
                    },
                }
            }
            let mut failure = String::new();
            let mut compared = 0u64;
            let mut flag = |m: String| {
                if failure.is_empty() {
                    failure = m;
                }
            };
            match property.as_str() {
                "C12" | "C13" => {
                    x.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    let at_or_below = |y: f64| x.partition_point(|&z| z <= y) as u64;
                    let below = |y: f64| x.partition_point(|&z| z < y) as u64;
                    if property == "C12" {
                        for &p in &points {
                            let f = s.cdf(p);
                            let e = 16.0 * f64::EPSILON * r.magnitude().max(p.abs());
                            let e = if r.discrete() { 0.0 } else { e };
                            let (lo, hi) = (f - (r.cdf(p).0 - r.cdf(p - e).0), f + (r.cdf(p + e).0 - r.cdf(p).0));
                            let k = at_or_below(p);
                            compared += 1;
                            let t = law_tolerance(&m);
                            if surprise(k, n, lo - t, hi + t) > THRESHOLD {
                                flag(format!("{} of {} draws are at or below {:e} where {:e} is reported", k, n, p, f));
                            }
                        }
                        if r.discrete() {
                            for &p in &points {
                                let f = s.density(p);
                                let k = at_or_below(p) - below(p);
                                compared += 1;
                                let t = law_tolerance(&m) + 1e-9;
                                let k1 = f * 3.0 * K1_DELTA;
                                if surprise(k, n, f - t - k1, f + t + k1) > THRESHOLD {
                                    flag(format!("{} of {} draws are {} where the mass {:e} is reported", k, n, p, f));
                                }
                            }
                        }
                    } else {
                        let mut claims: Vec<(f64, f64, f64)> = vec![];
                        for &u in &us {
                            if let Some(y) = s.inverse(u) {
                                claims.push((u, y, law_tolerance(&m) + 2e-9));
                            }
                        }
                        if let Some(y) = s.median() {
                            let k3 = known(3) && matches!(r, Reference::Categorical { .. }) && y != y.floor();
                            let wide = match spec {
                                Spec::Beta { alpha, beta, .. } if *alpha > 1.0 && *beta > 1.0 => 0.02,
                                _ => law_tolerance(&m) + 1e-9,
                            };
                            if !k3 {
                                claims.push((0.5, y, wide));
                            }
                        }
                        for (u, y, t) in claims {
                            compared += 1;
                            let e = if r.discrete() { 0.0 } else { 16.0 * f64::EPSILON * r.magnitude().max(y.abs()) };
                            let (a, b) = (below(y - e), at_or_below(y + e));
                            // At most u below, at least u at or below.
                            if surprise(a, n, 0.0, u + t) > THRESHOLD || surprise(b, n, u - t, 1.0) > THRESHOLD {
                                flag(format!(
                                    "{} of {} draws are below and {} at or below {:e}, the reported quantile or median for {:e}",
                                    a, n, b, y, u
                                ));
                            }
                        }
                    }
                }
                _ => {
                    let (reported, kind): (Vec<Option<f64>>, u8) = if property == "C14" {
                        (vec![s.mean(), s.variance(), s.skewness(), s.kurtosis()], 0)
                    } else {
                        (vec![Some(s.entropy())], 1)
                    };
                    averages(&m, &s, &x, &reported, kind, &mut |ok, text| {
                        compared += 1;
                        if !ok {
                            flag(text);
                        }
                    });
                    // The draws follow the finding on quantiles.
                    let shifted = m.regime() == Regime::Newton && known(2);
                    if property == "C15" && r.discrete() && !shifted {
                        if let Some(modes) = s.modes() {
                            let mut counts: HashMap<u64, u64> = HashMap::new();
                            for y in &x {
                                *counts.entry(y.to_bits()).or_insert(0) += 1;
                            }
                            let c = |y: f64| *counts.get(&y.to_bits()).unwrap_or(&0) as f64;
                            for (&b, &k) in &counts {
                                for &mode in &modes {
                                    compared += 1;
                                    let k = k as f64;
                                    // Under equal chances the difference is at most a few deviations.
                                    if k - c(mode) > 9.0 * (k + c(mode)).sqrt() + 9.0 {
                                        flag(format!(
                                            "{} occurs {} times but the reported mode {} only {} times",
                                            f64::from_bits(b),
                                            k,
                                            mode,
                                            c(mode)
                                        ));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            (failure, compared)
        }));
        let mut out = vec![];
        match result {
            Ok((m, c)) => {
                out.push(if m.is_empty() { 0 } else { 1 });
                out.extend_from_slice(&c.to_le_bytes());
                out.extend_from_slice(&dev.pos.to_le_bytes());
                for f in dev.fired {
                    out.extend_from_slice(&f.to_le_bytes());
                }
                out.extend_from_slice(m.as_bytes());
            }
            Err(p) => {
                out.push(2);
                if let Outcome::Panicked(m) = describe(p) {
                    out.extend_from_slice(m.as_bytes());
                }
            }
        }
        out
    });
    let Some(data) = data else { return v };
    if data[0] == 2 {
        v.fail("panic", format!("{} in a history of {:?}", String::from_utf8_lossy(&data[1..]), spec));
        return v;
    }
    let mut c = Cursor(&data, 1);
    v.add("comparisons", c.u64());
    let reads = c.u64();
    for i in 0..9 {
        let f = c.u64();
        v.add(&format!("fault.{}", KINDS[i]), f);
    }
    v.add("runs", 1);
    v.add("draws", n);
    v.add("reads", reads);
    v.add("steps", reads);
    v.mark(derive(world.seed, &[reads, n]));
    if data[0] == 1 {
        v.fail("share", format!("{:?}: {}", spec, String::from_utf8_lossy(&data[c.1..])));
    }
    v
}

/// How far the sampler itself may be from the reported law.
fn law_tolerance(m: &Model) -> f64 {
    match m.regime() {
        Regime::Exact => 1e-12,
        Regime::Normal => 2.0 * NORMAL_TOLERANCE,
        // K2: the quantile of half of the mass is one less.
        Regime::Newton if known(2) => 0.6 * max_mass(m),
        Regime::Newton => 1e-8,
    }
}

fn max_mass(m: &Model) -> f64 {
    let mode = m.moments.as_ref().map_or(0.0, |x| x.mean).floor();
    (-1..=1).map(|d| m.r.density(mode + d as f64)).fold(0.0, f64::max)
}

fn averages(
    m: &Model,
    s: &Subject,
    x: &[f64],
    reported: &[Option<f64>],
    kind: u8,
    visit: &mut dyn FnMut(bool, String),
) {
    let n = x.len() as f64;
    // A statement about an average: the mean of `g` over the history is `w`,
    // given the deviation of `g` if it is known.
    let mut one = |name: &str, g: &dyn Fn(f64) -> f64, w: f64, sigma: Option<f64>, bias: f64| {
        let mut sum = 0.0;
        let mut squares = 0.0;
        let mut magnitude = 0.0;
        let mut range = (f64::INFINITY, f64::NEG_INFINITY);
        for &y in x {
            let z = g(y) - w;
            sum += z;
            magnitude += z.abs();
            squares += z * z;
            range = (range.0.min(z), range.1.max(z));
        }
        let mean = sum / n;
        let sd = sigma.unwrap_or((squares / n).sqrt());
        let rounding = 1e-11 * (w.abs() + magnitude / n);
        let bound = 9.0 * sd / n.sqrt() + 60.0 * (range.1 - range.0) / n + bias + rounding;
        let ok = mean.abs() <= bound;
        visit(
            ok,
            format!(
                "the {} is reported to be {:e} but that of {} draws is {:e} (allowing {:e})",
                name,
                w,
                x.len(),
                w + mean,
                bound
            ),
        );
    };
    let exact = |g: &dyn Fn(f64) -> f64| -> Option<f64> {
        if !m.r.discrete() {
            return None;
        }
        let (a, b) = m.r.support();
        let (a, b) = match &m.moments {
            Some(q) => {
                let sd = q.variance.sqrt();
                (a.max((q.mean - 40.0 * sd - 60.0).floor()), b.min((q.mean + 40.0 * sd + 60.0).ceil()))
            }
            None => (a, b),
        };
        let sum = |f: &dyn Fn(f64) -> f64| {
            let (mut sum, mut k) = (0.0, a);
            while k <= b {
                let p = m.r.density(k);
                if p > 0.0 {
                    sum += p * f(g(k));
                }
                k += 1.0;
            }
            sum
        };
        let mean = sum(&|z| z);
        Some(sum(&|z| (z - mean) * (z - mean)).sqrt())
    };
    // The known findings and approximations shift discrete draws by one.
    let shift = match m.regime() {
        Regime::Exact => 0.0,
        Regime::Newton => 0.6,
        Regime::Normal => 1e-3,
    };
    if kind == 0 {
        let Some(q) = &m.moments else { return };
        let sd = q.variance.sqrt();
        if !(sd > 0.0) || q.variance < 1e-10 * q.mean * q.mean {
            return;
        }
        if let Some(w) = reported[0] {
            one("mean", &|y| y, w, exact(&|y| y), shift);
        }
        if let Some(w) = reported[1] {
            let g = |y: f64| (y - q.mean) * (y - q.mean);
            one("variance", &g, w, exact(&g), shift * (1.0 + 2.0 * sd));
        }
        // Only light tails have usable averages of higher powers.
        let light = m.r.discrete() || q.kurtosis < 8.0;
        if light && shift == 0.0 {
            if let Some(w) = reported[2] {
                let g = |y: f64| ((y - q.mean) / sd).powi(3);
                one("skewness", &g, w, exact(&g), 0.0);
            }
            if let Some(w) = reported[3] {
                let g = |y: f64| ((y - q.mean) / sd).powi(4) - 3.0;
                one("kurtosis", &g, w, exact(&g), 0.0);
            }
        }
    } else if let Some(w) = reported[0] {
        // Outcomes that round to where the density is infinite.
        let (a, b) = m.r.support();
        let near = 8.0 * f64::EPSILON * m.r.magnitude();
        let rounded = if m.r.discrete() {
            0.0
        } else {
            let low = if a == 0.0 { 1e-300 } else { near };
            let p = if a.is_finite() { m.r.cdf(a + low).0 } else { 0.0 };
            let q = if b.is_finite() { m.r.cdf(b - near).1 } else { 0.0 };
            p.max(q)
        };
        if rounded > 1e-8 {
            return;
        }
        // Densities are asked of the object itself.
        let g = |y: f64| {
            let p = s.density(y);
            if p > 0.0 && p.is_finite() {
                -p.ln()
            } else {
                -m.r.density(y).max(1e-300).min(1e300).ln()
            }
        };
        let bias = match &m.r {
            Reference::Binomial { n, p, q } => 0.2 / (*n as f64 * p * q).max(1.0) * (shift > 0.0) as i32 as f64 + shift + 1e-3 * (known(1) as i32 as f64),
            _ => 1e-9,
        };
        let ge = |y: f64| -m.r.density(y).max(1e-300).ln();
        one("entropy", &g, w, exact(&ge), bias);
    }
}

/// C11: contingency of outcomes at small lags, and across samplers.
pub fn dependence(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let law = world.law.clone().unwrap();
    let n = law.n as usize;
    let data = isolated(&mut v, &|_| format!("draws of {:?}", world.specs), &|| {
        let result = catch_unwind(AssertUnwindSafe(|| {
            let subjects: Vec<Subject> = world.specs.iter().map(|s| s.build()).collect();
            let mut devices: Vec<Device> = world.devices.iter().map(Device::new).collect();
            let k = subjects.len();
            let mut series: Vec<Vec<f64>> = vec![Vec::with_capacity(n); k];
            for _ in 0..n {
                for (i, s) in subjects.iter().enumerate() {
                    let j = i % devices.len();
                    let dev = &mut devices[j];
                    loop {
                        let from = dev.pos;
                        match catch_unwind(AssertUnwindSafe(|| s.draw(dev))) {
                            Ok(x) => {
                                series[i].push(x);
                                break;
                            }
                            Err(p) => match describe(p) {
                                Outcome::Failed => dev.seek(from),
                                Outcome::Panicked(m) => panic!("{}", m),
                                _ => panic!("starved"),
                            },
                        }
                    }
                }
            }
            let cells: Vec<[Vec<u8>; 3]> = series.iter().map(|s| categories(s)).collect();
            let mut worst = (0.0, String::new());
            let mut tested = 0u64;
            for i in 0..k {
                for j in 0..k {
                    for lag in 0..=16usize {
                        if lag == 0 && i >= j {
                            continue;
                        }
                        for (a, name) in ["rank", "magnitude", "low digits"].iter().enumerate() {
                            for b in 0..3 {
                                if (a == 2) != (b == 2) {
                                    continue;
                                }
                                let x = &cells[i][a];
                                let y = &cells[j][b];
                                let (s, c) = table(x, y, lag);
                                tested += c;
                                if s > worst.0 {
                                    worst = (
                                        s,
                                        format!(
                                            "the {} of a draw of {:?} and the {} of the draw of {:?} {} later depend on each other",
                                            name,
                                            world.specs[i],
                                            ["rank", "magnitude", "low digits"][b],
                                            world.specs[j],
                                            lag
                                        ),
                                    );
                                }
                            }
                        }
                    }
                }
            }
            let reads: u64 = devices.iter().map(|d| d.pos).sum();
            let fired: u64 = devices.iter().map(|d| d.fired[7]).sum();
            (worst, tested, reads, fired)
        }));
        let mut out = vec![];
        match result {
            Ok(((s, m), tested, reads, fired)) => {
                out.push(0);
                out.extend_from_slice(&tested.to_le_bytes());
                out.extend_from_slice(&reads.to_le_bytes());
                out.extend_from_slice(&fired.to_le_bytes());
                out.extend_from_slice(&s.to_bits().to_le_bytes());
                out.extend_from_slice(m.as_bytes());
            }
            Err(p) => {
                out.push(2);
                if let Outcome::Panicked(m) = describe(p) {
                    out.extend_from_slice(m.as_bytes());
                }
            }
        }
        out
    });
    let Some(data) = data else { return v };
    if data[0] == 2 {
        v.fail("panic", format!("{} in a history of {:?}", String::from_utf8_lossy(&data[1..]), world.specs));
        return v;
    }
    let mut c = Cursor(&data, 1);
    v.add("comparisons", c.u64());
    let reads = c.u64();
    v.add("fault.fail", c.u64());
    let s = c.f64();
    v.add("runs", 1);
    v.add("draws", law.n * world.specs.len() as u64);
    v.add("reads", reads);
    v.add("steps", reads);
    v.mark(derive(world.seed, &[s.to_bits(), reads]));
    if s > THRESHOLD {
        v.fail("dependent", format!("{} (surprise {:.1})", String::from_utf8_lossy(&data[c.1..]), s));
    }
    v
}

/// Eight categories by rank, by distance of the rank from the middle, and by
/// the low digits of the outcome.
fn categories(x: &[f64]) -> [Vec<u8>; 3] {
    let mut s = x.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    let n = s.len();
    let t: Vec<f64> = (1..16).map(|i| s[i * n / 16]).collect();
    let sixteenth = |y: f64| t.iter().filter(|&&t| y >= t).count() as u8;
    let mut rank = Vec::with_capacity(n);
    let mut magnitude = Vec::with_capacity(n);
    let mut digits = Vec::with_capacity(n);
    for &y in x {
        let c = sixteenth(y);
        rank.push(c / 2);
        magnitude.push(if c < 8 { 7 - c } else { c - 8 });
        digits.push((mix(y.to_bits()) & 7) as u8);
    }
    [rank, magnitude, digits]
}

fn table(x: &[u8], y: &[u8], lag: usize) -> (f64, u64) {
    let n = x.len() - lag;
    let mut t = [[0u64; 8]; 8];
    for i in 0..n {
        t[x[i] as usize][y[i + lag] as usize] += 1;
    }
    let mut worst = 0.0;
    let mut tested = 0;
    let row: Vec<u64> = t.iter().map(|r| r.iter().sum()).collect();
    let col: Vec<u64> = (0..8).map(|j| t.iter().map(|r| r[j]).sum()).collect();
    for i in 0..8 {
        for j in 0..8 {
            if row[i] == 0 || col[j] == 0 {
                continue;
            }
            let p = row[i] as f64 / n as f64 * (col[j] as f64 / n as f64);
            let s = surprise(t[i][j], n as u64, p, p);
            tested += 1;
            if s > worst {
                worst = s;
            }
        }
    }
    (worst, tested)
}

/// C16: the fit against compensated sums over the very stream.
pub fn fit(world: &World) -> Verdict {
    let mut v = Verdict::default();
    let Some(h) = execute(&mut v, world, None) else { return v };
    let picks: Vec<&Event> = h
        .events
        .iter()
        .filter(|e| matches!(world.tasks[e.task].ops[e.op], Op::Fit { .. }))
        .collect();
    // The streams that were fed, by direct draws from the same words.
    let Some(data) = isolated(&mut v, &|p| locate(world, p), &|| {
        let mut out = vec![];
        for e in &picks {
            let Op::Fit { n, mode, scale, offset, .. } = world.tasks[e.task].ops[e.op] else { continue };
            let mut cfg = clean(&world.devices[e.device]);
            if e.outcome == Outcome::Failed {
                cfg.faults.push(Fault { at: e.to, len: 1, kind: Kind::Fail(1) });
            }
            let mut dev = Device::new(&cfg);
            dev.seek(e.from);
            let s = world.specs[e.d].build();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let x: Vec<f64> = (0..n).map(|_| scale * s.draw(&mut dev) + offset).collect();
                molded(&x, mode)
            }));
            let outcome = match r {
                Ok(x) => Outcome::Values(x),
                Err(p) => describe(p),
            };
            out.push(Event { outcome, to: dev.pos, ..(*e).clone() });
        }
        encode_events(&out)
    }) else {
        return v;
    };
    for (e, w) in picks.iter().zip(decode_events(&data)) {
        v.add("comparisons", 1);
        let Outcome::Values(stream) = &w.outcome else {
            if e.outcome != w.outcome {
                v.fail("fit", format!("a failed stream gave {}", describe_event(world, e)));
            }
            continue;
        };
        let equal = stream.iter().all(|x| *x == stream[0]);
        if stream.len() < 2 || equal || stream.iter().any(|x| !x.is_finite()) {
            // Not a stream that the property is about.
            v.add("excluded", 1);
            continue;
        }
        let Outcome::Values(a) = &e.outcome else {
            v.fail("fit", format!("no fit of a good stream: {}", describe_event(world, e)));
            continue;
        };
        if e.to != w.to {
            v.fail(
                "consumed",
                format!("the stream takes words up to {} but: {}", w.to, describe_event(world, e)),
            );
            continue;
        }
        if let Err(m) = check_fit(stream, a[0], a[1]) {
            v.fail("fit", format!("{}: {}", m, describe_event(world, e)));
        }
    }
    if v.failed() {
        return v;
    }
    // Any other panic is a violation too, except for excluded streams.
    for e in &h.events {
        if !matches!(world.tasks[e.task].ops[e.op], Op::Fit { .. }) {
            if let Outcome::Panicked(m) = &e.outcome {
                v.fail("panic", format!("the library panicked ({}): {}", m, describe_event(world, e)));
            }
        }
    }
    v.add("fits", picks.len() as u64);
    v
}

/// Error-free sum in double-double arithmetic.
fn total(it: impl Iterator<Item = f64>) -> (f64, f64) {
    let (mut hi, mut lo) = (0.0f64, 0.0f64);
    for x in it {
        let s = hi + x;
        let b = s - hi;
        lo += (hi - (s - b)) + (x - b);
        hi = s;
        let t = hi + lo;
        lo -= t - hi;
        hi = t;
    }
    (hi, lo)
}

pub fn check_fit(x: &[f64], mu: f64, sigma: f64) -> Result<(), String> {
    let n = x.len() as f64;
    let (hi, lo) = total(x.iter().cloned());
    let mean = (hi + lo) / n;
    // The remainder of the division, for the deviations.
    let rest = ((-mean).mul_add(n, hi) + lo) / n;
    let (s2, _) = total(x.iter().map(|y| {
        let d = (y - mean) - rest;
        d * d
    }));
    let sd = (s2 / (n - 1.0)).sqrt();
    let eps = f64::EPSILON;
    let most = x.iter().fold(0.0f64, |m, y| m.max(y.abs()));
    let average = x.iter().map(|y| y.abs()).sum::<f64>() / n;
    let tol = 2.0 * n * eps * average + 4.0 * eps * most;
    if !((mu - mean).abs() <= tol) {
        return Err(format!("the mean of {} values is fitted as {:e} instead of {:e}", x.len(), mu, mean));
    }
    let tol = 2.0 * (n + 16.0) * eps * sd + tol * tol / sd + 8.0 * eps * most;
    if !((sigma - sd).abs() <= tol) {
        return Err(format!("the deviation of {} values is fitted as {:e} instead of {:e}", x.len(), sigma, sd));
    }
    Ok(())
}

#[allow(dead_code)]
fn unused<S: Source>(_: &S) {}
