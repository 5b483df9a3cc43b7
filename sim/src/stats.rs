//! Histograms of histories, and tests of them against exact probabilities.

use crate::reference::Reference;
use crate::verdict::Cursor;

/// The Chernoff exponent above which a count is a violation: the chance of a
/// false alarm of one interval is below 2 exp(-THRESHOLD).
pub const THRESHOLD: f64 = 34.0;

/// The exponent for weighted counts, which are tested in many more ways.
pub const TILT_THRESHOLD: f64 = 40.0;

/// The resolution of the Gaussian sampler in deviations: outcomes lie on grids
/// of 24 bits.
pub const GRID: f64 = 2.5e-7;

/// n KL(k / n || [lo, hi]).
pub fn surprise(k: u64, n: u64, lo: f64, hi: f64) -> f64 {
    let q = k as f64 / n as f64;
    let p = if q < lo {
        lo.min(1.0)
    } else if q > hi {
        hi.max(0.0)
    } else {
        return 0.0;
    };
    let mut s = 0.0;
    if q > 0.0 {
        if p <= 0.0 {
            return f64::INFINITY;
        }
        s += q * (q / p).ln();
    }
    if q < 1.0 {
        if p >= 1.0 {
            return f64::INFINITY;
        }
        s += (1.0 - q) * ((-q).ln_1p() - (-p).ln_1p());
    }
    (n as f64 * s).max(0.0)
}

/// Bins on a logarithmic grid of distances from a centre, on both sides.
#[derive(Clone, Debug)]
pub struct Log {
    pub center: f64,
    m: u32,
    base: u64,
    bins: usize,
    /// Below, above.
    counts: [Vec<u64>; 2],
}

#[derive(Clone, Debug)]
pub struct Dense {
    pub low: f64,
    pub width: f64,
    /// One if cells begin at outcomes, zero if they are cells of a line.
    pub step: f64,
    pub counts: Vec<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Hist {
    pub n: u64,
    pub nan: u64,
    pub logs: Vec<Log>,
    pub dense: Vec<Dense>,
}

impl Log {
    pub fn new(center: f64, lo: f64, hi: f64, m: u32) -> Log {
        let base = lo.to_bits() >> (52 - m);
        let top = hi.to_bits() >> (52 - m);
        let bins = (top - base + 2) as usize;
        Log { center, m, base, bins, counts: [vec![0; bins], vec![0; bins]] }
    }
    #[inline(always)]
    fn locate(&self, x: f64) -> (usize, usize) {
        let d = x - self.center;
        let bits = d.to_bits();
        let side = (bits >> 63) ^ 1;
        let e = (bits & !(1 << 63)) >> (52 - self.m);
        let i = (e + 1).saturating_sub(self.base).min(self.bins as u64 - 1);
        (side as usize, i as usize)
    }
    #[inline(always)]
    fn add(&mut self, x: f64) {
        let (side, i) = self.locate(x);
        unsafe { *self.counts.get_unchecked_mut(side).get_unchecked_mut(i) += 1 };
    }
    /// The cell of a point in the order of `edges`.
    fn cell(&self, x: f64) -> usize {
        match self.locate(x) {
            (0, i) => self.bins - 1 - i,
            (_, i) => self.bins - 1 + i,
        }
    }
    /// Ordered cells: -inf .. c - e .. c + e .. inf.
    fn edges(&self) -> Vec<f64> {
        let below = (1..self.bins).rev().map(|i| self.center - self.edge(i));
        below.chain((1..self.bins).map(|i| self.center + self.edge(i))).collect()
    }
    fn ordered(&self) -> Vec<u64> {
        let b = self.bins;
        let mut counts: Vec<u64> = (1..b).rev().map(|i| self.counts[0][i]).collect();
        counts.push(self.counts[0][0] + self.counts[1][0]);
        counts.extend_from_slice(&self.counts[1][1..]);
        counts
    }
    /// The lower edge of bin `i >= 1`.
    fn edge(&self, i: usize) -> f64 {
        f64::from_bits((self.base + i as u64 - 1) << (52 - self.m))
    }
}

impl Dense {
    #[inline(always)]
    fn cell(&self, x: f64) -> usize {
        let i = (x - self.low) / self.width;
        if i < 0.0 {
            0
        } else {
            (i as usize).saturating_add(1).min(self.counts.len() - 1)
        }
    }
    /// Cell i ends at (or before) edge i.
    fn edges(&self) -> Vec<f64> {
        (0..self.counts.len() - 1).map(|i| self.low + self.width * i as f64).collect()
    }
}

/// Probabilities at the edges of cells, as (below, above), and how uncertain
/// they are due to rounding of outcomes.
fn probabilities(r: &Reference, edges: &[f64], step: f64) -> (Vec<(f64, f64)>, Vec<f64>) {
    let cdf: Vec<(f64, f64)> = edges.iter().map(|&x| r.cdf(x - step)).collect();
    if step > 0.0 {
        let blur = vec![1e-13; edges.len()];
        return (cdf, blur);
    }
    let magnitude = r.magnitude();
    let blur = edges
        .iter()
        .map(|&x| {
            let e = 4.0 * f64::EPSILON * magnitude.max(x.abs());
            let (e, flat) = match r {
                Reference::Gaussian { sigma, .. } => (e + GRID * sigma, 0.0),
                Reference::Lognormal { sigma, .. } => (e + GRID * sigma * x.abs(), 0.0),
                Reference::Cauchy { .. } => (e, GRID),
                Reference::Gamma { k, theta } if *k >= 1.0 => {
                    // A cube of a Gaussian draw, see Marsaglia and Tsang.
                    let d = k - 1.0 / 3.0;
                    let z = (x.max(0.0) / (d * theta)).powf(2.0 / 3.0);
                    (e + GRID * d.sqrt() * theta * z, 0.0)
                }
                _ => (e, 0.0),
            };
            let ((f0, s0), (f1, s1)) = (r.cdf(x - e), r.cdf(x + e));
            (if f1 < 0.5 { f1 - f0 } else { s0 - s1 }).abs() + 1e-15 + flat
        })
        .collect();
    (cdf, blur)
}

fn between(a: (f64, f64), b: (f64, f64)) -> f64 {
    let ((f0, s0), (f1, s1)) = (a, b);
    let p = if f1 < 0.5 {
        f1 - f0
    } else if s0 < 0.5 {
        s0 - s1
    } else {
        1.0 - f0 - s1
    };
    p.max(0.0)
}

impl Hist {
    pub fn for_reference(r: &Reference, extra: &[f64]) -> Hist {
        let mut h = Hist::default();
        if r.discrete() {
            let (lo, hi) = r.support();
            let (a, b) = match r {
                Reference::Binomial { n, p, q } => {
                    let n = *n as f64;
                    let sd = (n * p * q).sqrt();
                    (
                        (n * p - 12.0 * sd - 40.0).max(lo).floor(),
                        (n * p + 12.0 * sd + 40.0).min(hi).ceil(),
                    )
                }
                _ => (lo, hi),
            };
            let width = (((b - a + 1.0) / 40000.0).ceil()).max(1.0);
            let bins = ((b - a + 1.0) / width).ceil() as usize;
            h.dense.push(Dense { low: a, width, step: 1.0, counts: vec![0; bins + 2] });
            return h;
        }
        let (a, b) = r.support();
        let mut centers = vec![];
        for c in [a, b] {
            if c.is_finite() {
                centers.push(c);
            }
        }
        centers.extend_from_slice(extra);
        if centers.is_empty() {
            centers.push(r.quantile(0.5));
        }
        centers.dedup();
        let magnitude = r.magnitude();
        for c in centers {
            // Distances that matter: from probability 1e-11 to the extremes.
            let far = [r.quantile(1e-14), r.quantile(1.0 - 1e-14)]
                .iter()
                .map(|x| (x - c).abs())
                .filter(|x| x.is_finite())
                .fold(f64::MIN_POSITIVE, f64::max);
            let mass = |d: f64| {
                let (f1, s1) = r.cdf(c + d);
                let (f0, s0) = r.cdf(c - d);
                if f1 < 0.5 {
                    f1 - f0
                } else if s0 < 0.5 {
                    s0 - s1
                } else {
                    1.0 - f0 - s1
                }
            };
            let mut near = far;
            while near > 1e-290 && mass(near) > 1e-11 {
                near *= 0.25;
            }
            let octaves = (far / near).log2();
            let m = if octaves > 300.0 { 2 } else if octaves > 100.0 { 3 } else { 5 };
            let ulp = magnitude.max(c.abs()) * f64::EPSILON;
            // The resolution of the Gaussian tables is about 1e-7.
            near = near.max(ulp * (1u64 << (m + 6)) as f64).min(far * 0.5);
            h.logs.push(Log::new(c, near, far, m));
        }
        // The body at an even resolution.
        let body = |t: f64| (r.quantile(t), r.quantile(1.0 - t));
        let (mut low, mut high) = body(1e-4);
        let (l, u) = body(0.25);
        if high - low > 50.0 * (u - l) {
            (low, high) = body(0.01);
        }
        let bins = match r {
            Reference::Gamma { .. } | Reference::Beta { .. } => 2048,
            _ => 8192,
        };
        let width = (high - low) / bins as f64;
        if width > 64.0 * f64::EPSILON * magnitude {
            h.dense.push(Dense { low, width, step: 0.0, counts: vec![0; bins + 2] });
        }
        h
    }

    #[inline(always)]
    pub fn add(&mut self, x: f64) {
        self.n += 1;
        if x.is_nan() {
            self.nan += 1;
            return;
        }
        for l in self.logs.iter_mut() {
            l.add(x);
        }
        for d in self.dense.iter_mut() {
            let i = d.cell(x);
            d.counts[i] += 1;
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut out = vec![];
        let mut put = |v: u64| out.extend_from_slice(&v.to_le_bytes());
        put(self.n);
        put(self.nan);
        for l in &self.logs {
            for side in &l.counts {
                for &c in side {
                    put(c);
                }
            }
        }
        for d in &self.dense {
            for &c in &d.counts {
                put(c);
            }
        }
        out
    }

    /// Add the counts of an encoded histogram of the same shape.
    pub fn merge(&mut self, c: &mut Cursor) {
        self.n += c.u64();
        self.nan += c.u64();
        for l in self.logs.iter_mut() {
            for side in l.counts.iter_mut() {
                for v in side.iter_mut() {
                    *v += c.u64();
                }
            }
        }
        for d in self.dense.iter_mut() {
            for v in d.counts.iter_mut() {
                *v += c.u64();
            }
        }
    }

    /// Edges, counts, and steps.
    fn layers(&self) -> Vec<(Vec<f64>, Vec<u64>, f64)> {
        let logs = self.logs.iter().map(|l| (l.edges(), l.ordered(), 0.0));
        logs.chain(self.dense.iter().map(|d| (d.edges(), d.counts.clone(), d.step))).collect()
    }

    /// The number of intervals tested and the most surprising one, as
    /// (surprise, description).
    pub fn test(&self, r: &Reference, slack: f64) -> (u64, f64, String) {
        let mut worst = (0.0, String::from("none"));
        let mut tested = 0;
        if self.nan > 0 {
            return (1, f64::INFINITY, format!("{} draws of {} are NaN", self.nan, self.n));
        }
        if self.n == 0 {
            return (0, 0.0, worst.1);
        }
        for (edges, counts, step) in self.layers() {
            let (cdf, blur) = probabilities(r, &edges, step);
            self.windows(&counts, &cdf, &blur, slack, &mut |s, i, j, k, lo, hi| {
                tested += 1;
                if s > worst.0 {
                    let x = if i == 0 { f64::NEG_INFINITY } else { edges[i - 1] };
                    let y = if j == counts.len() { f64::INFINITY } else { edges[j - 1] - step };
                    worst = (
                        s,
                        format!(
                            "{} of {} draws in [{:e}, {:e}] where the law gives {:.2} to {:.2}",
                            k,
                            self.n,
                            x,
                            y,
                            lo * self.n as f64,
                            hi * self.n as f64
                        ),
                    );
                }
            });
        }
        (tested, worst.0, worst.1)
    }

    /// Visit windows of cells: dyadic lengths at half-length strides, and all
    /// prefixes and suffixes.
    fn windows(
        &self,
        counts: &[u64],
        cdf: &[(f64, f64)],
        blur: &[f64],
        slack: f64,
        visit: &mut dyn FnMut(f64, usize, usize, u64, f64, f64),
    ) {
        let n = counts.len();
        let mut prefix = vec![0u64; n + 1];
        for i in 0..n {
            prefix[i + 1] = prefix[i] + counts[i];
        }
        let at = |i: usize| -> (f64, f64) {
            if i == 0 {
                (0.0, 1.0)
            } else if i == n {
                (1.0, 0.0)
            } else {
                cdf[i - 1]
            }
        };
        let blur_at = |i: usize| if i == 0 || i == n { 0.0 } else { blur[i - 1] };
        let mut one = |i: usize, j: usize| {
            let p = between(at(i), at(j));
            let e = blur_at(i) + blur_at(j) + slack * p.min(1.0 - p);
            let k = prefix[j] - prefix[i];
            let lo = (p - e).max(0.0);
            let hi = (p + e).min(1.0);
            visit(surprise(k, self.n, lo, hi), i, j, k, lo, hi);
        };
        for i in 1..n {
            one(0, i);
            one(i, n);
        }
        let mut w = 1;
        while w < n {
            let stride = (w / 2).max(1);
            let mut i = 0;
            while i + w <= n {
                one(i, i + w);
                i += stride;
            }
            w *= 2;
        }
    }

    /// A crude measure of the states reached: non-empty cells.
    pub fn occupied(&self) -> u64 {
        let a: usize =
            self.logs.iter().flat_map(|l| l.counts.iter()).map(|s| s.iter().filter(|&&c| c > 0).count()).sum();
        let b: usize = self.dense.iter().map(|d| d.counts.iter().filter(|&&c| c > 0).count()).sum();
        (a + b) as u64
    }
}

/// Weighted counts of outcomes of tilted words: sums of likelihood ratios by
/// cell and by the binary order of the ratio.
pub struct Weighted {
    n: u64,
    nan: u64,
    shape: Hist,
    sums: Vec<Vec<f64>>,
}

/// Orders of ratios: 2^(ORDERS - TOP - 1) and below, ..., up to 2^TOP.
const ORDERS: usize = 64;
const TOP: i32 = 4;

impl Weighted {
    pub fn new(shape: &Hist) -> Weighted {
        let logs = shape.logs.iter().map(|l| 2 * l.bins - 1);
        let sums = logs.chain(shape.dense.iter().map(|d| d.counts.len())).map(|k| vec![0.0; k * ORDERS]).collect();
        Weighted { n: 0, nan: 0, shape: shape.clone(), sums }
    }

    #[inline]
    pub fn add(&mut self, x: f64, ratio: f64) {
        self.n += 1;
        if x.is_nan() {
            self.nan += 1;
            return;
        }
        // The order is the least e with ratio <= 2^e.
        let bits = ratio.to_bits();
        let e = (bits >> 52) as i32 - 1023 + (bits & ((1 << 52) - 1) != 0) as i32;
        if e > TOP {
            return;
        }
        let order = ((TOP - e) as usize).min(ORDERS - 1);
        let logs = self.shape.logs.len();
        for (i, l) in self.shape.logs.iter().enumerate() {
            self.sums[i][l.cell(x) * ORDERS + order] += ratio;
        }
        for (i, d) in self.shape.dense.iter().enumerate() {
            self.sums[logs + i][d.cell(x) * ORDERS + order] += ratio;
        }
    }

    /// The number of intervals tested and the most surprising excess.  For any
    /// W, the sum over draws of ratio / W of those with ratio <= W in a cell
    /// is a sum of numbers in [0, 1] of mean at most n p / W, to which
    /// Chernoff's bound applies whatever the sampler does with its words.
    pub fn test(&self, r: &Reference, slack: f64) -> (u64, f64, String) {
        let mut worst = (0.0, String::from("none"));
        let mut tested = 0;
        if self.nan > 0 {
            return (1, f64::INFINITY, format!("{} draws of {} are NaN", self.nan, self.n));
        }
        for (layer, (edges, counts, step)) in self.shape.layers().into_iter().enumerate() {
            let (cdf, blur) = probabilities(r, &edges, step);
            let cells = counts.len();
            // Sums of cells to the left, by the least order admitted.
            let mut prefix = vec![0.0; (cells + 1) * ORDERS];
            for i in 0..cells {
                let mut sum = 0.0;
                for o in (0..ORDERS).rev() {
                    sum += self.sums[layer][i * ORDERS + o];
                    prefix[(i + 1) * ORDERS + o] = prefix[i * ORDERS + o] + sum;
                }
            }
            let at = |i: usize| match i {
                0 => (0.0, 1.0),
                i if i == cells => (1.0, 0.0),
                _ => cdf[i - 1],
            };
            let blur_at = |i: usize| if i == 0 || i == cells { 0.0 } else { blur[i - 1] };
            let mut one = |i: usize, j: usize| {
                let p = between(at(i), at(j));
                let hi = p * (1.0 + slack) + blur_at(i) + blur_at(j);
                for o in 0..ORDERS {
                    let w = 2f64.powi(TOP - o as i32);
                    let sum = prefix[j * ORDERS + o] - prefix[i * ORDERS + o];
                    // Cancellation of the prefix sums.
                    let sum = (sum - 1e-14 * prefix[j * ORDERS + o]).max(0.0) / w * (1.0 - 1e-9);
                    let mean = self.n as f64 * hi / w;
                    if sum <= mean {
                        continue;
                    }
                    tested += 1;
                    let s = if mean > 0.0 { sum * (sum / mean).ln() - (sum - mean) } else { f64::INFINITY };
                    if s > worst.0 {
                        let x = if i == 0 { f64::NEG_INFINITY } else { edges[i - 1] };
                        let y = if j == cells { f64::INFINITY } else { edges[j - 1] - step };
                        worst = (
                            s,
                            format!(
                                "at least {:e} of the draws (by {} tilted ones) are in [{:e}, {:e}] where the law gives {:e}",
                                sum * w / self.n as f64,
                                self.n,
                                x,
                                y,
                                hi
                            ),
                        );
                    }
                }
            };
            for i in 1..cells {
                one(0, i);
                one(i, cells);
            }
            let mut w = 1;
            while w < cells {
                let stride = (w / 2).max(1);
                let mut i = 0;
                while i + w <= cells {
                    one(i, i + w);
                    i += stride;
                }
                w *= 2;
            }
        }
        (tested, worst.0, worst.1)
    }
}

/// Counts of outcomes of stratified words, in pairs of the same stratum.
pub struct Paired {
    n: u64,
    nan: u64,
    shape: Hist,
    /// By layer: outcomes, outcomes whose partner is in another cell, and
    /// pairs that straddle an edge (as differences).
    counts: Vec<Vec<u32>>,
    parted: Vec<Vec<u32>>,
    straddle: Vec<Vec<i32>>,
}

impl Paired {
    pub fn new(shape: &Hist) -> Paired {
        let logs = shape.logs.iter().map(|l| 2 * l.bins - 1);
        let cells: Vec<usize> = logs.chain(shape.dense.iter().map(|d| d.counts.len())).collect();
        Paired {
            n: 0,
            nan: 0,
            shape: shape.clone(),
            counts: cells.iter().map(|&k| vec![0; k]).collect(),
            parted: cells.iter().map(|&k| vec![0; k]).collect(),
            straddle: cells.iter().map(|&k| vec![0; k + 1]).collect(),
        }
    }

    #[inline]
    pub fn add(&mut self, x: f64, y: f64) {
        self.n += 2;
        if x.is_nan() || y.is_nan() {
            self.nan += 1;
            return;
        }
        let logs = self.shape.logs.len();
        for layer in 0..self.counts.len() {
            let (i, j) = if layer < logs {
                let l = &self.shape.logs[layer];
                (l.cell(x), l.cell(y))
            } else {
                let d = &self.shape.dense[layer - logs];
                (d.cell(x), d.cell(y))
            };
            self.counts[layer][i] += 1;
            self.counts[layer][j] += 1;
            if i != j {
                self.parted[layer][i] += 1;
                self.parted[layer][j] += 1;
                // Edge e is between cells e - 1 and e.
                self.straddle[layer][i.min(j) + 1] += 1;
                self.straddle[layer][i.max(j) + 1] -= 1;
            }
        }
    }

    /// The number of intervals tested and the most surprising one.  Draws are
    /// independent, each stratum is visited equally often, and so counts have
    /// mean n p.  Pairs of draws of one stratum that an edge separates estimate
    /// the variance V of a count without bias and from above; Bernstein's
    /// inequality does the rest.
    pub fn test(&self, r: &Reference, slack: f64) -> (u64, f64, String) {
        let mut worst = (0.0, String::from("none"));
        let mut tested = 0;
        if self.nan > 0 {
            return (1, f64::INFINITY, format!("{} draws of {} are NaN", self.nan, self.n));
        }
        for (layer, (edges, _, step)) in self.shape.layers().into_iter().enumerate() {
            let (cdf, blur) = probabilities(r, &edges, step);
            let cells = edges.len() + 1;
            let mut count = vec![0u64; cells + 1];
            let mut parted = vec![0u64; cells + 1];
            let mut straddle = vec![0i64; cells + 1];
            let mut open = 0i64;
            for i in 0..cells {
                count[i + 1] = count[i] + self.counts[layer][i] as u64;
                parted[i + 1] = parted[i] + self.parted[layer][i] as u64;
                open += self.straddle[layer][i] as i64;
                straddle[i] = open;
            }
            straddle[0] = 0;
            straddle[cells] = 0;
            let at = |i: usize| match i {
                0 => (0.0, 1.0),
                i if i == cells => (1.0, 0.0),
                _ => cdf[i - 1],
            };
            let blur_at = |i: usize| if i == 0 || i == cells { 0.0 } else { blur[i - 1] };
            let n = self.n as f64;
            let l = TILT_THRESHOLD;
            let mut one = |i: usize, j: usize| {
                let p = between(at(i), at(j));
                let e = blur_at(i) + blur_at(j) + slack * p.min(1.0 - p);
                let k = (count[j] - count[i]) as f64;
                let t = (k - n * p).abs() - n * e;
                tested += 1;
                if t <= 0.0 {
                    return;
                }
                let d = ((straddle[i] + straddle[j]) as f64).min((parted[j] - parted[i]) as f64);
                let v = d + l + (l * l + 2.0 * l * d).sqrt();
                let s = t * t / (2.0 * (v + t / 3.0));
                if s > worst.0 {
                    let x = if i == 0 { f64::NEG_INFINITY } else { edges[i - 1] };
                    let y = if j == cells { f64::INFINITY } else { edges[j - 1] - step };
                    worst = (
                        s,
                        format!(
                            "{} of {} stratified draws in [{:e}, {:e}] where the law gives {:.2} (with a deviation of at most {:.2})",
                            k,
                            self.n,
                            x,
                            y,
                            n * p,
                            v.sqrt()
                        ),
                    );
                }
            };
            for i in 1..cells {
                one(0, i);
                one(i, cells);
            }
            let mut w = 1;
            while w < cells {
                let stride = (w / 4).max(1);
                let mut i = 0;
                while i + w <= cells {
                    one(i, i + w);
                    i += stride;
                }
                w *= 2;
            }
        }
        (tested, worst.0, worst.1)
    }
}
