//! Seeded generation of parameters.  Regimes are mixed per run so that edge
//! shapes (mode at an endpoint, equal shapes, integral np, shapes on both
//! sides of one, tiny failure probabilities, many trials) are all common.

use crate::rng::Rng;
use crate::spec::Spec;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Family {
    Bernoulli,
    Beta,
    Binomial,
    Categorical,
    Cauchy,
    Exponential,
    Gamma,
    Gaussian,
    Laplace,
    Logistic,
    Lognormal,
    Pert,
    Triangular,
    Uniform,
}

pub const ALL: [Family; 14] = [
    Family::Bernoulli,
    Family::Beta,
    Family::Binomial,
    Family::Categorical,
    Family::Cauchy,
    Family::Exponential,
    Family::Gamma,
    Family::Gaussian,
    Family::Laplace,
    Family::Logistic,
    Family::Lognormal,
    Family::Pert,
    Family::Triangular,
    Family::Uniform,
];

fn location(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => r.range(-1.0, 1.0),
        2 => r.range(-5.0, 5.0).round(),
        3 => r.range(-100.0, 100.0),
        _ => r.range(-10.0, 10.0),
    }
}

fn scale(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => 1.0,
        1 => r.logrange(1e-3, 1e3),
        2 => r.between(1, 9) as f64,
        _ => r.logrange(0.1, 10.0),
    }
}

fn interval(r: &mut Rng) -> (f64, f64) {
    match r.below(4) {
        0 => (0.0, 1.0),
        1 => {
            let a = r.range(-5.0, 5.0).round();
            (a, a + r.between(1, 8) as f64)
        }
        _ => {
            let a = location(r);
            (a, a + scale(r).max(a.abs() * 1e-2))
        }
    }
}

fn shape(r: &mut Rng) -> f64 {
    match r.below(12) {
        11 if r.chance(0.5) => r.logrange(150.0, 1e4),
        // Next to a special value.
        10 => *r.pick(&[0.5, 1.0, 1.0, 2.0, 3.0]) * (1.0 + r.range(-1.0, 1.0) * r.logrange(1e-9, 0.05)),
        0 => 1.0,
        1 => 2.0,
        2 => r.between(1, 20) as f64,
        3 => r.between(1, 12) as f64 * 0.5,
        4 => r.range(0.05, 1.0),
        5 => r.range(0.3, 1.0),
        6 => r.range(1.0, 2.0),
        7 => r.logrange(1.0, 150.0),
        8 => r.logrange(0.01, 20.0),
        _ => r.range(1.0, 10.0),
    }
}

fn probability(r: &mut Rng) -> f64 {
    match r.below(9) {
        8 => 0.5 + r.range(-1.0, 1.0) * r.logrange(1e-12, 0.01),
        0 => 0.5,
        1 => r.between(1, 15) as f64 / 16.0,
        2 => r.between(1, 99) as f64 / 100.0,
        3 => r.logrange(1e-9, 0.1),
        4 => 1.0 - r.logrange(1e-6, 0.1),
        _ => r.range(0.01, 0.99),
    }
}

pub fn categorical(r: &mut Rng) -> Vec<f64> {
    if r.chance(0.06) {
        // Many categories, most of the mass on a few of them.
        let k = r.between(41, 300) as usize;
        let mut w: Vec<f64> = (0..k).map(|_| r.logrange(1e-12, 1e-3) / k as f64).collect();
        let at = if r.chance(0.5) { k - 1 - r.index(4) } else { r.index(k) };
        if r.chance(0.5) {
            // Next to a certainty far from zero.
            w.iter_mut().for_each(|x| *x = 0.0);
            w[if at > 0 { at - 1 } else { 1 }] = r.logrange(1e-12, 1.0);
        }
        w[at] = 1.0;
        let s: f64 = w.iter().sum();
        return w.iter().map(|x| x / s).collect();
    }
    let k = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => r.between(9, 40) as usize,
        _ => r.between(2, 9) as usize,
    };
    let mut w: Vec<f64> = match r.below(5) {
        // Dyadic weights: exact sums, exact ties at one half.
        0 => {
            let mut left = 64u64;
            let mut v = vec![];
            for i in 0..k {
                let x = if i + 1 == k { left } else { r.between(0, left) };
                left -= x;
                v.push(x as f64 / 64.0);
            }
            r.shuffle(&mut v);
            return v;
        }
        1 => vec![1.0; k],
        2 => (0..k).map(|_| r.between(0, 4) as f64).collect(),
        3 => (0..k).map(|_| r.logrange(1e-9, 1.0)).collect(),
        _ => (0..k).map(|_| r.unit()).collect(),
    };
    if r.chance(0.3) && k > 1 {
        // Almost a tie of the most likely ones.
        let top = (0..k).max_by(|&i, &j| w[i].partial_cmp(&w[j]).unwrap()).unwrap();
        let i = r.index(k);
        w[i] = w[top] * (1.0 + r.range(-1.0, 1.0) * r.logrange(1e-15, 1e-3));
    }
    if r.chance(0.4) && k > 1 {
        // Impossible outcomes at the edges and inside.
        let i = match r.below(3) {
            0 => 0,
            1 => k - 1,
            _ => r.index(k),
        };
        w[i] = 0.0;
    }
    let s: f64 = w.iter().sum();
    if s == 0.0 {
        w[k / 2] = 1.0;
        return w;
    }
    for x in w.iter_mut() {
        *x /= s;
    }
    w
}

pub fn binomial(r: &mut Rng) -> Spec {
    if r.chance(0.03) {
        let n = r.logrange(1e6, 1e9) as usize;
        let p = if r.chance(0.5) { r.range(0.01, 0.99) } else { (r.logrange(100.0, 1e5) / n as f64).min(0.5) };
        return if r.chance(0.25) { Spec::BinomialFailure { n, q: p } } else { Spec::Binomial { n, p } };
    }
    let n = match r.below(10) {
        0 => r.between(0, 3),
        1 | 2 => r.between(1, 40),
        3 | 4 => r.between(40, 999),
        5 => r.between(900, 1100),
        6 | 7 => r.between(1000, 20000),
        8 => r.logrange(1e3, 1e6) as u64,
        _ => r.between(1, 300),
    } as usize;
    let p = match r.below(6) {
        // Small means at any n, both ends.
        0 if n > 1 => (r.logrange(0.05, 60.0) / n as f64).min(0.9),
        1 if n > 1 => 1.0 - (r.logrange(0.05, 60.0) / n as f64).min(0.9),
        // Integral n p.
        2 if n > 2 => r.between(1, n as u64 - 1) as f64 / n as f64,
        _ => probability(r),
    };
    if r.chance(0.25) {
        Spec::BinomialFailure { n, q: 1.0 - p }
    } else {
        Spec::Binomial { n, p }
    }
}

pub fn spec(r: &mut Rng, f: Family) -> Spec {
    match f {
        Family::Bernoulli => {
            let p = probability(r);
            if r.chance(0.4) {
                Spec::BernoulliFailure { q: if r.chance(0.3) { r.logrange(1e-15, 1e-3) } else { p } }
            } else {
                Spec::Bernoulli { p }
            }
        }
        Family::Beta => {
            let (a, b) = interval(r);
            let alpha = shape(r);
            let beta = match r.below(10) {
                0 | 1 => alpha,
                2 => alpha * (1.0 + r.range(-1.0, 1.0) * r.logrange(1e-8, 0.05)),
                _ => shape(r),
            };
            Spec::Beta { alpha, beta, a, b }
        }
        Family::Binomial => binomial(r),
        Family::Categorical => Spec::Categorical { p: categorical(r) },
        Family::Cauchy => Spec::Cauchy { x0: location(r), gamma: scale(r) },
        Family::Exponential => Spec::Exponential { lambda: scale(r) },
        Family::Gamma => Spec::Gamma { k: shape(r), theta: scale(r) },
        Family::Gaussian => Spec::Gaussian { mu: location(r), sigma: scale(r) },
        Family::Laplace => Spec::Laplace { mu: location(r), b: scale(r) },
        Family::Logistic => Spec::Logistic { mu: location(r), s: scale(r) },
        Family::Lognormal => {
            if r.chance(0.05) {
                return Spec::Lognormal { mu: 0.0, sigma: 1.0 };
            }
            Spec::Lognormal { mu: r.range(-3.0, 3.0), sigma: r.logrange(0.05, 2.5) }
        }
        Family::Pert => {
            let (a, c) = interval(r);
            let t = match r.below(6) {
                0 => 0.5,
                5 => 0.5 + r.range(-1.0, 1.0) * if r.chance(0.3) { r.logrange(1e-8, 0.1) } else { 0.03 },
                1 => r.logrange(1e-3, 0.1),
                2 => 1.0 - r.logrange(1e-3, 0.1),
                _ => r.range(0.02, 0.98),
            };
            let b = a + (c - a) * t;
            if a < b && b < c {
                Spec::Pert { a, b, c }
            } else {
                Spec::Pert { a: 0.0, b: 0.5, c: 1.0 }
            }
        }
        Family::Triangular => {
            let (a, b) = interval(r);
            let c = match r.below(9) {
                0 => a,
                1 => b,
                2 => 0.5 * (a + b),
                // Modes next to the ends and to the middle.
                3 => (a + (b - a) * r.logrange(1e-8, 0.1)).min(b).max(a),
                4 => (b - (b - a) * r.logrange(1e-8, 0.1)).min(b).max(a),
                5 => (0.5 * (a + b) + (b - a) * r.range(-1.0, 1.0) * r.logrange(1e-8, 0.1)).min(b).max(a),
                _ => (a + (b - a) * r.unit()).min(b).max(a),
            };
            Spec::Triangular { a, b, c }
        }
        Family::Uniform => {
            let (a, b) = interval(r);
            Spec::Uniform { a, b }
        }
    }
}

/// A spec next to another one: what is kept of one must not serve the other.
pub fn neighbour(r: &mut Rng, s: &Spec) -> Spec {
    let e = 1.0 + r.range(-1.0, 1.0) * r.logrange(1e-15, 1e-2);
    let unit = |x: f64| x.max(1e-300).min(1.0 - 0.5 * f64::EPSILON);
    match s.clone() {
        Spec::Bernoulli { p } => Spec::Bernoulli { p: unit(p * e) },
        Spec::BernoulliFailure { q } => Spec::BernoulliFailure { q: unit(q * e) },
        Spec::Beta { alpha, beta, a, b } => match r.below(4) {
            0 => Spec::Beta { alpha: alpha * e, beta, a, b },
            1 => Spec::Beta { alpha, beta: beta * e, a, b },
            2 => Spec::Beta { alpha: beta, beta: alpha, a, b },
            _ => Spec::Beta { alpha, beta, a, b: b + (b - a) },
        },
        Spec::Binomial { n, p } => match r.below(3) {
            0 => Spec::Binomial { n, p: unit(p * e) },
            1 => Spec::Binomial { n, p: unit(1.0 - p) },
            _ => Spec::Binomial { n: n + 1, p },
        },
        Spec::BinomialFailure { n, q } => match r.below(3) {
            0 => Spec::BinomialFailure { n, q: unit(q * e) },
            1 => Spec::Binomial { n, p: q },
            _ => Spec::BinomialFailure { n: n + 1, q },
        },
        Spec::Categorical { mut p } => {
            let i = r.index(p.len());
            let j = r.index(p.len());
            p.swap(i, j);
            Spec::Categorical { p }
        }
        Spec::Cauchy { x0, gamma } => Spec::Cauchy { x0, gamma: gamma * e },
        Spec::Exponential { lambda } => Spec::Exponential { lambda: lambda * e },
        Spec::Gamma { k, theta } => {
            if r.chance(0.5) {
                Spec::Gamma { k: k * e, theta }
            } else {
                Spec::Gamma { k, theta: theta * e }
            }
        }
        Spec::Gaussian { mu, sigma } => Spec::Gaussian { mu, sigma: sigma * e },
        Spec::Laplace { mu, b } => Spec::Laplace { mu, b: b * e },
        Spec::Logistic { mu, s } => Spec::Logistic { mu, s: s * e },
        Spec::Lognormal { mu, sigma } => Spec::Lognormal { mu, sigma: sigma * e },
        Spec::Pert { a, b, c } => {
            let d = a + c - b;
            if a < d && d < c {
                Spec::Pert { a, b: d, c }
            } else {
                Spec::Pert { a, b, c }
            }
        }
        Spec::Triangular { a, b, c } => Spec::Triangular { a, b, c: (a + b - c).min(b).max(a) },
        Spec::Uniform { a, b } => Spec::Uniform { a, b: a + (b - a) * e },
    }
}

/// Move a law far from zero, compared with its width, or to another scale.
pub fn displace(r: &mut Rng, s: &mut Spec) {
    let far = r.logrange(10.0, 1e6) * if r.chance(0.5) { 1.0 } else { -1.0 };
    let unit = r.logrange(1e-30, 1e30);
    match s {
        Spec::Uniform { a, b } => {
            let w = (*b - *a) * if r.chance(0.5) { unit } else { 1.0 };
            *a = far * w;
            *b = *a + w;
        }
        Spec::Cauchy { x0: at, gamma: width }
        | Spec::Gaussian { mu: at, sigma: width }
        | Spec::Laplace { mu: at, b: width }
        | Spec::Logistic { mu: at, s: width } => match r.below(3) {
            // Far from zero, at another scale, or both.
            0 => *at = far * *width,
            1 => {
                *at *= unit;
                *width *= unit;
            }
            _ => {
                *width *= unit;
                *at = far * *width;
            }
        },
        Spec::Lognormal { mu, sigma } => match r.below(5) {
            // Quantities in range of which parts are not.
            3 | 4 => {
                *sigma = r.logrange(1.0, 13.0);
                *mu = -0.5 * (*sigma * *sigma + r.range(-600.0, 690.0));
            }
            0 => *mu = r.range(-600.0, 600.0),
            1 => *sigma = r.logrange(0.02, 8.0),
            _ => {
                *sigma = r.logrange(0.02, 5.0);
                *mu = r.range(-100.0, 100.0);
            }
        },
        Spec::BernoulliFailure { q } => *q = r.logrange(1e-300, 1e-12),
        Spec::Bernoulli { p } => *p = r.logrange(1e-300, 1e-9),
        Spec::BinomialFailure { n, q } if *n < 1_000_000 => *q = r.logrange(1e-300, 1e-12),
        Spec::Binomial { n, p } if *n < 1_000_000 => *p = r.logrange(1e-300, 1e-9),
        Spec::Exponential { lambda } => *lambda *= unit,
        Spec::Pert { a, b, c } => {
            if *a * unit < *b * unit && *b * unit < *c * unit {
                *a *= unit;
                *b *= unit;
                *c *= unit;
            }
        }
        Spec::Gamma { theta, .. } => *theta *= unit,
        Spec::Triangular { a, b, c } => {
            if r.chance(0.5) {
                let t = far * (*b - *a) - *a;
                *a += t;
                *b += t;
                *c += t;
            } else {
                *a *= unit;
                *b *= unit;
                *c *= unit;
            }
            *c = c.max(*a).min(*b);
        }
        Spec::Pert { a, b, c } if r.chance(0.5) => {
            let t = far * (*c - *a) - *a;
            if *a + t < *b + t && *b + t < *c + t {
                *a += t;
                *b += t;
                *c += t;
            }
        }
        Spec::Beta { a, b, .. } if r.chance(0.5) => {
            let w = *b - *a;
            *a = far * w;
            *b = *a + w;
        }
        Spec::Beta { a, b, .. } => {
            let w = (*b - *a) * unit;
            *a *= unit;
            *b = *a + w;
        }
        _ => {}
    }
}

/// Move a law to be drawn from, now and then.
pub fn displaced(r: &mut Rng, mut s: Spec) -> Spec {
    if !r.chance(0.15) {
        return s;
    }
    let far = r.logrange(10.0, 1e4) * if r.chance(0.5) { 1.0 } else { -1.0 };
    match &mut s {
        Spec::Uniform { a, b } => {
            let w = *b - *a;
            *a = far * w;
            *b = *a + w;
        }
        Spec::Cauchy { x0, gamma } => *x0 = far * *gamma,
        Spec::Gaussian { mu, sigma } => *mu = far * *sigma,
        Spec::Laplace { mu, b } => *mu = far * *b,
        Spec::Logistic { mu, s } => *mu = far * *s,
        Spec::Lognormal { mu, sigma } => {
            *mu = r.range(-690.0, 690.0);
            *sigma *= r.logrange(1.0, 10.0);
        }
        s => displace(r, s),
    }
    s
}

/// Valid parameters far from the ordinary.
pub fn extreme(r: &mut Rng) -> Spec {
    match r.below(11) {
        10 => Spec::Gamma { k: r.logrange(1e-8, 0.05), theta: scale(r) },
        0 => {
            let n = r.logrange(1e4, 2e6) as usize;
            let p = *r.pick(&[1e-9, 1e-7, 1e-6, 1e-5, 1e-3, 0.5, 0.999]);
            if r.chance(0.5) {
                Spec::Binomial { n, p }
            } else {
                Spec::BinomialFailure { n, q: p }
            }
        }
        1 => Spec::Binomial { n: r.between(0, 2) as usize, p: r.unit() },
        2 => Spec::Beta { alpha: r.logrange(0.01, 1e4), beta: r.logrange(0.01, 1e4), a: 0.0, b: 1.0 },
        3 => Spec::Gamma { k: r.logrange(0.01, 1e5), theta: r.logrange(1e-6, 1e6) },
        4 => Spec::Gaussian { mu: r.range(-1e6, 1e6), sigma: r.logrange(1e-6, 1e6) },
        5 => Spec::Lognormal { mu: r.range(-5.0, 5.0), sigma: r.logrange(1e-3, 6.0) },
        6 => {
            let k = r.between(1, 400) as usize;
            Spec::Categorical { p: vec![1.0 / k as f64; k] }
        }
        7 => Spec::Bernoulli { p: r.logrange(1e-300, 1.0) },
        8 => Spec::BinomialFailure { n: r.between(1, 1100) as usize, q: { let lo = *r.pick(&[1e-15, 1e-15, 1e-300]); r.logrange(lo, 1e-3) } },
        _ => {
            let a = r.range(-1e3, 1e3);
            let b = a + r.logrange(1e-3, 1e3);
            Spec::Triangular { a, b, c: *r.pick(&[a, b, 0.5 * (a + b)]) }
        }
    }
}
