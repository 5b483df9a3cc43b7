//! The executable reference model: textbook definitions of the fourteen
//! families, implemented without any code of /repo, `special` or Rust `libm`
//! (only the C library's lgamma/erfc and std's elementary functions).

use crate::spec::Spec;
use std::f64::consts::{E, LN_2, PI, SQRT_2};

extern "C" {
    fn lgamma(x: f64) -> f64;
    fn erfc(x: f64) -> f64;
}

pub fn ln_gamma(x: f64) -> f64 {
    unsafe { lgamma(x) }
}
pub fn erfc_(x: f64) -> f64 {
    unsafe { erfc(x) }
}

pub fn digamma(mut x: f64) -> f64 {
    let mut s = 0.0;
    while x < 12.0 {
        s -= 1.0 / x;
        x += 1.0;
    }
    let r = 1.0 / (x * x);
    s + x.ln()
        - 0.5 / x
        - r * (1.0 / 12.0
            - r * (1.0 / 120.0
                - r * (1.0 / 252.0 - r * (1.0 / 240.0 - r * (1.0 / 132.0 - r * 691.0 / 32760.0)))))
}

/// ln Γ(n + 1) - [(n + 1/2) ln n - n + ln √(2π)]
fn stirling_error(n: f64) -> f64 {
    if n <= 15.0 {
        return ln_gamma(n + 1.0) - (n + 0.5) * n.ln() + n - 0.5 * (2.0 * PI).ln();
    }
    let r = 1.0 / (n * n);
    (1.0 / 12.0
        - r * (1.0 / 360.0
            - r * (1.0 / 1260.0 - r * (1.0 / 1680.0 - r * (1.0 / 1188.0 - r * 691.0 / 360360.0)))))
        / n
}

/// x ln(x / m) + m - x
fn deviance(x: f64, m: f64) -> f64 {
    if x == 0.0 {
        return m;
    }
    let d = (x - m) / m;
    if d.abs() < 0.15 {
        let mut s = 0.0;
        let mut t = d;
        let mut k = 2.0;
        loop {
            t *= d;
            let c = t / (k * (k - 1.0));
            let n = if k as u64 % 2 == 0 { s + c } else { s - c };
            if n == s || k > 80.0 {
                return m * n;
            }
            s = n;
            k += 1.0;
        }
    }
    if m.is_infinite() {
        return m;
    }
    let r = x / m;
    let l = if r.is_finite() && r >= f64::MIN_POSITIVE { r.ln() } else { x.ln() - m.ln() };
    x * l + m - x
}

/// Γ(n+1) / Γ(x+1) / Γ(n-x+1) p^x q^(n-x) for real 0 <= x <= n.
pub fn binomial_weight(x: f64, y: f64, p: f64, q: f64) -> f64 {
    let n = x + y;
    if x == 0.0 {
        if y == 0.0 {
            return 1.0;
        }
        return if p < 0.1 { (y * (-p).ln_1p()).exp().max((y * q.ln()).exp()) } else { (y * q.ln()).exp() };
    }
    if y == 0.0 {
        return if q < 0.1 { (x * (-q).ln_1p()).exp().max((x * p.ln()).exp()) } else { (x * p.ln()).exp() };
    }
    let l = stirling_error(n)
        - stirling_error(x)
        - stirling_error(y)
        - deviance(x, n * p)
        - deviance(y, n * q);
    l.exp() * (n / (2.0 * PI * x * y)).sqrt()
}

/// Regularised incomplete beta function: (I_x(a,b), 1 - I_x(a,b)), y = 1 - x.
pub fn inc_beta(x: f64, y: f64, a: f64, b: f64) -> (f64, f64) {
    if x <= 0.0 {
        return (0.0, 1.0);
    }
    if y <= 0.0 {
        return (1.0, 0.0);
    }
    let w = binomial_weight(a, b, x, y) * a * b / (a + b); // x^a y^b / B(a,b)
    if x < (a + 1.0) / (a + b + 2.0) {
        let v = w * beta_fraction(x, a, b) / a;
        (v, 1.0 - v)
    } else {
        let v = w * beta_fraction(y, b, a) / b;
        (1.0 - v, v)
    }
}

fn beta_fraction(x: f64, a: f64, b: f64) -> f64 {
    const TINY: f64 = 1e-300;
    let fix = |v: f64| if v.abs() < TINY { TINY } else { v };
    let mut c = 1.0;
    let mut d = 1.0 / fix(1.0 - (a + b) * x / (a + 1.0));
    let mut h = d;
    let mut m = 1.0;
    loop {
        let m2 = 2.0 * m;
        let aa = m * (b - m) * x / ((a + m2 - 1.0) * (a + m2));
        d = 1.0 / fix(1.0 + aa * d);
        c = fix(1.0 + aa / c);
        h *= d * c;
        let aa = -(a + m) * (a + b + m) * x / ((a + m2) * (a + m2 + 1.0));
        d = 1.0 / fix(1.0 + aa * d);
        c = fix(1.0 + aa / c);
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-16 || m > 2e6 {
            return h;
        }
        m += 1.0;
    }
}

/// Regularised incomplete gamma functions (P, Q).
pub fn inc_gamma(a: f64, x: f64) -> (f64, f64) {
    if x <= 0.0 {
        return (0.0, 1.0);
    }
    if x.is_infinite() {
        return (1.0, 0.0);
    }
    // x^a e^-x / Γ(a+1)
    let w = (-stirling_error(a) - deviance(a, x)).exp() / (2.0 * PI * a).sqrt();
    if x < a + 1.0 {
        let mut s = 1.0;
        let mut t = 1.0;
        let mut k = a;
        loop {
            k += 1.0;
            t *= x / k;
            s += t;
            if t < s * 1e-17 {
                break;
            }
        }
        let v = w * s;
        (v, 1.0 - v)
    } else {
        const TINY: f64 = 1e-300;
        let mut b = x + 1.0 - a;
        let mut c = 1.0 / TINY;
        let mut d = 1.0 / b;
        let mut h = d;
        let mut i = 1.0;
        loop {
            let an = -i * (i - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < TINY {
                d = TINY;
            }
            c = b + an / c;
            if c.abs() < TINY {
                c = TINY;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-16 || i > 1e6 {
                break;
            }
            i += 1.0;
        }
        let v = w * a * h;
        (1.0 - v, v)
    }
}

#[derive(Clone, Debug)]
pub enum Reference {
    Bernoulli { p: f64, q: f64 },
    Beta { alpha: f64, beta: f64, a: f64, b: f64 },
    Binomial { n: usize, p: f64, q: f64 },
    Categorical { p: Vec<f64>, below: Vec<f64>, above: Vec<f64> },
    Cauchy { x0: f64, gamma: f64 },
    Exponential { lambda: f64 },
    Gamma { k: f64, theta: f64 },
    Gaussian { mu: f64, sigma: f64 },
    Laplace { mu: f64, b: f64 },
    Logistic { mu: f64, s: f64 },
    Lognormal { mu: f64, sigma: f64 },
    Triangular { a: f64, b: f64, c: f64 },
    Uniform { a: f64, b: f64 },
}

pub struct Moments {
    pub mean: f64,
    pub variance: f64,
    pub skewness: f64,
    pub kurtosis: f64,
}

impl Reference {
    pub fn new(spec: &Spec) -> Reference {
        match spec.clone() {
            Spec::Bernoulli { p } => Reference::Bernoulli { p, q: 1.0 - p },
            Spec::BernoulliFailure { q } => Reference::Bernoulli { p: 1.0 - q, q },
            Spec::Beta { alpha, beta, a, b } => Reference::Beta { alpha, beta, a, b },
            Spec::Binomial { n, p } => Reference::Binomial { n, p, q: 1.0 - p },
            Spec::BinomialFailure { n, q } => Reference::Binomial { n, p: 1.0 - q, q },
            Spec::Categorical { p } => {
                // Compensated partial sums from below and from above.
                let run = |it: &mut dyn Iterator<Item = f64>| {
                    let (mut s, mut c) = (0.0f64, 0.0f64);
                    let mut v = vec![];
                    for x in it {
                        let t = s + x;
                        c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
                        s = t;
                        v.push(s + c);
                    }
                    v
                };
                let below = run(&mut p.iter().cloned());
                let up = run(&mut p.iter().rev().cloned());
                let k = p.len();
                // above[i] = P(X > i)
                let above =
                    (0..k).map(|i| if i + 1 == k { 0.0 } else { up[k - 2 - i] }).collect();
                Reference::Categorical { p, below, above }
            }
            Spec::Cauchy { x0, gamma } => Reference::Cauchy { x0, gamma },
            Spec::Exponential { lambda } => Reference::Exponential { lambda },
            Spec::Gamma { k, theta } => Reference::Gamma { k, theta },
            Spec::Gaussian { mu, sigma } => Reference::Gaussian { mu, sigma },
            Spec::Laplace { mu, b } => Reference::Laplace { mu, b },
            Spec::Logistic { mu, s } => Reference::Logistic { mu, s },
            Spec::Lognormal { mu, sigma } => Reference::Lognormal { mu, sigma },
            Spec::Pert { a, b, c } => {
                let alpha = 1.0 + 4.0 * (b - a) / (c - a);
                let beta = 1.0 + 4.0 * (c - b) / (c - a);
                Reference::Beta { alpha, beta, a, b: c }
            }
            Spec::Triangular { a, b, c } => Reference::Triangular { a, b, c },
            Spec::Uniform { a, b } => Reference::Uniform { a, b },
        }
    }

    pub fn discrete(&self) -> bool {
        matches!(
            self,
            Reference::Bernoulli { .. } | Reference::Binomial { .. } | Reference::Categorical { .. }
        )
    }

    /// (P(X <= x), P(X > x)), both with full relative accuracy.
    pub fn cdf(&self, x: f64) -> (f64, f64) {
        match *self {
            Reference::Bernoulli { p, q } => {
                if x < 0.0 {
                    (0.0, 1.0)
                } else if x < 1.0 {
                    (q, p)
                } else {
                    (1.0, 0.0)
                }
            }
            Reference::Beta { alpha, beta, a, b } => {
                if x <= a {
                    return (0.0, 1.0);
                }
                if x >= b {
                    return (1.0, 0.0);
                }
                inc_beta((x - a) / (b - a), (b - x) / (b - a), alpha, beta)
            }
            Reference::Binomial { n, p, q } => {
                if x < 0.0 {
                    return (0.0, 1.0);
                }
                let k = x.floor();
                if k >= n as f64 {
                    return (1.0, 0.0);
                }
                let (f, s) = inc_beta(q, p, n as f64 - k, k + 1.0);
                (f, s)
            }
            Reference::Categorical { ref p, ref below, ref above } => {
                if x < 0.0 {
                    return (0.0, 1.0);
                }
                let k = x.floor();
                if k >= (p.len() - 1) as f64 {
                    return (1.0, 0.0);
                }
                (below[k as usize], above[k as usize])
            }
            Reference::Cauchy { x0, gamma } => {
                let z = (x - x0) / gamma;
                (1f64.atan2(-z) / PI, 1f64.atan2(z) / PI)
            }
            Reference::Exponential { lambda } => {
                if x <= 0.0 {
                    (0.0, 1.0)
                } else {
                    (-(-lambda * x).exp_m1(), (-lambda * x).exp())
                }
            }
            Reference::Gamma { k, theta } => inc_gamma(k, x / theta),
            Reference::Gaussian { mu, sigma } => gauss((x - mu) / sigma),
            Reference::Laplace { mu, b } => {
                let z = (x - mu) / b;
                if z <= 0.0 {
                    let f = 0.5 * z.exp();
                    (f, 1.0 - f)
                } else {
                    let s = 0.5 * (-z).exp();
                    (1.0 - s, s)
                }
            }
            Reference::Logistic { mu, s } => {
                let z = (x - mu) / s;
                if z <= 0.0 {
                    let e = z.exp();
                    (e / (1.0 + e), 1.0 / (1.0 + e))
                } else {
                    let e = (-z).exp();
                    (1.0 / (1.0 + e), e / (1.0 + e))
                }
            }
            Reference::Lognormal { mu, sigma } => {
                if x <= 0.0 {
                    (0.0, 1.0)
                } else {
                    gauss((x.ln() - mu) / sigma)
                }
            }
            Reference::Triangular { a, b, c } => {
                if x <= a {
                    (0.0, 1.0)
                } else if x >= b {
                    (1.0, 0.0)
                } else if x < c {
                    let f = ((x - a) / (b - a)) * ((x - a) / (c - a));
                    (f, 1.0 - f)
                } else {
                    let s = ((b - x) / (b - a)) * ((b - x) / (b - c));
                    (1.0 - s, s)
                }
            }
            Reference::Uniform { a, b } => {
                if x <= a {
                    (0.0, 1.0)
                } else if x >= b {
                    (1.0, 0.0)
                } else {
                    ((x - a) / (b - a), (b - x) / (b - a))
                }
            }
        }
    }

    /// P(X < x) and P(X >= x).
    pub fn cdf_left(&self, x: f64) -> (f64, f64) {
        if self.discrete() {
            self.cdf(x.ceil() - 1.0)
        } else {
            self.cdf(x)
        }
    }

    /// Density or mass.
    pub fn density(&self, x: f64) -> f64 {
        if x.is_infinite() {
            return 0.0;
        }
        match *self {
            Reference::Bernoulli { p, q } => {
                if x == 0.0 {
                    q
                } else if x == 1.0 {
                    p
                } else {
                    0.0
                }
            }
            Reference::Beta { alpha, beta, a, b } => {
                if x < a || x > b {
                    return 0.0;
                }
                let s = b - a;
                let (u, v) = ((x - a) / s, (b - x) / s);
                let edge = |shape: f64, other: f64| {
                    if shape < 1.0 {
                        f64::INFINITY
                    } else if shape == 1.0 {
                        other / s
                    } else {
                        0.0
                    }
                };
                if u == 0.0 {
                    return edge(alpha, beta);
                }
                if v == 0.0 {
                    return edge(beta, alpha);
                }
                binomial_weight(alpha, beta, u, v) * alpha * beta / (alpha + beta) / (u * v) / s
            }
            Reference::Binomial { n, p, q } => {
                if x < 0.0 || x > n as f64 || x.floor() != x {
                    return 0.0;
                }
                binomial_weight(x, n as f64 - x, p, q)
            }
            Reference::Categorical { ref p, .. } => {
                if x < 0.0 || x >= p.len() as f64 || x.floor() != x {
                    return 0.0;
                }
                p[x as usize]
            }
            Reference::Cauchy { x0, gamma } => {
                let z = (x - x0) / gamma;
                1.0 / (PI * gamma * (1.0 + z * z))
            }
            Reference::Exponential { lambda } => {
                if x < 0.0 {
                    0.0
                } else {
                    lambda * (-lambda * x).exp()
                }
            }
            Reference::Gamma { k, theta } => {
                let y = x / theta;
                if y <= 0.0 || y.is_infinite() {
                    return 0.0;
                }
                (-stirling_error(k) - deviance(k, y)).exp() / (2.0 * PI * k).sqrt() * k / y / theta
            }
            Reference::Gaussian { mu, sigma } => {
                let z = (x - mu) / sigma;
                (-0.5 * z * z).exp() / (sigma * (2.0 * PI).sqrt())
            }
            Reference::Laplace { mu, b } => 0.5 * (-((x - mu) / b).abs()).exp() / b,
            Reference::Logistic { mu, s } => {
                let e = (-((x - mu) / s).abs()).exp();
                e / (s * (1.0 + e) * (1.0 + e))
            }
            Reference::Lognormal { mu, sigma } => {
                if x <= 0.0 {
                    return 0.0;
                }
                let z = (x.ln() - mu) / sigma;
                (-0.5 * z * z).exp() / (sigma * (2.0 * PI).sqrt()) / x
            }
            Reference::Triangular { a, b, c } => {
                if x < a || x > b {
                    0.0
                } else if x < c {
                    2.0 * ((x - a) / (b - a)) / (c - a)
                } else if x > c {
                    2.0 * ((b - x) / (b - a)) / (b - c)
                } else {
                    2.0 / (b - a)
                }
            }
            Reference::Uniform { a, b } => {
                if x < a || x > b {
                    0.0
                } else {
                    1.0 / (b - a)
                }
            }
        }
    }

    /// Closed support (infinite ends stand for unbounded directions).
    pub fn support(&self) -> (f64, f64) {
        match *self {
            Reference::Bernoulli { .. } => (0.0, 1.0),
            Reference::Beta { a, b, .. } => (a, b),
            Reference::Binomial { n, .. } => (0.0, n as f64),
            Reference::Categorical { ref p, .. } => (0.0, (p.len() - 1) as f64),
            Reference::Exponential { .. }
            | Reference::Gamma { .. }
            | Reference::Lognormal { .. } => (0.0, f64::INFINITY),
            Reference::Triangular { a, b, .. } => (a, b),
            Reference::Uniform { a, b } => (a, b),
            _ => (f64::NEG_INFINITY, f64::INFINITY),
        }
    }

    /// A length scale (used to express rounding of locations).
    pub fn magnitude(&self) -> f64 {
        match *self {
            Reference::Beta { a, b, .. } | Reference::Uniform { a, b } => a.abs().max(b.abs()),
            Reference::Triangular { a, b, .. } => a.abs().max(b.abs()),
            Reference::Cauchy { x0, gamma } => x0.abs().max(gamma),
            Reference::Gaussian { mu, sigma } => mu.abs().max(sigma),
            Reference::Laplace { mu, b } => mu.abs().max(b),
            Reference::Logistic { mu, s } => mu.abs().max(s),
            Reference::Exponential { .. } | Reference::Gamma { .. } | Reference::Lognormal { .. } => 0.0,
            _ => 0.0,
        }
    }

    pub fn scale(&self) -> f64 {
        match *self {
            Reference::Beta { a, b, .. }
            | Reference::Uniform { a, b }
            | Reference::Triangular { a, b, .. } => b - a,
            Reference::Cauchy { gamma, .. } => gamma,
            Reference::Gaussian { sigma, .. } => sigma,
            Reference::Laplace { b, .. } => b,
            Reference::Logistic { s, .. } => s,
            Reference::Exponential { lambda } => 1.0 / lambda,
            Reference::Gamma { k, theta } => k.max(1.0).sqrt() * theta,
            Reference::Lognormal { mu, .. } => mu.exp(),
            _ => 1.0,
        }
    }

    pub fn moments(&self) -> Option<Moments> {
        let m = |mean, variance, skewness, kurtosis| {
            Some(Moments { mean, variance, skewness, kurtosis })
        };
        match *self {
            Reference::Bernoulli { p, q } => {
                let v = p * q;
                m(p, v, (q - p) / v.sqrt(), (1.0 - 6.0 * v) / v)
            }
            Reference::Binomial { n, p, q } => {
                let n = n as f64;
                let v = n * p * q;
                m(n * p, v, (q - p) / v.sqrt(), (1.0 - 6.0 * p * q) / v)
            }
            Reference::Categorical { ref p, .. } => {
                let mean: f64 = p.iter().enumerate().map(|(i, p)| i as f64 * p).sum();
                let c = |e: i32| -> f64 {
                    p.iter().enumerate().map(|(i, p)| (i as f64 - mean).powi(e) * p).sum()
                };
                let v = c(2);
                m(mean, v, c(3) / v.powf(1.5), c(4) / (v * v) - 3.0)
            }
            Reference::Beta { alpha: al, beta: be, a, b } => {
                let n = al + be;
                let d = b - a;
                m(
                    (a * be + b * al) / n,
                    d * d * (al / n) * (be / n) / (n + 1.0),
                    2.0 * (be - al) / (n + 2.0) * ((n + 1.0) / (al * be)).sqrt(),
                    // From the standard form 3(n+1)(2n²+αβ(n-6))/(αβ(n+2)(n+3)) - 3.
                    3.0 * (n + 1.0) * (2.0 * n * n + al * be * (n - 6.0))
                        / (al * be * (n + 2.0) * (n + 3.0))
                        - 3.0,
                )
            }
            Reference::Cauchy { .. } => None,
            Reference::Exponential { lambda } => {
                m(1.0 / lambda, 1.0 / (lambda * lambda), 2.0, 6.0)
            }
            Reference::Gamma { k, theta } => {
                m(k * theta, k * theta * theta, 2.0 / k.sqrt(), 6.0 / k)
            }
            Reference::Gaussian { mu, sigma } => m(mu, sigma * sigma, 0.0, 0.0),
            Reference::Laplace { mu, b } => m(mu, 2.0 * b * b, 0.0, 3.0),
            Reference::Logistic { mu, s } => m(mu, PI * PI * s * s / 3.0, 0.0, 1.2),
            Reference::Lognormal { mu, sigma } => {
                let s2 = sigma * sigma;
                let w1 = s2.exp_m1();
                let w = s2.exp();
                m(
                    (mu + 0.5 * s2).exp(),
                    w1 * (2.0 * mu + s2).exp(),
                    (w + 2.0) * w1.sqrt(),
                    // w⁴ + 2w³ + 3w² - 6 expanded around w = 1.
                    w1 * (16.0 + w1 * (15.0 + w1 * (6.0 + w1))),
                )
            }
            Reference::Triangular { a, b, c } => {
                // Exact centred integrals: X = mean + (u + v + w) mixture;
                // moments of a triangular law on [-s, t] with mode 0.
                let (s, t) = (c - a, b - c);
                let l = s + t;
                // E[(X - c)^k] = 2 (t^(k+2)/t... ) / (l (k+1)(k+2)) summed over sides.
                let e = |k: i32| {
                    let kk = k as f64;
                    let left = if k % 2 == 0 { 1.0 } else { -1.0 } * s.powi(k + 1);
                    let right = t.powi(k + 1);
                    2.0 * (left + right) / (l * (kk + 1.0) * (kk + 2.0))
                };
                let m1 = e(1);
                let v = e(2) - m1 * m1;
                let c3 = e(3) - 3.0 * m1 * e(2) + 2.0 * m1.powi(3);
                let c4 = e(4) - 4.0 * m1 * e(3) + 6.0 * m1 * m1 * e(2) - 3.0 * m1.powi(4);
                m(c + m1, v, c3 / v.powf(1.5), c4 / (v * v) - 3.0)
            }
            Reference::Uniform { a, b } => {
                m(0.5 * (a + b), (b - a) * (b - a) / 12.0, 0.0, -1.2)
            }
        }
    }

    /// Differential (or Shannon) entropy in nats.
    pub fn entropy(&self) -> f64 {
        let xlnx = |x: f64| if x == 0.0 { 0.0 } else { x * x.ln() };
        match *self {
            Reference::Bernoulli { p, q } => -xlnx(p) - xlnx(q),
            Reference::Categorical { ref p, .. } => -p.iter().map(|&p| xlnx(p)).sum::<f64>(),
            Reference::Binomial { n, .. } => {
                let m = self.moments().unwrap();
                let sd = m.variance.sqrt();
                let lo = (m.mean - 45.0 * sd - 60.0).max(0.0).floor() as usize;
                let hi = (m.mean + 45.0 * sd + 60.0).min(n as f64).ceil() as usize;
                -(lo..=hi).map(|k| xlnx(self.density(k as f64))).sum::<f64>()
            }
            Reference::Beta { alpha, beta, a, b } => {
                let ln_b = ln_gamma(alpha) + ln_gamma(beta) - ln_gamma(alpha + beta);
                (b - a).ln() + ln_b
                    - (alpha - 1.0) * (digamma(alpha) - digamma(alpha + beta))
                    - (beta - 1.0) * (digamma(beta) - digamma(alpha + beta))
            }
            Reference::Cauchy { gamma, .. } => (4.0 * PI).ln() + gamma.ln(),
            Reference::Exponential { lambda } => 1.0 - lambda.ln(),
            Reference::Gamma { k, theta } => {
                k + theta.ln() + ln_gamma(k) + (1.0 - k) * digamma(k)
            }
            Reference::Gaussian { sigma, .. } => 0.5 + 0.5 * (2.0 * PI).ln() + sigma.ln(),
            Reference::Laplace { b, .. } => 1.0 + LN_2 + b.ln(),
            Reference::Logistic { s, .. } => 2.0 + s.ln(),
            Reference::Lognormal { mu, sigma } => {
                mu + 0.5 + 0.5 * (2.0 * PI).ln() + sigma.ln()
            }
            Reference::Triangular { a, b, .. } => 0.5 - LN_2 + (b - a).ln(),
            Reference::Uniform { a, b } => (b - a).ln(),
        }
    }

    /// A point x with P(X <= x) = u up to bisection accuracy (continuous) or
    /// the generalised inverse (discrete).
    pub fn quantile(&self, u: f64) -> f64 {
        let below = |x: f64| {
            let (f, s) = self.cdf(x);
            if u < 0.5 {
                f < u
            } else {
                s > 1.0 - u
            }
        };
        if self.discrete() {
            let (lo, hi) = self.support();
            let (mut lo, mut hi) = (lo - 1.0, hi);
            while hi - lo > 1.0 {
                let mid = ((lo + hi) / 2.0).floor();
                if below(mid) {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            return hi;
        }
        let (mut lo, mut hi) = self.support();
        // Bracket in the bit pattern order of f64 for full range.
        if lo.is_infinite() {
            lo = f64::MIN
        }
        if hi.is_infinite() {
            hi = f64::MAX
        }
        let key = |x: f64| {
            let b = x.to_bits() as i64;
            if b < 0 {
                i64::MIN.wrapping_sub(b)
            } else {
                b
            }
        };
        let unkey = |k: i64| {
            f64::from_bits(if k < 0 { i64::MIN.wrapping_sub(k) as u64 } else { k as u64 })
        };
        let (mut l, mut h) = (key(lo) as i128, key(hi) as i128);
        while h - l > 1 {
            let mid = (l + h) / 2;
            let mid = if mid == l { l + 1 } else { mid };
            if mid >= h {
                break;
            }
            if below(unkey(mid as i64)) {
                l = mid
            } else {
                h = mid
            }
        }
        unkey(h as i64)
    }

    /// Whether `x` is a most likely outcome (all of them for `modes`).
    pub fn modes(&self) -> Vec<f64> {
        match *self {
            Reference::Bernoulli { p, q } => {
                if p > q {
                    vec![1.0]
                } else if p < q {
                    vec![0.0]
                } else {
                    vec![0.0, 1.0]
                }
            }
            Reference::Beta { alpha, beta, a, b } => {
                if alpha == 1.0 && beta == 1.0 {
                    vec![]
                } else if alpha < 1.0 && beta < 1.0 {
                    vec![a, b]
                } else if alpha <= 1.0 && beta >= 1.0 {
                    vec![a]
                } else if alpha >= 1.0 && beta <= 1.0 {
                    vec![b]
                } else {
                    vec![a + (b - a) * ((alpha - 1.0) / (alpha + beta - 2.0))]
                }
            }
            Reference::Categorical { ref p, .. } => {
                let max = p.iter().cloned().fold(0.0, f64::max);
                (0..p.len()).filter(|&i| p[i] == max).map(|i| i as f64).collect()
            }
            Reference::Cauchy { x0, .. } => vec![x0],
            Reference::Exponential { .. } => vec![0.0],
            Reference::Gamma { k, theta } => {
                if k >= 1.0 {
                    vec![(k - 1.0) * theta]
                } else {
                    vec![]
                }
            }
            Reference::Gaussian { mu, .. } => vec![mu],
            Reference::Laplace { mu, .. } => vec![mu],
            Reference::Logistic { mu, .. } => vec![mu],
            Reference::Lognormal { mu, sigma } => vec![(mu - sigma * sigma).exp()],
            Reference::Triangular { c, .. } => vec![c],
            _ => vec![],
        }
    }
}

fn gauss(z: f64) -> (f64, f64) {
    (0.5 * erfc_(-z / SQRT_2), 0.5 * erfc_(z / SQRT_2))
}

#[allow(dead_code)]
pub const EULER: f64 = E;
