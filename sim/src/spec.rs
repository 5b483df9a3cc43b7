//! Parameters of a distribution under test, and the distribution itself.

use crate::reference::Reference;
use probability::prelude::*;
use probability::source::Source;

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Bernoulli { p: f64 },
    BernoulliFailure { q: f64 },
    Beta { alpha: f64, beta: f64, a: f64, b: f64 },
    Binomial { n: usize, p: f64 },
    BinomialFailure { n: usize, q: f64 },
    Categorical { p: Vec<f64> },
    Cauchy { x0: f64, gamma: f64 },
    Exponential { lambda: f64 },
    Gamma { k: f64, theta: f64 },
    Gaussian { mu: f64, sigma: f64 },
    Laplace { mu: f64, b: f64 },
    Logistic { mu: f64, s: f64 },
    Lognormal { mu: f64, sigma: f64 },
    Pert { a: f64, b: f64, c: f64 },
    Triangular { a: f64, b: f64, c: f64 },
    Uniform { a: f64, b: f64 },
}

impl Spec {
    pub fn name(&self) -> &'static str {
        match self {
            Spec::Bernoulli { .. } => "Bernoulli",
            Spec::BernoulliFailure { .. } => "BernoulliFailure",
            Spec::Beta { .. } => "Beta",
            Spec::Binomial { .. } => "Binomial",
            Spec::BinomialFailure { .. } => "BinomialFailure",
            Spec::Categorical { .. } => "Categorical",
            Spec::Cauchy { .. } => "Cauchy",
            Spec::Exponential { .. } => "Exponential",
            Spec::Gamma { .. } => "Gamma",
            Spec::Gaussian { .. } => "Gaussian",
            Spec::Laplace { .. } => "Laplace",
            Spec::Logistic { .. } => "Logistic",
            Spec::Lognormal { .. } => "Lognormal",
            Spec::Pert { .. } => "Pert",
            Spec::Triangular { .. } => "Triangular",
            Spec::Uniform { .. } => "Uniform",
        }
    }

    pub fn parameters(&self) -> Vec<f64> {
        match *self {
            Spec::Bernoulli { p } => vec![p],
            Spec::BernoulliFailure { q } => vec![q],
            Spec::Beta { alpha, beta, a, b } => vec![alpha, beta, a, b],
            Spec::Binomial { n, p } => vec![n as f64, p],
            Spec::BinomialFailure { n, q } => vec![n as f64, q],
            Spec::Categorical { ref p } => p.clone(),
            Spec::Cauchy { x0, gamma } => vec![x0, gamma],
            Spec::Exponential { lambda } => vec![lambda],
            Spec::Gamma { k, theta } => vec![k, theta],
            Spec::Gaussian { mu, sigma } => vec![mu, sigma],
            Spec::Laplace { mu, b } => vec![mu, b],
            Spec::Logistic { mu, s } => vec![mu, s],
            Spec::Lognormal { mu, sigma } => vec![mu, sigma],
            Spec::Pert { a, b, c } => vec![a, b, c],
            Spec::Triangular { a, b, c } => vec![a, b, c],
            Spec::Uniform { a, b } => vec![a, b],
        }
    }

    pub fn from_parts(name: &str, v: &[f64]) -> Option<Spec> {
        Some(match name {
            "Bernoulli" => Spec::Bernoulli { p: v[0] },
            "BernoulliFailure" => Spec::BernoulliFailure { q: v[0] },
            "Beta" => Spec::Beta { alpha: v[0], beta: v[1], a: v[2], b: v[3] },
            "Binomial" => Spec::Binomial { n: v[0] as usize, p: v[1] },
            "BinomialFailure" => Spec::BinomialFailure { n: v[0] as usize, q: v[1] },
            "Categorical" => Spec::Categorical { p: v.to_vec() },
            "Cauchy" => Spec::Cauchy { x0: v[0], gamma: v[1] },
            "Exponential" => Spec::Exponential { lambda: v[0] },
            "Gamma" => Spec::Gamma { k: v[0], theta: v[1] },
            "Gaussian" => Spec::Gaussian { mu: v[0], sigma: v[1] },
            "Laplace" => Spec::Laplace { mu: v[0], b: v[1] },
            "Logistic" => Spec::Logistic { mu: v[0], s: v[1] },
            "Lognormal" => Spec::Lognormal { mu: v[0], sigma: v[1] },
            "Pert" => Spec::Pert { a: v[0], b: v[1], c: v[2] },
            "Triangular" => Spec::Triangular { a: v[0], b: v[1], c: v[2] },
            "Uniform" => Spec::Uniform { a: v[0], b: v[1] },
            _ => return None,
        })
    }

    pub fn build(&self) -> Subject {
        match *self {
            Spec::Bernoulli { p } => Subject::Bernoulli(Bernoulli::new(p)),
            Spec::BernoulliFailure { q } => Subject::Bernoulli(Bernoulli::with_failure(q)),
            Spec::Beta { alpha, beta, a, b } => Subject::Beta(Beta::new(alpha, beta, a, b)),
            Spec::Binomial { n, p } => Subject::Binomial(Binomial::new(n, p)),
            Spec::BinomialFailure { n, q } => Subject::Binomial(Binomial::with_failure(n, q)),
            Spec::Categorical { ref p } => Subject::Categorical(Categorical::new(p)),
            Spec::Cauchy { x0, gamma } => Subject::Cauchy(Cauchy::new(x0, gamma)),
            Spec::Exponential { lambda } => Subject::Exponential(Exponential::new(lambda)),
            Spec::Gamma { k, theta } => Subject::Gamma(Gamma::new(k, theta)),
            // The standard law is also the default one.
            Spec::Gaussian { mu, sigma } if mu == 0.0 && sigma == 1.0 => Subject::Gaussian(Default::default()),
            Spec::Gaussian { mu, sigma } => Subject::Gaussian(Gaussian::new(mu, sigma)),
            Spec::Laplace { mu, b } => Subject::Laplace(Laplace::new(mu, b)),
            // The standard law is also the default one.
            Spec::Logistic { mu, s } if mu == 0.0 && s == 1.0 => Subject::Logistic(Default::default()),
            Spec::Logistic { mu, s } => Subject::Logistic(Logistic::new(mu, s)),
            // The standard law is also the default one.
            Spec::Lognormal { mu, sigma } if mu == 0.0 && sigma == 1.0 => Subject::Lognormal(Default::default()),
            Spec::Lognormal { mu, sigma } => Subject::Lognormal(Lognormal::new(mu, sigma)),
            Spec::Pert { a, b, c } => Subject::Pert(Pert::new(a, b, c)),
            Spec::Triangular { a, b, c } => Subject::Triangular(Triangular::new(a, b, c)),
            // The standard law is also the default one.
            Spec::Uniform { a, b } if a == 0.0 && b == 1.0 => Subject::Uniform(Default::default()),
            Spec::Uniform { a, b } => Subject::Uniform(Uniform::new(a, b)),
        }
    }

    pub fn reference(&self) -> Reference {
        Reference::new(self)
    }
}

/// A real distribution of the library.
#[derive(Clone)]
pub enum Subject {
    Bernoulli(Bernoulli),
    Beta(Beta),
    Binomial(Binomial),
    Categorical(Categorical),
    Cauchy(Cauchy),
    Exponential(Exponential),
    Gamma(Gamma),
    Gaussian(Gaussian),
    Laplace(Laplace),
    Logistic(Logistic),
    Lognormal(Lognormal),
    Pert(Pert),
    Triangular(Triangular),
    Uniform(Uniform),
}

macro_rules! each(
    ($self:expr, $d:ident => $e:expr) => (match $self {
        Subject::Bernoulli($d) => $e,
        Subject::Beta($d) => $e,
        Subject::Binomial($d) => $e,
        Subject::Categorical($d) => $e,
        Subject::Cauchy($d) => $e,
        Subject::Exponential($d) => $e,
        Subject::Gamma($d) => $e,
        Subject::Gaussian($d) => $e,
        Subject::Laplace($d) => $e,
        Subject::Logistic($d) => $e,
        Subject::Lognormal($d) => $e,
        Subject::Pert($d) => $e,
        Subject::Triangular($d) => $e,
        Subject::Uniform($d) => $e,
    });
);

macro_rules! with_moments(
    ($self:expr, $d:ident => $e:expr) => (match $self {
        Subject::Bernoulli($d) => Some($e),
        Subject::Beta($d) => Some($e),
        Subject::Binomial($d) => Some($e),
        Subject::Categorical($d) => Some($e),
        Subject::Cauchy(_) => None,
        Subject::Exponential($d) => Some($e),
        Subject::Gamma($d) => Some($e),
        Subject::Gaussian($d) => Some($e),
        Subject::Laplace($d) => Some($e),
        Subject::Logistic($d) => Some($e),
        Subject::Lognormal($d) => Some($e),
        Subject::Pert($d) => Some($e),
        Subject::Triangular($d) => Some($e),
        Subject::Uniform($d) => Some($e),
    });
);

pub(crate) use each;

impl Subject {
    #[inline]
    pub fn draw<S: Source>(&self, source: &mut S) -> f64 {
        each!(self, d => d.sample(source) as f64)
    }

    /// One pull from a fresh `Independent` adapter.
    #[inline]
    pub fn pull<S: Source>(&self, source: &mut S) -> Option<f64> {
        each!(self, d => Independent(d, source).next().map(|x| x as f64))
    }

    /// Pull from one `Independent` adapter until told to stop (or it ends).
    pub fn endless<S: Source>(&self, source: &mut S, f: &mut dyn FnMut(f64) -> bool) {
        each!(self, d => {
            for x in Independent(d, source) {
                if !f(x as f64) {
                    break;
                }
            }
        })
    }

    pub fn cdf(&self, x: f64) -> f64 {
        each!(self, d => d.distribution(x))
    }

    pub fn density(&self, x: f64) -> f64 {
        match self {
            Subject::Bernoulli(d) => d.mass(x as u8),
            Subject::Binomial(d) => d.mass(x as usize),
            Subject::Categorical(d) => d.mass(x as usize),
            Subject::Beta(d) => d.density(x),
            Subject::Cauchy(d) => d.density(x),
            Subject::Exponential(d) => d.density(x),
            Subject::Gamma(d) => d.density(x),
            Subject::Gaussian(d) => d.density(x),
            Subject::Laplace(d) => d.density(x),
            Subject::Logistic(d) => d.density(x),
            Subject::Lognormal(d) => d.density(x),
            Subject::Pert(d) => d.density(x),
            Subject::Triangular(d) => d.density(x),
            Subject::Uniform(d) => d.density(x),
        }
    }

    pub fn inverse(&self, p: f64) -> Option<f64> {
        Some(match self {
            Subject::Bernoulli(d) => d.inverse(p) as f64,
            Subject::Beta(d) => d.inverse(p),
            Subject::Binomial(d) => d.inverse(p) as f64,
            Subject::Categorical(d) => d.inverse(p) as f64,
            Subject::Cauchy(d) => d.inverse(p),
            Subject::Exponential(d) => d.inverse(p),
            Subject::Gamma(_) => return None,
            Subject::Gaussian(d) => d.inverse(p),
            Subject::Laplace(d) => d.inverse(p),
            Subject::Logistic(d) => d.inverse(p),
            Subject::Lognormal(d) => d.inverse(p),
            Subject::Pert(d) => d.inverse(p),
            Subject::Triangular(d) => d.inverse(p),
            Subject::Uniform(d) => d.inverse(p),
        })
    }

    pub fn entropy(&self) -> f64 {
        each!(self, d => d.entropy())
    }

    pub fn mean(&self) -> Option<f64> {
        with_moments!(self, d => d.mean())
    }
    pub fn variance(&self) -> Option<f64> {
        with_moments!(self, d => d.variance())
    }
    pub fn deviation(&self) -> Option<f64> {
        with_moments!(self, d => d.deviation())
    }
    pub fn skewness(&self) -> Option<f64> {
        with_moments!(self, d => d.skewness())
    }
    pub fn kurtosis(&self) -> Option<f64> {
        with_moments!(self, d => d.kurtosis())
    }

    pub fn median(&self) -> Option<f64> {
        Some(match self {
            Subject::Bernoulli(d) => d.median(),
            Subject::Beta(d) => d.median(),
            Subject::Binomial(d) => d.median(),
            Subject::Categorical(d) => d.median(),
            Subject::Cauchy(d) => d.median(),
            Subject::Exponential(d) => d.median(),
            Subject::Gamma(_) => return None,
            Subject::Gaussian(d) => d.median(),
            Subject::Laplace(d) => d.median(),
            Subject::Logistic(d) => d.median(),
            Subject::Lognormal(d) => d.median(),
            Subject::Pert(d) => d.median(),
            Subject::Triangular(d) => d.median(),
            Subject::Uniform(d) => d.median(),
        })
    }

    pub fn modes(&self) -> Option<Vec<f64>> {
        Some(match self {
            Subject::Bernoulli(d) => d.modes().iter().map(|&x| x as f64).collect(),
            Subject::Beta(d) => d.modes(),
            Subject::Binomial(d) => d.modes().iter().map(|&x| x as f64).collect(),
            Subject::Categorical(d) => d.modes().iter().map(|&x| x as f64).collect(),
            Subject::Cauchy(d) => d.modes(),
            Subject::Exponential(d) => d.modes(),
            Subject::Gamma(d) => d.modes(),
            Subject::Gaussian(d) => d.modes(),
            Subject::Laplace(d) => d.modes(),
            Subject::Logistic(d) => d.modes(),
            Subject::Lognormal(d) => d.modes(),
            Subject::Pert(d) => d.modes(),
            Subject::Triangular(d) => d.modes(),
            Subject::Uniform(_) => return None,
        })
    }
}
