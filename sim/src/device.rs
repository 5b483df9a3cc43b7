//! Simulated entropy devices: the only source of randomness the library sees.
//!
//! The word at a position is a pure function of the configuration, so a
//! checkpoint is a position and a replay is exact.  Faults overlay positions:
//! stuck, repeated, low-entropy or adversarial words, failing reads (they
//! unwind), and stalls (they give the processor to other tasks).

use crate::baton::Baton;
use crate::rng::mix;
use probability::source::{self, Source};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Stream {
    /// A healthy counter-based generator.
    Mix(u64),
    /// The library's own default generator.
    Library(u64),
    /// Explicit words, then a healthy generator.
    Tape(Arc<Vec<u64>>, u64),
    /// Importance sampling of rare words: uniform words mixed with words whose
    /// distance to either end is log-uniform.
    Rare(u64),
    /// Importance sampling of rare words with known likelihood ratios.
    Tilt(u64),
    /// Words of which chosen bits go through all values evenly.
    Strata(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flavour {
    /// Only whole words are provided; the library derives the rest.
    Word,
    /// The device also provides its own numbers on [0, 1) with 53 bits.
    Half,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Zero,
    Ones,
    Word(u64),
    /// The word before the fault is repeated.
    Repeat,
    /// Only the lowest bits are random.
    Low(u32),
    /// Only the highest bits are random.
    High(u32),
    /// Dangerous words: ends, powers of two, extreme bytes.
    Adversarial(u64),
    /// The read fails this many times before it succeeds.
    Fail(u32),
    /// The task is stalled for this many scheduler steps.
    Stall(u32),
}

pub const KINDS: [&str; 9] =
    ["zero", "ones", "word", "repeat", "low", "high", "adversarial", "fail", "stall"];

impl Kind {
    pub fn index(&self) -> usize {
        match self {
            Kind::Zero => 0,
            Kind::Ones => 1,
            Kind::Word(_) => 2,
            Kind::Repeat => 3,
            Kind::Low(_) => 4,
            Kind::High(_) => 5,
            Kind::Adversarial(_) => 6,
            Kind::Fail(_) => 7,
            Kind::Stall(_) => 8,
        }
    }
    pub fn argument(&self) -> u64 {
        match *self {
            Kind::Word(x) | Kind::Adversarial(x) => x,
            Kind::Low(x) | Kind::High(x) | Kind::Fail(x) | Kind::Stall(x) => x as u64,
            _ => 0,
        }
    }
    pub fn from_parts(name: &str, x: u64) -> Option<Kind> {
        Some(match name {
            "zero" => Kind::Zero,
            "ones" => Kind::Ones,
            "word" => Kind::Word(x),
            "repeat" => Kind::Repeat,
            "low" => Kind::Low(x as u32),
            "high" => Kind::High(x as u32),
            "adversarial" => Kind::Adversarial(x),
            "fail" => Kind::Fail(x as u32),
            "stall" => Kind::Stall(x as u32),
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: u64,
    pub len: u64,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DeviceCfg {
    pub stream: Stream,
    pub flavour: Flavour,
    pub faults: Vec<Fault>,
}

/// Payload of an injected read failure.
pub struct SimFailure(#[allow(dead_code)] pub u64);
/// Payload of an exhausted read budget.
pub struct SimBudget(#[allow(dead_code)] pub u64);

pub struct Device {
    cfg: DeviceCfg,
    base: u64,
    pub pos: u64,
    next_event: u64,
    library: Option<Box<source::Default>>,
    tape: Vec<u64>,
    fail_left: Vec<u32>,
    pub limit: u64,
    pub failing: bool,
    pub read_after_failure: bool,
    pub fired: [u64; 9],
    pub reads: u64,
    /// The likelihood ratio of the words read since it was last reset.
    pub weight: f64,
    /// The bits of the first words of a draw that are not random, and how many
    /// of these words were read.
    pub masks: [u64; 4],
    pub values: [u64; 4],
    pub word: usize,
    gate: Option<(Arc<Baton>, usize)>,
    simple: bool,
}

fn adversarial(seed: u64, pos: u64) -> u64 {
    let h = mix(seed ^ mix(pos));
    let g = mix(h ^ 0xA5A5);
    let k = (g >> 8) % 64;
    match h % 16 {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << k,
        3 => u64::MAX - (1 << k),
        4 => (1u64 << 63).wrapping_add(g % 5).wrapping_sub(2),
        5 => g & 0xFF,
        6 => u64::MAX - (g & 0xFFF),
        7 => (g & !0xFFFF_FFFF) | 0xFFFF_FF00 | (g & 0xFF),
        8 => g & !0xFFFF_FF00,
        9 => g & 0xFFFF_FFFF,
        10 => g >> k,
        11 => !(g >> k),
        12 => (g % 3).wrapping_sub(1),
        _ => g,
    }
}

/// A word of the tilted distribution: half uniform; the rest with many leading
/// zeros or ones, or with the bits at which the Gaussian tables look in their
/// last layer or close to zero.
fn tilt(g: u64, h: u64) -> u64 {
    let field = |g: u64| (g >> 8) & 0xFF_FFFF;
    let with = |g: u64, j: u64| (g & !0xFFFF_FF00) | (j << 8);
    match h % 100 {
        0..=49 => g,
        50..=64 => g >> (1 + (h >> 32) % 40),
        65..=79 => !(g >> (1 + (h >> 32) % 40)),
        80..=89 => with(g | 0x7F, 0xFF_FFFF & !(field(g) >> (1 + (h >> 32) % 16))),
        _ => with(g, field(g) >> (1 + (h >> 32) % 20)),
    }
}

/// The density of uniform words relative to that of tilted words.
pub fn tilt_ratio(w: u64) -> f64 {
    // The mean of 2^k for k = 1, ..., n where k <= m.
    let power = |m: u32| f64::from_bits((1023 + m as u64) << 52);
    let mean = |m: u32, n: u32| (power(m.min(n) + 1) - 2.0) * (1.0 / n as f64);
    let j = ((w >> 8) & 0xFF_FFFF) as u32;
    let zeros = |j: u32| (j << 8).leading_zeros().min(24);
    let last = if w & 0x7F == 0x7F { 128.0 * mean(zeros(!j & 0xFF_FFFF), 16) } else { 0.0 };
    1.0 / (0.5
        + 0.15 * mean(w.leading_zeros(), 40)
        + 0.15 * mean((!w).leading_zeros(), 40)
        + 0.1 * last
        + 0.1 * mean(zeros(j), 20))
}

impl Device {
    pub fn new(cfg: &DeviceCfg) -> Device {
        let (base, library, tape) = match cfg.stream {
            Stream::Mix(s) | Stream::Rare(s) | Stream::Tilt(s) | Stream::Strata(s) => (mix(s), None, vec![]),
            Stream::Library(s) => (0, Some(Box::new(source::default(s))), vec![]),
            Stream::Tape(ref t, s) => (mix(s), None, t.to_vec()),
        };
        let mut d = Device {
            fail_left: cfg
                .faults
                .iter()
                .map(|f| if let Kind::Fail(n) = f.kind { n } else { 0 })
                .collect(),
            simple: matches!(cfg.stream, Stream::Mix(_)),
            cfg: cfg.clone(),
            base,
            pos: 0,
            next_event: 0,
            library,
            tape,
            limit: u64::MAX,
            failing: false,
            read_after_failure: false,
            fired: [0; 9],
            reads: 0,
            weight: 1.0,
            masks: [0; 4],
            values: [0; 4],
            word: 0,
            gate: None,
        };
        d.schedule();
        d
    }

    /// Begin a draw in a stratum: deposit the bits of a number into the masks.
    pub fn enter(&mut self, mut stratum: u64) {
        self.word = 0;
        for i in 0..4 {
            let (mut mask, mut value) = (self.masks[i], 0);
            while mask != 0 {
                let bit = mask & mask.wrapping_neg();
                if stratum & 1 == 1 {
                    value |= bit;
                }
                stratum >>= 1;
                mask ^= bit;
            }
            self.values[i] = value;
        }
    }

    pub fn gated(mut self, baton: Arc<Baton>, task: usize) -> Device {
        self.gate = Some((baton, task));
        self.schedule();
        self
    }

    pub fn set_task(&mut self, task: usize) {
        if let Some(g) = self.gate.as_mut() {
            g.1 = task;
        }
    }

    pub fn seek(&mut self, pos: u64) {
        self.pos = pos;
        self.schedule();
    }

    pub fn set_limit(&mut self, limit: u64) {
        self.limit = limit;
        self.schedule();
    }

    /// The end of the last fault that distorts words.
    pub fn healed_at(&self) -> u64 {
        self.cfg
            .faults
            .iter()
            .filter(|f| !matches!(f.kind, Kind::Fail(_) | Kind::Stall(_)))
            .map(|f| f.at + f.len)
            .max()
            .unwrap_or(0)
    }

    fn schedule(&mut self) {
        if self.gate.is_some() || !self.simple {
            self.next_event = 0;
            return;
        }
        let pos = self.pos;
        let mut next = self.limit;
        for f in &self.cfg.faults {
            if f.at + f.len > pos {
                next = next.min(f.at.max(pos));
            }
        }
        self.next_event = next;
    }

    #[inline(always)]
    fn healthy(&self, pos: u64) -> u64 {
        mix(self.base.wrapping_add(pos.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
    }

    fn stream_word(&mut self, pos: u64) -> u64 {
        match self.cfg.stream {
            Stream::Mix(_) | Stream::Strata(_) => self.healthy(pos),
            Stream::Rare(_) => {
                let w = self.healthy(pos);
                let h = mix(w ^ 0x7A7A);
                match h % 8 {
                    0 | 1 => (w >> 2) >> ((h >> 8) % 56),
                    2 | 3 => !((w >> 2) >> ((h >> 8) % 50)),
                    _ => w,
                }
            }
            Stream::Tilt(_) => tilt(self.healthy(pos), self.healthy(pos ^ (1 << 63))),
            Stream::Library(_) => {
                while self.tape.len() as u64 <= pos {
                    let w = self.library.as_mut().unwrap().read_u64();
                    self.tape.push(w);
                }
                self.tape[pos as usize]
            }
            Stream::Tape(..) => {
                if (pos as usize) < self.tape.len() {
                    self.tape[pos as usize]
                } else {
                    self.healthy(pos)
                }
            }
        }
    }

    fn word_below(&mut self, pos: u64, faults: usize) -> (u64, Option<usize>) {
        for i in (0..faults).rev() {
            let f = self.cfg.faults[i].clone();
            if pos < f.at || pos >= f.at + f.len {
                continue;
            }
            let w = match f.kind {
                Kind::Zero => 0,
                Kind::Ones => u64::MAX,
                Kind::Word(w) => w,
                Kind::Repeat => {
                    if f.at == 0 {
                        self.stream_word(0)
                    } else {
                        self.word_below(f.at - 1, i).0
                    }
                }
                Kind::Low(n) => self.stream_word(pos) & ((1u64 << n) - 1),
                Kind::High(n) => self.stream_word(pos) & !(u64::MAX >> n),
                Kind::Adversarial(s) => adversarial(s, pos),
                Kind::Fail(_) | Kind::Stall(_) => continue,
            };
            return (w, Some(i));
        }
        (self.stream_word(pos), None)
    }

    /// The word at a position, without reading it.
    pub fn peek(&mut self, pos: u64) -> u64 {
        self.word_below(pos, self.cfg.faults.len()).0
    }

    #[cold]
    #[inline(never)]
    fn slow(&mut self) -> u64 {
        let pos = self.pos;
        if self.failing {
            self.read_after_failure = true;
        }
        if let Some((baton, task)) = self.gate.clone() {
            let mut stall = 0;
            for f in &self.cfg.faults {
                if let Kind::Stall(n) = f.kind {
                    if f.at == pos {
                        stall = stall.max(n);
                        self.fired[8] += 1;
                    }
                }
            }
            baton.yield_point(task, stall as u64);
        }
        self.reads += 1;
        if pos >= self.limit {
            std::panic::resume_unwind(Box::new(SimBudget(pos)));
        }
        for i in 0..self.cfg.faults.len() {
            let f = &self.cfg.faults[i];
            if f.at <= pos && pos < f.at + f.len && self.fail_left[i] > 0 {
                self.fail_left[i] -= 1;
                self.fired[7] += 1;
                self.failing = true;
                std::panic::resume_unwind(Box::new(SimFailure(pos)));
            }
        }
        let (mut w, fault) = self.word_below(pos, self.cfg.faults.len());
        if let Some(i) = fault {
            self.fired[self.cfg.faults[i].kind.index()] += 1;
        }
        self.pos = pos + 1;
        self.schedule();
        if let Stream::Tilt(_) = self.cfg.stream {
            self.weight *= tilt_ratio(w);
        }
        if let Stream::Strata(_) = self.cfg.stream {
            if self.word < 4 {
                w = (w & !self.masks[self.word]) | self.values[self.word];
                self.word += 1;
            }
        }
        w
    }
}

impl Source for Device {
    #[inline(always)]
    fn read_u64(&mut self) -> u64 {
        if self.pos >= self.next_event {
            return self.slow();
        }
        let pos = self.pos;
        self.pos = pos + 1;
        self.healthy(pos)
    }

    #[inline(always)]
    fn read_f64(&mut self) -> f64 {
        let w = self.read_u64();
        match self.cfg.flavour {
            Flavour::Word => w as f64 / u64::MAX as f64,
            Flavour::Half => (w >> 11) as f64 * (1.0 / 9007199254740992.0),
        }
    }
}
