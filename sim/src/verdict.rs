//! What judging a simulated run yields, in a form that crosses processes.

use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    /// (class, message): the first violation of the run.
    pub violation: Option<(String, String)>,
    /// A more specific scenario that shows the same violation.
    pub refined: Option<String>,
    pub counts: BTreeMap<String, u64>,
    /// Hashes of the histories of the run (with whether they are non-trivial).
    pub marks: Vec<u64>,
    pub data: Vec<u8>,
}

fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u64).to_le_bytes());
    out.extend_from_slice(b);
}

pub struct Cursor<'a>(pub &'a [u8], pub usize);
impl<'a> Cursor<'a> {
    pub fn u64(&mut self) -> u64 {
        let v = u64::from_le_bytes(self.0[self.1..self.1 + 8].try_into().unwrap());
        self.1 += 8;
        v
    }
    pub fn f64(&mut self) -> f64 {
        f64::from_bits(self.u64())
    }
    pub fn bytes(&mut self) -> &'a [u8] {
        let n = self.u64() as usize;
        let b = &self.0[self.1..self.1 + n];
        self.1 += n;
        b
    }
    pub fn string(&mut self) -> String {
        String::from_utf8_lossy(self.bytes()).to_string()
    }
}

impl Verdict {
    pub fn add(&mut self, key: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(key.to_string()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: &str, message: String) {
        if self.violation.is_none() {
            self.violation = Some((class.to_string(), message));
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
    pub fn mark(&mut self, hash: u64) {
        if !self.marks.contains(&hash) {
            self.marks.push(hash);
        }
    }
    pub fn absorb(&mut self, other: Verdict) {
        if self.violation.is_none() {
            self.violation = other.violation;
            self.refined = other.refined;
        }
        for (k, v) in other.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.marks.extend(other.marks);
        self.data.extend(other.data);
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut out = vec![self.violation.is_some() as u8];
        let (c, m) = self.violation.clone().unwrap_or_default();
        put(&mut out, c.as_bytes());
        put(&mut out, m.as_bytes());
        put(&mut out, self.refined.clone().unwrap_or_default().as_bytes());
        out.extend_from_slice(&(self.counts.len() as u64).to_le_bytes());
        for (k, v) in &self.counts {
            put(&mut out, k.as_bytes());
            out.extend_from_slice(&v.to_le_bytes());
        }
        out.extend_from_slice(&(self.marks.len() as u64).to_le_bytes());
        for m in &self.marks {
            out.extend_from_slice(&m.to_le_bytes());
        }
        put(&mut out, &self.data);
        out
    }
    pub fn decode(b: &[u8]) -> Verdict {
        let mut v = Verdict::default();
        let mut c = Cursor(b, 1);
        let class = c.string();
        let message = c.string();
        if b[0] == 1 {
            v.violation = Some((class, message));
        }
        let r = c.string();
        if !r.is_empty() {
            v.refined = Some(r);
        }
        for _ in 0..c.u64() {
            let k = c.string();
            let n = c.u64();
            v.counts.insert(k, n);
        }
        for _ in 0..c.u64() {
            let m = c.u64();
            v.marks.push(m);
        }
        v.data = c.bytes().to_vec();
        v
    }
}
