//! Findings that are recorded and not repaired: which are listed, and probes
//! that show them on the real code.

use crate::judge;
use crate::numeric::KNOWN;
use crate::proc::{run_child, End};
use crate::spec::Spec;
use std::path::Path;
use std::sync::Mutex;

static LISTED: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);

/// Lines `known: K<n> property=<id> <what fails>`.
pub fn load(path: &Path) {
    let Ok(text) = std::fs::read_to_string(path) else { return };
    let mut listed = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: K") else { continue };
        let Some((n, rest)) = rest.split_once(" property=") else { continue };
        let (Ok(n), Some((id, _))) = (n.parse::<usize>(), rest.split_once(' ')) else { continue };
        if (1..=3).contains(&n) {
            unsafe { KNOWN[n - 1] = true };
            listed.push((n, id.to_string()));
        }
    }
    *LISTED.lock().unwrap() = listed;
}

/// The specific failing inputs of each finding.
fn fails(n: usize, property: &str) -> Option<String> {
    let child = |f: &dyn Fn() -> Vec<u8>| match run_child(judge::limits().0, judge::limits().1, f) {
        End::Done(d) if d.len() == 8 => Some(f64::from_bits(u64::from_le_bytes(d.try_into().unwrap()))),
        _ => None,
    };
    let of = |s: &Spec, g: &dyn Fn(&crate::spec::Subject) -> f64| {
        child(&|| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g(&s.build())));
            r.unwrap_or(f64::NAN).to_bits().to_le_bytes().to_vec()
        })
    };
    match (n, property) {
        (1, "C15") => {
            let s = Spec::Binomial { n: 11, p: 0.5 };
            let x = of(&s, &|d| d.entropy())?;
            let w = s.reference().entropy();
            ((x - w).abs() > 1e-5).then(|| {
                format!("Binomial::new(11, 0.5).entropy() is {} instead of {} (entry 11 of the table of stirlerr)", x, w)
            })
        }
        (1, _) => {
            let s = Spec::Binomial { n: 11, p: 0.5 };
            let x = of(&s, &|d| d.density(5.0))?;
            let w = s.reference().density(5.0);
            ((x / w - 1.0).abs() > 1e-5).then(|| {
                format!("Binomial::new(11, 0.5).mass(5) is {} instead of {} (entry 11 of the table of stirlerr)", x, w)
            })
        }
        (2, _) => {
            let s = Spec::Binomial { n: 1_000_000, p: 2.5e-5 };
            let x = of(&s, &|d| d.inverse(0.9995).unwrap_or(f64::NAN))?;
            let w = s.reference().quantile(0.9995);
            (x != w).then(|| {
                format!("Binomial::new(1000000, 2.5e-5).inverse(0.9995) is {} instead of {} (rounding in Newton's method)", x, w)
            })
        }
        (3, _) => {
            let s = Spec::Categorical { p: vec![0.25, 0.25, 0.25, 0.25] };
            let x = of(&s, &|d| d.median().unwrap_or(f64::NAN))?;
            (x < 1.0).then(|| {
                format!("Categorical::new(&[0.25; 4]).median() is {} with half of the law at or below 1 (off by one at exact halves)", x)
            })
        }
        _ => None,
    }
}

/// Report the listed findings of a property that still show.
pub fn probe(property: &str) -> Vec<String> {
    let listed = LISTED.lock().unwrap().clone();
    listed
        .iter()
        .filter(|(_, id)| id == property)
        .filter_map(|(n, id)| fails(*n, id).map(|m| format!("KNOWN-FINDING: property={} {}", id, m)))
        .collect()
}
