//! The scheduler: task threads are parked and exactly one runs at a time.  Who
//! runs next is decided here, at every read of a device and between
//! operations, from the explicit list of preemptions of the scenario.

use std::collections::VecDeque;
use std::sync::{Condvar, Mutex};

#[derive(Default)]
struct State {
    current: usize,
    started: usize,
    alive: Vec<bool>,
    waiting: Vec<Option<usize>>,
    stalled: Vec<u64>,
    holder: Vec<Option<usize>>,
    step: u64,
    switches: VecDeque<(u64, usize)>,
    taken: u64,
    hash: u64,
}

pub struct Baton {
    state: Mutex<State>,
    wake: Vec<Condvar>,
}

impl State {
    fn runnable(&self, t: usize) -> bool {
        self.alive[t]
            && self.stalled[t] <= self.step
            && self.waiting[t].map_or(true, |d| self.holder[d].is_none())
    }
    /// The next task when the current one cannot continue.
    fn pick(&mut self, from: usize) -> Option<usize> {
        let n = self.alive.len();
        for i in 1..=n {
            let t = (from + i) % n;
            if self.runnable(t) {
                return Some(t);
            }
        }
        // Jump the simulated time to the end of the earliest stall.
        let next = (0..n)
            .filter(|&t| {
                self.alive[t] && self.waiting[t].map_or(true, |d| self.holder[d].is_none())
            })
            .map(|t| self.stalled[t])
            .min()?;
        self.step = self.step.max(next);
        self.pick(from)
    }
    fn pass(&mut self, to: usize) {
        if to != self.current {
            self.taken += 1;
            self.hash = crate::rng::mix(self.hash ^ (self.step << 8) ^ to as u64);
        }
        self.current = to;
    }
}

impl Baton {
    pub fn new(tasks: usize, devices: usize, switches: &[(u64, usize)]) -> Baton {
        Baton {
            state: Mutex::new(State {
                alive: vec![true; tasks],
                waiting: vec![None; tasks],
                stalled: vec![0; tasks],
                holder: vec![None; devices],
                switches: switches.iter().cloned().collect(),
                ..State::default()
            }),
            wake: (0..tasks).map(|_| Condvar::new()).collect(),
        }
    }

    fn wait(&self, task: usize, mut s: std::sync::MutexGuard<State>) {
        while s.current != task {
            s = self.wake[task].wait(s).unwrap();
        }
    }

    /// Called by a task before it does anything.
    pub fn enter(&self, task: usize) {
        let mut s = self.state.lock().unwrap();
        s.started += 1;
        self.wait(task, s);
    }

    pub fn yield_point(&self, task: usize, stall: u64) {
        let mut s = self.state.lock().unwrap();
        s.step += 1;
        let mut to = None;
        while let Some(&(at, t)) = s.switches.front() {
            if at > s.step {
                break;
            }
            s.switches.pop_front();
            to = Some(t);
        }
        if stall > 0 {
            s.stalled[task] = s.step + stall;
        }
        let n = s.alive.len();
        let next = match to {
            Some(t) if s.runnable(t % n) => Some(t % n),
            _ => {
                if s.runnable(task) {
                    Some(task)
                } else {
                    s.pick(task)
                }
            }
        };
        let next = next.unwrap_or(task);
        s.pass(next);
        if next != task {
            self.wake[next].notify_one();
            self.wait(task, s);
        }
    }

    pub fn acquire(&self, task: usize, device: usize) {
        let mut s = self.state.lock().unwrap();
        while s.holder[device].is_some() {
            s.waiting[task] = Some(device);
            let next = s.pick(task).expect("deadlock in the simulated lock");
            s.pass(next);
            if next != task {
                self.wake[next].notify_one();
                while s.current != task {
                    s = self.wake[task].wait(s).unwrap();
                }
            }
        }
        s.waiting[task] = None;
        s.holder[device] = Some(task);
    }

    pub fn release(&self, device: usize) {
        self.state.lock().unwrap().holder[device] = None;
    }

    pub fn leave(&self, task: usize) {
        let mut s = self.state.lock().unwrap();
        s.alive[task] = false;
        for h in s.holder.iter_mut() {
            if *h == Some(task) {
                *h = None;
            }
        }
        if let Some(next) = s.pick(task) {
            s.pass(next);
            self.wake[next].notify_one();
        }
    }

    pub fn step(&self) -> u64 {
        self.state.lock().unwrap().step
    }

    /// (steps, context switches, hash of the interleaving)
    pub fn summary(&self) -> (u64, u64, u64) {
        let s = self.state.lock().unwrap();
        (s.step, s.taken, s.hash)
    }
}
