//! Deterministic cooperative scheduling of threads at their file system calls.
//!
//! Exactly one scheduled thread runs at a time. Each intercepted call is a yield
//! point at which the next thread is drawn from the schedule's random numbers. A
//! thread whose lock request would block is not runnable until some lock may have
//! been released.

use std::cell::Cell;
use std::os::raw::c_int;
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

use crate::rng::Rng;
use crate::sys::{self, Op};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State {
    /// Not started or waiting for its turn.
    Ready,
    Running,
    /// Waiting for a file lock.
    Blocked,
    /// Holding something until no other thread can run.
    Held,
    /// Running without having yielded for long: blocked outside of our control.
    External,
    Done,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Uniform choice at every yield point.
    Uniform,
    /// Keep running with probability 1 - 1/n.
    Sticky(u64),
    /// Random priorities with changes at random points.
    Priorities { changes: u64, length: u64 },
}

struct Sched {
    states: Vec<State>,
    current: Option<usize>,
    rng: Rng,
    strategy: Strategy,
    priorities: Vec<u64>,
    change_at: Vec<u64>,
    trace: Vec<u8>,
    steps: u64,
    switches: u64,
    waits: u64,
    clock: u64,
    aborted: bool,
    deadlock: bool,
    progress: Instant,
    external: u64,
    blocked_on: Vec<String>,
    gate: bool,
}

/// A thread that did not come to a yield point for so long is taken for blocked.
const EXTERNAL_AFTER: Duration = Duration::from_millis(800);

static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}

fn guard() -> MutexGuard<'static, Option<Sched>> {
    SCHED.lock().unwrap_or_else(|e| e.into_inner())
}

fn me() -> Option<usize> {
    ME.try_with(|c| c.get()).unwrap_or(None)
}

pub fn active() -> bool {
    me().is_some()
}

impl Sched {
    fn choose(&mut self) -> Option<usize> {
        let mut ready: Vec<usize> =
            (0..self.states.len()).filter(|&i| self.states[i] == State::Ready).collect();
        if ready.is_empty() {
            // Let holders go on when nobody else can run.
            if self.states.contains(&State::Running) {
                return None;
            }
            ready = (0..self.states.len()).filter(|&i| self.states[i] == State::Held).collect();
            if ready.is_empty() {
                return None;
            }
        }
        if ready.len() == 1 {
            return Some(ready[0]);
        }
        let last = self.trace.last().map(|&t| t as usize);
        let pick = match &self.strategy {
            Strategy::Uniform => *self.rng.pick(&ready),
            Strategy::Sticky(n) => match last {
                Some(l) if ready.contains(&l) && !self.rng.chance(1, *n) => l,
                _ => *self.rng.pick(&ready),
            },
            Strategy::Priorities { .. } => {
                if self.change_at.contains(&self.steps) {
                    if let Some(l) = last {
                        // Demote the running thread.
                        self.priorities[l] = self.rng.below(1000);
                    }
                }
                *ready.iter().max_by_key(|&&i| (self.priorities[i], i)).unwrap()
            }
        };
        Some(pick)
    }

    /// Give the turn to some thread. The caller's state is set already.
    fn hand_over(&mut self) {
        self.steps += 1;
        self.progress = Instant::now();
        let c = self.choose();
        if let Some(c) = c {
            if self.trace.last() != Some(&(c as u8)) {
                self.switches += 1;
            }
            self.trace.push(c as u8);
            self.states[c] = State::Running;
        } else if !self.states.iter().any(|s| matches!(s, State::Running | State::External))
            && self.states.contains(&State::Blocked)
        {
            // Nobody can run, and some thread waits for a lock.
            self.deadlock = true;
            self.aborted = true;
        }
        self.current = c;
        TURN.notify_all();
    }
}

fn wait_turn(mut g: MutexGuard<'static, Option<Sched>>, t: usize) {
    loop {
        match g.as_ref() {
            Some(s) if s.aborted => return,
            Some(s) if s.current == Some(t) && s.states[t] == State::Running => return,
            None => return,
            _ => (),
        }
        g = TURN.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

/// Called before each intercepted file system call.
pub fn yield_point(_op: Op, _path: Option<&str>, _fd: c_int, _arg: i64) {
    if let Some(t) = me() {
        let mut g = guard();
        if let Some(s) = g.as_mut() {
            if s.aborted {
                return;
            }
            s.states[t] = State::Ready;
            // A thread that was taken for externally blocked waits for its turn again.
            if s.current == Some(t) || s.current.is_none() {
                s.hand_over();
            }
            wait_turn(g, t);
        }
    }
}

/// Called after each intercepted call.
pub fn after(op: Op, _path: Option<&str>, _fd: c_int, arg: i64, ret: i64) {
    if me().is_none() {
        return;
    }
    if op == Op::Close || (op == Op::Flock && ret == 0 && arg as c_int & libc::LOCK_EX == 0) {
        released();
    }
}

/// Some lock may have been released.
fn released() {
    let mut g = guard();
    if let Some(s) = g.as_mut() {
        for st in s.states.iter_mut() {
            if *st == State::Blocked {
                *st = State::Ready;
            }
        }
    }
}

/// A lock request would block; false if there is no hope.
pub fn blocked_on_lock(fd: c_int, _op: c_int) -> bool {
    let t = me().expect("scheduled thread");
    let path = sys::with_monitor(|m| m.fds.get(&fd).cloned()).flatten().unwrap_or_default();
    let mut g = guard();
    let s = g.as_mut().expect("scheduler");
    if s.aborted {
        return false;
    }
    s.waits += 1;
    s.states[t] = State::Blocked;
    s.blocked_on[t] = path;
    s.hand_over();
    wait_turn(g, t);
    let g = guard();
    !g.as_ref().map_or(true, |s| s.aborted)
}

/// Keep what this thread holds until no other thread can run; returns the states
/// of all threads then.
pub fn hold() -> Vec<State> {
    let t = me().expect("scheduled thread");
    let mut g = guard();
    let s = g.as_mut().expect("scheduler");
    if s.aborted {
        return s.states.clone();
    }
    s.states[t] = State::Held;
    s.hand_over();
    wait_turn(g, t);
    let g = guard();
    g.as_ref().expect("scheduler").states.clone()
}

/// Wait until some thread opens the gate.
pub fn pass_gate() {
    let t = me().expect("scheduled thread");
    loop {
        let mut g = guard();
        let s = g.as_mut().expect("scheduler");
        if s.gate || s.aborted {
            return;
        }
        s.states[t] = State::Blocked;
        s.hand_over();
        wait_turn(g, t);
    }
}

pub fn open_gate() {
    if let Some(s) = guard().as_mut() {
        s.gate = true;
    }
    released();
}

/// An explicit yield.
pub fn pause() {
    yield_point(Op::Other, None, -1, 0)
}

/// Logical time of call and return events.
pub fn tick() -> u64 {
    let mut g = guard();
    match g.as_mut() {
        Some(s) => {
            s.clock += 1;
            s.clock
        }
        None => 0,
    }
}

#[derive(Debug)]
pub struct Outcome {
    pub trace: Vec<u8>,
    pub steps: u64,
    pub switches: u64,
    /// Lock requests that had to wait.
    pub waits: u64,
    pub deadlock: bool,
    pub blocked: Vec<String>,
    /// Threads did not finish in time, for no reason known to us.
    pub hang: bool,
    pub external: u64,
}

pub fn strategy(r: &mut Rng) -> Strategy {
    match r.below(6) {
        0 | 1 => Strategy::Uniform,
        2 => Strategy::Sticky(2),
        3 => Strategy::Sticky(5),
        _ => Strategy::Priorities { changes: r.range(1, 4), length: 80 },
    }
}

/// Run closures as scheduled threads.
pub fn run<'a>(seed: u64, mut monitor: sys::Monitor, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) -> (Outcome, sys::Monitor) {
    let mut rng = Rng::new(seed);
    let strategy = strategy(&mut rng);
    let n = bodies.len();
    let priorities = (0..n).map(|_| 1000 + rng.below(1000)).collect();
    let change_at = match strategy {
        Strategy::Priorities { changes, length } => (0..changes).map(|_| rng.below(length)).collect(),
        _ => vec![],
    };
    monitor.detect_self_deadlock = false;
    sys::install(monitor);
    *guard() = Some(Sched {
        states: vec![State::Ready; n],
        current: None,
        rng,
        strategy,
        priorities,
        change_at,
        trace: vec![],
        steps: 0,
        switches: 0,
        waits: 0,
        clock: 0,
        aborted: false,
        deadlock: false,
        progress: Instant::now(),
        external: 0,
        blocked_on: vec![String::new(); n],
        gate: false,
    });
    let mut hang = false;
    std::thread::scope(|scope| {
        for (t, body) in bodies.into_iter().enumerate() {
            scope.spawn(move || {
                ME.with(|c| c.set(Some(t)));
                wait_turn(guard(), t);
                sys::enter(t);
                body();
                sys::leave();
                ME.with(|c| c.set(None));
                let mut g = guard();
                if let Some(s) = g.as_mut() {
                    s.states[t] = State::Done;
                    // Locks of leaked descriptors are not released, but those of
                    // dropped ones are.
                    if s.current == Some(t) || s.current.is_none() {
                        s.hand_over();
                    }
                    TURN.notify_all();
                }
            });
        }
        {
            let mut g = guard();
            g.as_mut().unwrap().hand_over();
        }
        // Watch for threads that block outside of our control.
        let start = Instant::now();
        let mut g = guard();
        loop {
            let s = g.as_mut().unwrap();
            if s.states.iter().all(|s| *s == State::Done) {
                break;
            }
            if s.progress.elapsed() > EXTERNAL_AFTER && !s.aborted {
                for st in s.states.iter_mut() {
                    if *st == State::Running {
                        *st = State::External;
                        s.external += 1;
                    }
                }
                if s.states.iter().any(|s| matches!(s, State::Ready | State::Held)) {
                    s.hand_over();
                }
                s.progress = Instant::now();
            }
            if start.elapsed() > Duration::from_secs(30) && !hang {
                hang = true;
                s.aborted = true;
                TURN.notify_all();
            }
            if start.elapsed() > Duration::from_secs(60) {
                // The threads can not be joined.
                println!("{{\"fatal\": \"scheduled threads hang\"}}");
                std::process::exit(3);
            }
            g = TURN.wait_timeout(g, Duration::from_millis(100)).unwrap_or_else(|e| e.into_inner()).0;
        }
    });
    let s = guard().take().unwrap();
    let m = sys::uninstall();
    (
        Outcome {
            trace: s.trace,
            steps: s.steps,
            switches: s.switches,
            waits: s.waits,
            deadlock: s.deadlock,
            blocked: s.blocked_on,
            hang,
            external: s.external,
        },
        m,
    )
}
