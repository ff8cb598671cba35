//! Runs threads one at a time, switching between them only at points that are chosen from outside.

use crate::kinds::PANICS;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// What a thread is about to do.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Point {
    Start,
    New,
    Read(usize),
    Write(usize),
    TryRead(usize),
    TryWrite(usize),
    /// Entering or leaving the code that describes a type
    Build(u8),
    Unbuild(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Status {
    Running,
    At(Point),
    /// Blocked on a lock, in the queue of writers
    Queued(usize),
    /// Doesn't come back, so it's blocked on something that isn't controlled
    Stuck,
    Done,
}

#[derive(Clone, Default, Hash)]
struct Lock {
    readers: Vec<usize>,
    writer: Option<usize>,
}

pub struct State {
    status: Vec<Status>,
    /// in order of their first use
    lock_ids: BTreeMap<usize, usize>,
    locks: Vec<Lock>,
    /// For each thread, everything it did and, each time, everything that others did before that it
    /// could see the effects of. Together they determine what happens next, since they're the same
    /// for schedules that only differ in the order of independent steps.
    seen: Vec<u64>,
    /// The same for what locks protect, and for each kind.
    left: BTreeMap<(bool, usize), u64>,
    active: bool,
}

fn mix(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

static STATE: Mutex<State> = Mutex::new(State { status: vec![], lock_ids: BTreeMap::new(), locks: vec![], seen: vec![], left: BTreeMap::new(), active: false });
static THREADS: Condvar = Condvar::new();
static CONTROL: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}

impl State {
    fn lock(&mut self, addr: usize) -> usize {
        let next = self.locks.len();
        let id = *self.lock_ids.entry(addr).or_insert(next);
        if id == next {
            self.locks.push(Lock::default());
        }
        id
    }

    fn sees(&mut self, t: usize, point: Point) {
        let (from, changes) = match point {
            Point::Read(l) => ((true, l), false),
            Point::Write(l) | Point::TryRead(l) | Point::TryWrite(l) => ((true, l), true),
            // one of them counts
            Point::Build(k @ PANICS) => ((false, k as usize), true),
            _ => {
                self.seen[t] = mix((self.seen[t], point));
                return;
            }
        };
        let left = self.left.get(&from).copied();
        self.seen[t] = mix((self.seen[t], point, left));
        if changes {
            self.left.insert(from, mix((left, self.seen[t])));
        }
    }

    fn free_for_write(&self, l: usize) -> bool {
        self.locks[l].readers.is_empty() && self.locks[l].writer.is_none()
    }

    /// Whether a thread can do something. Writers can always queue up, and readers wait for them.
    fn enabled(&self, t: usize) -> bool {
        match self.status[t] {
            Status::At(Point::Read(l)) => self.locks[l].writer.is_none() && !self.status.contains(&Status::Queued(l)),
            Status::Queued(l) => self.free_for_write(l),
            Status::At(_) => true,
            _ => false,
        }
    }
}

/// The current thread is at a point. Returns when it's its turn.
pub fn reach(point: Point) -> bool {
    let Some(me) = ME.with(|m| m.get()) else { return true };
    let mut s = STATE.lock().unwrap();
    if !s.active {
        return true;
    }
    s.status[me] = Status::At(point);
    CONTROL.notify_one();
    while s.status[me] != Status::Running {
        s = THREADS.wait(s).unwrap();
    }
    s.sees(me, point);
    match point {
        Point::Read(l) => s.locks[l].readers.push(me),
        Point::Write(l) => s.locks[l].writer = Some(me),
        Point::TryRead(l) if s.locks[l].writer.is_none() => s.locks[l].readers.push(me),
        Point::TryWrite(l) if s.free_for_write(l) => s.locks[l].writer = Some(me),
        Point::TryRead(_) | Point::TryWrite(_) => return false,
        Point::Start | Point::New | Point::Build(_) | Point::Unbuild(_) => {}
    }
    true
}

#[cfg(mirror_mirror_model_check)]
pub fn lock_op(op: mirror_mirror::model_check::LockOp, addr: usize) -> bool {
    use mirror_mirror::model_check::LockOp;
    let Some(me) = ME.with(|m| m.get()) else { return true };
    let l = if op == LockOp::New {
        0
    } else {
        let mut s = STATE.lock().unwrap();
        if !s.active {
            return true;
        }
        s.lock(addr)
    };
    match op {
        LockOp::New => reach(Point::New),
        LockOp::Read => reach(Point::Read(l)),
        LockOp::Write => reach(Point::Write(l)),
        LockOp::TryRead => reach(Point::TryRead(l)),
        LockOp::TryWrite => reach(Point::TryWrite(l)),
        // nothing others can tell apart from the next point
        LockOp::ReleaseRead => {
            let mut s = STATE.lock().unwrap();
            let r = &mut s.locks[l].readers;
            if let Some(i) = r.iter().position(|t| *t == me) {
                r.remove(i);
            }
            true
        }
        LockOp::ReleaseWrite => {
            STATE.lock().unwrap().locks[l].writer = None;
            true
        }
    }
}

/// What was done at one step.
#[derive(Clone, Debug)]
pub struct Step {
    /// threads that could have been chosen
    pub enabled: u8,
    pub chosen: u8,
    /// whether it's independent of everything that other threads can do
    pub local: bool,
    /// hash of the state before it
    pub state: u64,
}

pub enum End {
    Finished,
    Deadlock(String),
}

/// Run the threads: first as in `prefix`, then without switching unless necessary. Threads that
/// don't reach their next point within `patience` are blocked on something else.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, prefix: &[u8], patience: Duration) -> (Vec<Step>, End, bool) {
    let n = bodies.len();
    {
        let mut s = STATE.lock().unwrap();
        s.status = vec![Status::Running; n];
        s.seen = (0..n as u64).collect();
        s.active = true;
    }
    for (i, body) in bodies.into_iter().enumerate() {
        std::thread::spawn(move || {
            ME.with(|m| m.set(Some(i)));
            reach(Point::Start);
            body();
            let mut s = STATE.lock().unwrap();
            s.status[i] = Status::Done;
            CONTROL.notify_one();
        });
    }
    let mut steps: Vec<Step> = vec![];
    let mut last: Option<u8> = None;
    let mut was_stuck = false;
    let mut s = STATE.lock().unwrap();
    loop {
        // until everything stands still
        let start = Instant::now();
        while s.status.contains(&Status::Running) {
            let left = patience.saturating_sub(start.elapsed());
            if left.is_zero() {
                for t in 0..n {
                    if s.status[t] == Status::Running {
                        s.status[t] = Status::Stuck;
                        was_stuck = true;
                    }
                }
                break;
            }
            s = CONTROL.wait_timeout(s, left).unwrap().0;
        }
        if s.status.iter().all(|x| *x == Status::Done) {
            s.active = false;
            return (steps, End::Finished, was_stuck);
        }
        let enabled: u8 = (0..n).filter(|t| s.enabled(*t)).map(|t| 1 << t).sum();
        if enabled == 0 {
            if s.status.contains(&Status::Stuck) {
                // give it all the time it could need
                let start = Instant::now();
                let before = s.status.clone();
                while s.status == before && start.elapsed() < Duration::from_secs(6) {
                    s = CONTROL.wait_timeout(s, Duration::from_secs(1)).unwrap().0;
                }
                if s.status != before {
                    continue;
                }
            }
            return (steps, End::Deadlock(format!("{:?}", s.status)), was_stuck);
        }
        let chosen = match prefix.get(steps.len()) {
            Some(c) if enabled & (1 << c) != 0 => *c,
            _ => match last {
                Some(l) if enabled & (1 << l) != 0 => l,
                _ => enabled.trailing_zeros() as u8,
            },
        };
        let state = mix((&s.status, &s.seen, &s.locks));
        let local = matches!(
            s.status[chosen as usize],
            Status::At(Point::Start | Point::New | Point::Build(_) | Point::Unbuild(_))
        ) && s.status[chosen as usize] != Status::At(Point::Build(PANICS));
        steps.push(Step { enabled, chosen, local, state });
        last = Some(chosen);
        let c = chosen as usize;
        match s.status[c] {
            Status::At(Point::Write(l)) if !s.free_for_write(l) => s.status[c] = Status::Queued(l),
            _ => {
                s.status[c] = Status::Running;
                THREADS.notify_all();
            }
        }
    }
}
