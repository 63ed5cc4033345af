//! Seeded scheduler: threads run one at a time and hand over at every system call they make on the
//! scratch repository, so a schedule is a function of the seed (up to lock blocking).
use crate::rng::Rng;
use crate::sys::{self, Act, Ev, Monitor};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Running,
    Waiting,
    Done,
}

struct Shared {
    st: Vec<S>,
    tid: Vec<i32>,
    turn: Option<usize>,
    free: bool,
}

pub struct Sched {
    m: Mutex<Shared>,
    cv: Condvar,
}

struct Gate<'a> {
    s: &'a Sched,
    me: usize,
}

impl Sched {
    fn park(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        if g.free {
            return;
        }
        g.st[me] = S::Waiting;
        self.cv.notify_all();
        while g.turn != Some(me) && !g.free {
            g = self.cv.wait(g).unwrap();
        }
        if g.turn == Some(me) {
            g.turn = None;
        }
        g.st[me] = S::Running;
    }
}

impl Monitor for Gate<'_> {
    fn before(&mut self, ev: &Ev) -> Act {
        if ev.in_root {
            self.s.park(self.me);
        }
        Act::Pass
    }
}

fn sleeping(tid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit_once(')').map_or(false, |(_, r)| r.trim_start().starts_with('S')),
        Err(_) => false,
    }
}

/// system calls one thread may make
const EVENTS: u64 = 400_000;

#[derive(Default, Debug)]
pub struct Trace {
    /// which thread ran at each step
    pub steps: Vec<u8>,
    pub blocked: u64,
}

pub type Job<'a, T> = Box<dyn FnOnce() -> T + Send + 'a>;

pub fn run<'a, T: Send>(rng: &mut Rng, jobs: Vec<Job<'a, T>>) -> (Vec<T>, Trace) {
    let n = jobs.len();
    let s = Sched {
        m: Mutex::new(Shared { st: vec![S::Running; n], tid: vec![0; n], turn: None, free: false }),
        cv: Condvar::new(),
    };
    let mut tr = Trace::default();
    // the events of this thread are the scheduler's own
    let budget = sys::set_event_budget(u64::MAX);
    // how eagerly to switch
    let stick = *rng.pick(&[0usize, 0, 3, 7, 9]);
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(me, j)| {
                let s = &s;
                sc.spawn(move || {
                    s.m.lock().unwrap().tid[me] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                    s.park(me);
                    let mut g = Gate { s, me };
                    sys::set_event_budget(EVENTS);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys::monitored(&mut g, j)));
                    let mut l = s.m.lock().unwrap();
                    l.st[me] = S::Done;
                    s.cv.notify_all();
                    drop(l);
                    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
                })
            })
            .collect();
        let mut last: Option<usize> = None;
        loop {
            let mut g = s.m.lock().unwrap();
            let since = Instant::now();
            let mut naps = 0;
            // wait until every thread is parked, finished, or blocked on a lock of the library
            let ready = loop {
                if g.turn.is_some() {
                    // not picked up yet
                    g = s.cv.wait_timeout(g, Duration::from_millis(1)).unwrap().0;
                    continue;
                }
                let running: Vec<usize> = (0..n).filter(|&i| g.st[i] == S::Running).collect();
                let waiting: Vec<usize> = (0..n).filter(|&i| g.st[i] == S::Waiting).collect();
                if running.is_empty() {
                    break waiting;
                }
                if waiting.is_empty() {
                    // nothing to hand over to: wait for news, asleep (a dead-lock shows as such)
                    g = s.cv.wait(g).unwrap();
                    continue;
                }
                g = s.cv.wait_timeout(g, Duration::from_micros(300)).unwrap().0;
                if since.elapsed() > Duration::from_millis(2) {
                    let running: Vec<i32> = (0..n).filter(|&i| g.st[i] == S::Running).map(|i| g.tid[i]).collect();
                    if !running.is_empty() && running.iter().all(|&t| t != 0 && sleeping(t)) {
                        naps += 1;
                    } else {
                        naps = 0;
                    }
                    // asleep, or spinning on a lock that a parked thread holds
                    if naps >= 4 || since.elapsed() > Duration::from_millis(12) {
                        tr.blocked += 1;
                        let w: Vec<usize> = (0..n).filter(|&i| g.st[i] == S::Waiting).collect();
                        if !w.is_empty() {
                            break w;
                        }
                    }
                }
            };
            if ready.is_empty() {
                break;
            }
            let pick = match last {
                Some(l) if ready.contains(&l) && rng.below(10) < stick => l,
                _ => *rng.pick(&ready),
            };
            last = Some(pick);
            tr.steps.push(pick as u8);
            g.turn = Some(pick);
            if tr.steps.len() > 20_000 {
                g.free = true;
            }
            s.cv.notify_all();
            drop(g);
        }
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    sys::set_event_budget(budget);
    (out.into_iter().map(|r| r.expect("job")).collect(), tr)
}
