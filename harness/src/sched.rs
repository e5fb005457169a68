//! A controlled scheduler: exactly one participating thread runs at a time, and at every scheduling
//! point (an arithmetic operation on `Hooked`, or a call into a harness-provided inner transform) a
//! seeded decision says whether another thread runs next. The interleaving is a function of the seed.
//! If the chosen thread cannot be woken within a grace period (it is blocked on a lock the library
//! holds) the current thread takes the turn back, so locking code is never misjudged.
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub struct State {
    turn: usize,
    alive: Vec<bool>,
    rng: u64,
    period: u64,
    pub switches: u64,
    pub points: u64,
}
static ST: Mutex<Option<State>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
/// only one controlled schedule at a time in the process
pub static GATE: Mutex<()> = Mutex::new(());
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn next(r: &mut u64) -> u64 {
    *r = r.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *r;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn start(n: usize, seed: u64, period: u64) {
    *ST.lock().unwrap() = Some(State { turn: 0, alive: vec![true; n], rng: seed, period: period.max(1), switches: 0, points: 0 });
}
pub fn stop() -> (u64, u64) {
    let s = ST.lock().unwrap().take().unwrap();
    (s.points, s.switches)
}
pub fn enter(me: usize) {
    ME.with(|m| m.set(me));
    crate::elem::HOOK.with(|h| h.set(true));
    wait_turn(me);
}
fn wait_turn(me: usize) {
    let mut g = ST.lock().unwrap();
    let mut waited = 0;
    loop {
        match g.as_mut() {
            None => return,
            Some(s) => {
                if s.turn == me {
                    return;
                }
                if waited >= 20 {
                    s.turn = me;
                    CV.notify_all();
                    return;
                }
            }
        }
        let (g2, t) = CV.wait_timeout(g, Duration::from_millis(50)).unwrap();
        if t.timed_out() {
            waited += 1;
        } else {
            waited = 0;
        }
        g = g2;
    }
}
pub fn point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    {
        let mut g = ST.lock().unwrap();
        let s = match g.as_mut() {
            Some(s) => s,
            None => return,
        };
        s.points += 1;
        if next(&mut s.rng) % s.period != 0 {
            return;
        }
        let cand: Vec<usize> = (0..s.alive.len()).filter(|&i| i != me && s.alive[i]).collect();
        if cand.is_empty() {
            return;
        }
        s.turn = cand[(next(&mut s.rng) % cand.len() as u64) as usize];
        s.switches += 1;
        CV.notify_all();
    }
    wait_turn(me);
}
pub fn leave() {
    let me = ME.with(|m| m.get());
    ME.with(|m| m.set(usize::MAX));
    crate::elem::HOOK.with(|h| h.set(false));
    let mut g = ST.lock().unwrap();
    if let Some(s) = g.as_mut() {
        s.alive[me] = false;
        if let Some(i) = (0..s.alive.len()).find(|&i| s.alive[i]) {
            s.turn = i;
        }
        CV.notify_all();
    }
}
