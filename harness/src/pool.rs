//! P18, P19, P20: the worker pool, under every schedule within the preemption bound.
use crate::sym::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use wruster::verif::{Pool, PoolError};

pub const N: usize = 8;
#[derive(Default)]
struct Count { running: AtomicUsize, peak: AtomicUsize, started: [AtomicUsize; N], done: [AtomicUsize; N] }
struct Gate { open: Mutex<bool>, cv: Condvar }
impl Gate {
    fn new() -> Arc<Gate> { Arc::new(Gate { open: Mutex::new(false), cv: Condvar::new() }) }
    fn open(&self) { *self.open.lock().unwrap() = true; self.cv.notify_all(); }
    fn pass(&self) { let mut g = self.open.lock().unwrap(); while !*g { g = self.cv.wait(g).unwrap(); } }
}
struct Leave<'a>(&'a Count, usize);
impl Drop for Leave<'_> { fn drop(&mut self) { self.0.running.fetch_sub(1, Relaxed); self.0.done[self.1].fetch_add(1, Relaxed); } }
/// A task that counts itself; waits at the gate, if any; panics if told to.
fn task(c: &Arc<Count>, k: usize, gate: Option<Arc<Gate>>, panics: bool) -> Box<dyn FnOnce() + Send + 'static> {
    let c = c.clone();
    Box::new(move || {
        c.started[k].fetch_add(1, Relaxed);
        let r = c.running.fetch_add(1, Relaxed) + 1;
        if r > c.peak.load(Relaxed) { c.peak.store(r, Relaxed); }
        let _l = Leave(&c, k);
        if let Some(g) = gate { g.pass(); }
        if panics { panic!("task"); }
    })
}
fn submit(p: &mut Pool, c: &Arc<Count>, k: usize, gate: Option<Arc<Gate>>, panics: bool) -> bool {
    match p.run(task(c, k, gate, panics)) {
        Ok(()) => true,
        Err(PoolError { action }) => {
            check!(c.started[k].load(Relaxed) == 0, "P18.refused-but-run");
            // the task comes back whole
            let d = c.clone(); drop(action);
            check!(Arc::strong_count(&d) >= 1, "P18.refused");
            false
        }
    }
}
/// P18 (and P19 with panics 1): a pool of `stat` standing and up to `max` workers in all; `tasks` tasks; mode 0: they
/// run through, 1: they wait until all are handed in. Before each the harness may wait until everything is quiet.
entry!(h_pool(stat, max, tasks, mode, panics, pre) {
    let size = if max > stat { max } else { stat };
    let c = Arc::new(Count::default());
    let gate = Gate::new();
    os::sched(pre as i32, if pre > 0 { 0 } else { 3 });
    let mut p = Pool::new(stat, max);
    let mut accepted = [false; N];
    let mut n = 0; let mut any_panic = false;
    for k in 0..tasks {
        let quiet = choose!(2, "quiet first") == 1;
        if quiet { os::idle(); }
        let panics = panics == 1 && choose!(2, "panics") == 1;
        any_panic |= panics;
        accepted[k] = submit(&mut p, &c, k, if mode == 1 { Some(gate.clone()) } else { None }, panics);
        // everyone who is not held at the gate waits for work
        if quiet && (mode == 0 || n < size) { if any_panic { check!(accepted[k], "P19.idle-pool-refuses"); } else { check!(accepted[k], "P18.idle-pool-refuses"); } }
        if quiet && mode == 1 && n >= size { check!(!accepted[k], "P18.full-pool-accepts"); }
        if accepted[k] { n += 1; }
    }
    if mode == 1 { gate.open(); }
    drop(p);
    for k in 0..tasks {
        let (s, d) = (c.started[k].load(Relaxed), c.done[k].load(Relaxed));
        if accepted[k] { cover!("accepted"); check!(s == 1, "P18.P19.run-once"); check!(d == 1, "P18.P19.drop-waits"); } else { cover!("refused"); check!(s == 0, "P18.refused-but-run"); }
    }
    check!(c.peak.load(Relaxed) <= size, "P18.too-many-at-once");
    check!(os::live() == 0, "P18.P19.threads-left");
});
/// P19: some of the first tasks panic; then the pool must take as many tasks at once as it is big.
entry!(h_pool_panic(stat, max, first, pre) {
    let size = if max > stat { max } else { stat };
    let c = Arc::new(Count::default());
    os::sched(pre as i32, if pre > 0 { 0 } else { 2 });
    let mut p = Pool::new(stat, max);
    for k in 0..first {
        if choose!(2, "quiet first") == 1 { os::idle(); }
        let _ = submit(&mut p, &c, k, None, choose!(2, "panics") == 1);
    }
    os::idle();
    let gate = Gate::new();
    let c2 = Arc::new(Count::default());
    for k in 0..size {
        check!(submit(&mut p, &c2, k, Some(gate.clone()), false), "P19.capacity-lost");
        os::idle();
        check!(c2.started[k].load(Relaxed) == 1, "P19.task-not-run");
    }
    cover!("full again");
    gate.open();
    drop(p);
    for k in 0..size { check!(c2.done[k].load(Relaxed) == 1, "P19.task-not-finished"); }
    check!(os::live() == 0, "P19.threads-left");
});
/// P20: on-demand workers; each step hands in a task, lets half the idle limit pass, or more than all of it.
entry!(h_pool_idle(max, steps, pre, races) {
    let c = Arc::new(Count::default());
    os::sched(pre as i32, if pre > 0 { 0 } else { 1 }); os::time_races(races as i32);
    let mut p = Pool::new(0, max);
    let mut k = 0;
    let mut accepted = [false; N];
    for _ in 0..steps {
        match choose!(4, "step") {
            0 | 3 if k < N => {
                let quiet = choose!(2, "quiet first") == 1;
                if quiet { os::idle(); }
                accepted[k] = submit(&mut p, &c, k, None, false);
                if quiet && races == 0 { check!(accepted[k], "P20.capacity-lost"); }
                k += 1;
            }
            1 => { std::thread::sleep(std::time::Duration::from_secs(6)); }
            2 => { std::thread::sleep(std::time::Duration::from_secs(11)); os::idle(); check!(races > 0 || os::live() == 0, "P20.idle-worker-stays"); cover!("expired"); }
            _ => {}
        }
        check!(os::live() as usize <= max + races, "P20.too-many-workers");
    }
    drop(p);
    for i in 0..k { check!(c.started[i].load(Relaxed) == accepted[i] as usize && c.done[i].load(Relaxed) == accepted[i] as usize, "P20.accepted-is-run"); }
    check!(os::live() == 0, "P20.threads-left");
});
/// P20: a task handed in exactly while the worker's limit runs out, then the slots are all used again.
entry!(h_pool_race(max, pre, races) {
    let c = Arc::new(Count::default());
    let mut p = Pool::new(0, max);
    for k in 0..max { check!(submit(&mut p, &c, k, None, false), "P20.first-tasks"); }
    os::idle();
    // the limit is nearly reached
    std::thread::sleep(std::time::Duration::from_millis(9_999));
    os::sched(pre as i32, 0); os::time_races(races as i32);
    let a = submit(&mut p, &c, max, None, false);
    let b = submit(&mut p, &c, max + 1, None, false);
    os::sched(0, 0); os::time_races(0);
    os::idle();
    check!(c.started[max].load(Relaxed) == a as usize, "P18.P20.accepted-is-run");
    check!(c.started[max + 1].load(Relaxed) == b as usize, "P18.P20.accepted-is-run");
    if a { cover!("accepted"); } else { cover!("refused"); }
    std::thread::sleep(std::time::Duration::from_secs(11));
    os::idle();
    check!(os::live() == 0, "P20.idle-worker-stays");
    let gate = Gate::new();
    let d = Arc::new(Count::default());
    for k in 0..max { check!(submit(&mut p, &d, k, Some(gate.clone()), false), "P20.capacity-lost"); os::idle(); check!(d.started[k].load(Relaxed) == 1, "P18.P20.accepted-is-run"); }
    check!(!submit(&mut p, &d, max, None, false), "P18.P20.over-capacity");
    gate.open();
    drop(p);
    check!(d.peak.load(Relaxed) <= max, "P18.P20.too-many-at-once");
});
/// P18: `steps` steps, each handing in a task that waits at its own gate, or letting any of those go; a task is taken
/// exactly when not all workers are busy.
entry!(h_pool_mixed(stat, max, steps) {
    let size = if max > stat { max } else { stat };
    let c = Arc::new(Count::default());
    os::sched(0, 3);
    let mut p = Pool::new(stat, max);
    let gates: Vec<Arc<Gate>> = (0..steps).map(|_| Gate::new()).collect();
    let mut held: Vec<usize> = vec![]; let mut taken = vec![];
    for k in 0..steps {
        os::idle();
        if !held.is_empty() && choose!(2, "one ends") == 1 { let i = choose!(held.len(), "which"); gates[held.remove(i)].open(); cover!("ended"); continue; }
        let ok = submit(&mut p, &c, k, Some(gates[k].clone()), false);
        if held.len() < size { check!(ok, "P18.free-worker-refused"); held.push(k); taken.push(k); cover!("accepted"); } else { check!(!ok, "P18.full-pool-accepts"); cover!("refused"); }
    }
    for g in gates.iter() { g.open(); }
    drop(p);
    for k in taken { check!(c.started[k].load(Relaxed) == 1, "P18.run-once"); check!(c.done[k].load(Relaxed) == 1, "P18.drop-waits"); }
    check!(os::live() == 0, "P18.threads-left");
});
