//! P27: the client's pool of idle connections.
use crate::sym::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wruster::verif::{IdlePool, PoolResource};

const NS: u64 = 1_000_000_000;
/// A connection that says when it is dropped.
struct Conn { id: usize, key: usize, gone: Arc<Mutex<Vec<usize>>> }
impl Drop for Conn { fn drop(&mut self) { self.gone.lock().unwrap().push(self.id); } }
const KEYS: [&str; 3] = ["a:80", "b:80", "a:8"];
struct Entry { key: usize, id: usize, at: u64 }
/// P27: `steps` of inserting, getting, letting time pass and draining, over `keys` addresses.
entry!(h_idle(steps, keys, timeout) {
    let t = if timeout == 0 { 30 } else { timeout as u64 };
    let p: IdlePool<Conn> = IdlePool::new(if timeout == 0 { None } else { Some(Duration::from_secs(t)) });
    let gone = Arc::new(Mutex::new(vec![]));
    let mut model: Vec<Entry> = vec![];
    let mut out: Vec<Conn> = vec![];
    let mut next = 0;
    for _ in 0..steps {
        match choose!(4, "step") {
            0 => {
                let key = choose!(keys, "key");
                p.insert(KEYS[key], PoolResource::new(Conn { id: next, key, gone: gone.clone() }));
                model.retain(|e| e.key != key);
                model.push(Entry { key, id: next, at: os::now() }); next += 1;
            }
            1 => {
                let key = choose!(keys, "key");
                let got = p.get(KEYS[key]).map(|r| r.resource());
                let e = model.iter().position(|e| e.key == key).map(|i| model.remove(i));
                match (got, e) {
                    (None, None) => { cover!("nothing there"); }
                    (Some(_), None) => fail!("P27.made-up"),
                    (None, Some(e)) => { cover!("expired"); check!(os::now() - e.at >= t * NS, "P27.dropped-early"); }
                    (Some(c), Some(e)) => {
                        cover!("handed out");
                        check!(c.id == e.id && c.key == key, "P27.right-one");
                        check!(os::now() - e.at < (t + 15) * NS + 10_000_000, "P27.idle-too-long");
                        check!(!gone.lock().unwrap().contains(&c.id), "P27.once");
                        out.push(c);
                    }
                }
            }
            2 => { std::thread::sleep(Duration::from_secs([1, 14, 16, 31][choose!(4, "time")])); }
            _ => {
                let d: Vec<Conn> = p.drain().into_iter().map(|r| r.resource()).collect();
                cover!("drained");
                for c in &d { check!(model.iter().any(|e| e.id == c.id), "P27.made-up"); }
                for (i, c) in d.iter().enumerate() { check!(d[..i].iter().all(|x| x.id != c.id), "P27.once"); }
                for e in &model { check!(d.iter().any(|c| c.id == e.id) || os::now() - e.at >= t * NS, "P27.drained"); }
                model.clear();
            }
        }
        // what is still young enough is there, what is too old is gone for good
        let g = gone.lock().unwrap();
        for e in &model {
            let idle = os::now() - e.at;
            if idle < t * NS { check!(!g.contains(&e.id), "P27.dropped-early"); }
            if idle >= (t + 15) * NS + 10_000_000 { check!(g.contains(&e.id), "P27.idle-too-long"); }
        }
        for i in 0..g.len() { check!(!g[..i].contains(&g[i]), "P27.once"); }
    }
    let t0 = os::now();
    drop(p);
    check!(os::live() == 0, "P27.worker-ends");
    check!(os::now() - t0 < NS, "P27.worker-ends-soon");
    drop(out);
    let g = gone.lock().unwrap();
    check!(g.len() == next, "P27.none-left");
});
/// P27: the pool filled to its limit, then `steps` of using one (taking it out and putting it back), replacing one and
/// adding new ones.
entry!(h_idle_lru(steps, fill) {
    let p: IdlePool<Conn> = IdlePool::new(Some(Duration::from_secs(1_000_000)));
    let gone = Arc::new(Mutex::new(vec![]));
    let mut order: Vec<(String, usize)> = vec![]; // least recently used first
    let mut next = 0;
    let put = |order: &mut Vec<(String, usize)>, next: &mut usize, name: String| {
        os::advance(1000);
        p.insert(&name, PoolResource::new(Conn { id: *next, key: 0, gone: gone.clone() }));
        order.retain(|(n, _)| *n != name);
        order.push((name, *next));
        *next += 1;
        if order.len() > 100 { cover!("made room"); order.remove(0); }
    };
    for k in 0..fill { put(&mut order, &mut next, format!("h{}", k)); }
    for s in 0..steps {
        match choose!(3, "step") {
            0 => put(&mut order, &mut next, format!("n{}", s)),
            1 => { let i = [0, 1, order.len() / 2, order.len() - 1][choose!(4, "which")]; let name = order[i].0.clone(); put(&mut order, &mut next, name); }
            _ => {
                let i = [0, order.len() / 2, order.len() - 1][choose!(3, "which")];
                let (name, id) = order.remove(i);
                match p.get(&name) { None => fail!("P27.kept"), Some(r) => { let c = r.resource(); check!(c.id == id, "P27.right-one"); std::mem::forget(c); } }
                if choose!(2, "given back") == 1 { put(&mut order, &mut next, name); }
            }
        }
        let g = gone.lock().unwrap();
        check!(order.iter().all(|(_, id)| !g.contains(id)), "P27.kept");
    }
    let d: Vec<usize> = p.drain().into_iter().map(|r| { let c = r.resource(); let i = c.id; std::mem::forget(c); i }).collect();
    check!(d.len() <= 100, "P27.limit");
    check!(d.len() == order.len() && order.iter().all(|(_, id)| d.contains(id)), "P27.least-recently-used-goes");
    drop(p);
});
/// P27: `n` threads each take and give back (or keep) the connection of one address while the worker looks for old
/// ones; then the pool is dropped.
entry!(h_idle_race(n, each, pre) {
    let p: Arc<IdlePool<Conn>> = Arc::new(IdlePool::new(Some(Duration::from_secs(15))));
    let gone = Arc::new(Mutex::new(vec![]));
    let holders = Arc::new((0..8).map(|_| AtomicUsize::new(0)).collect::<Vec<_>>());
    let kept = Arc::new(Mutex::new(vec![]));
    p.insert("x", PoolResource::new(Conn { id: 0, key: 0, gone: gone.clone() }));
    p.insert("y", PoolResource::new(Conn { id: 1, key: 1, gone: gone.clone() }));
    let edge = choose!(3, "near the worker's round");
    if edge > 0 { std::thread::sleep(Duration::from_secs(14) + if edge == 2 { Duration::from_millis(999) } else { Duration::ZERO }); }
    os::sched(pre as i32, 2);
    let hs: Vec<_> = (0..n).map(|_| { let (p, holders, kept) = (p.clone(), holders.clone(), kept.clone()); std::thread::spawn(move || for _ in 0..each {
        let key = choose!(2, "key");
        if edge == 2 && choose!(2, "waits") == 1 { std::thread::sleep(Duration::from_millis(1)); }
        if let Some(r) = p.get(["x", "y"][key]) {
            let c = r.resource();
            check!(c.key == key, "P27.right-address");
            check!(holders[c.id].fetch_add(1, SeqCst) == 0, "P27.once");
            std::thread::yield_now();
            if choose!(2, "gives back") == 1 { holders[c.id].fetch_sub(1, SeqCst); p.insert(["x", "y"][key], PoolResource::new(c)); cover!("given back"); } else { kept.lock().unwrap().push(c); }
        }
    }) }).collect();
    for h in hs { h.join().unwrap(); }
    let p = match Arc::try_unwrap(p) { Ok(p) => p, Err(_) => fail!("engine: shared") };
    drop(p);
    check!(os::live() == 0, "P27.worker-ends");
    let k = kept.lock().unwrap().len();
    check!(gone.lock().unwrap().len() + k == 2, "P27.none-left");
    cover!("finished");
});
/// P27: while the worker looks for old ones, a newer connection is given back for an address whose old one is due, or
/// (with `fill` others there) for a new address.  It is there afterwards, and so are the others still young; no more than
/// the limit are kept.
entry!(h_idle_swap(fill, pre) {
    let p: Arc<IdlePool<Conn>> = Arc::new(IdlePool::new(Some(Duration::from_secs(14))));
    let gone = Arc::new(Mutex::new(vec![]));
    let conn = |id: usize, key: usize| PoolResource::new(Conn { id, key, gone: gone.clone() });
    p.insert("x", conn(0, 0));
    std::thread::sleep(Duration::from_secs(10));
    p.insert("y", conn(1, 1));
    let mut next = 2;
    for k in 0..fill { p.insert(&format!("h{}", k), conn(next, 9)); next += 1; }
    std::thread::sleep(Duration::from_secs(4) + Duration::from_millis(999));
    let new = [("x", 0), ("y", 1), ("z", 2)][choose!(3, "given back")];
    os::sched(pre as i32, 2);
    let (p2, c) = (p.clone(), conn(100_000, new.1));
    let h = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(choose!(2, "at once or with the round") as u64)); p2.insert(new.0, c); });
    h.join().unwrap();
    std::thread::sleep(Duration::from_secs(1));
    { let g = gone.lock().unwrap(); check!(!g.contains(&100_000), "P27.dropped-early"); check!(fill > 90 || new.1 == 1 || !g.contains(&1), "P27.dropped-early"); if g.contains(&0) { cover!("old one dropped"); } }
    match p.get(new.0) { None => fail!("P27.dropped-early"), Some(r) => check!(r.resource().id == 100_000, "P27.right-one") }
    let d: Vec<usize> = p.drain().into_iter().map(|r| r.resource().id).collect();
    check!(d.len() < 100, "P27.limit");
    for (i, x) in d.iter().enumerate() { check!(!d[..i].contains(x), "P27.once"); }
    if fill < 90 { check!(d.contains(&1) == (new.1 != 1), "P27.dropped-early"); check!(d.len() == fill + (new.1 != 1) as usize, "P27.none-made-up"); }
    let p = match Arc::try_unwrap(p) { Ok(p) => p, Err(_) => fail!("engine: shared") };
    drop(p);
    check!(os::live() == 0, "P27.worker-ends");
    check!(gone.lock().unwrap().len() == next + 1, "P27.none-left");
    cover!("finished");
});
/// P27: the pool is dropped at any moment of its worker's life.
entry!(h_idle_drop(when, pre) {
    let p: IdlePool<u8> = IdlePool::new(None);
    if when == 1 { std::thread::sleep(Duration::from_secs(15)); }
    if when == 2 { os::idle(); }
    os::sched(pre as i32, 2);
    p.insert("x", PoolResource::new(1));
    let t0 = os::now();
    drop(p);
    check!(os::live() == 0, "P27.worker-ends");
    check!(os::now() - t0 < NS, "P27.worker-ends-soon");
    cover!("ended");
});
