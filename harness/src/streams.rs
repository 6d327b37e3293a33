//! P17, P29, P30: time limits, cancellable streams and the set of live connections.
use crate::sym::*;
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wruster::verif::*;

// ---- P17: the limit over any sequence of waits -------------------------------
/// A transport each of whose operations takes an arbitrary time, up to the limit it was given, and ends in one of
/// the ways a socket has.
#[derive(Default)]
struct Slow { given: Cell<Option<Duration>>, wgiven: Cell<Option<Duration>>, fine: bool, last: Cell<Option<bool>>, left: Cell<Duration> }
const MS: u64 = 1_000_000;
/// An arbitrary length of time below 256 s, to the nanosecond (fine) or to the second.
fn span(fine: bool) -> Duration {
    let s = byte!("seconds") as u64;
    let n = if fine { let b = bytes!(4, "nanoseconds"); let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]); assume_(n < 1_000_000_000); n } else { 0 };
    Duration::new(s, n)
}
fn pass(d: Duration) { os::advance_parts(d.as_secs(), d.subsec_nanos() as u64); }
impl Slow {
    /// true: the operation got what it wanted
    fn op(&self, t: Duration) -> bool {
        let left = self.left.get();
        // what is left of the limit is what it may take, no more and no less
        check!(t <= left, "P17.more-than-left");
        check!(t >= left, "P17.less-than-left");
        let d = span(self.fine);
        // with no time at all, it gets what is there already
        let ok = if t == Duration::ZERO { choose!(2, "there already") == 1 } else { d < t };
        let d = if ok { d } else { t };
        pass(d);
        self.left.set(left - d);
        self.last.set(Some(ok));
        ok
    }
}
struct Io(Rc<Slow>);
fn ended(done: bool) -> io::Result<usize> {
    if done { match choose!(4, "how it ends") { 0 => Ok(1), 1 => Ok(0), 2 => Err(io::Error::from(ErrorKind::Interrupted)), _ => Err(io::Error::from(ErrorKind::ConnectionReset)) } }
    else { Err(io::Error::from(if choose!(2, "kind of timeout") == 0 { ErrorKind::WouldBlock } else { ErrorKind::TimedOut })) }
}
impl Read for Io { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { match self.0.given.get() { None => fail!("P17.no-limit-given"), Some(t) => { let r = ended(self.0.op(t)); if let Ok(1) = r { b[0] = 7; } r } } } }
impl Write for Io { fn write(&mut self, _: &[u8]) -> io::Result<usize> { match self.0.wgiven.get() { None => fail!("P17.no-limit-given"), Some(t) => ended(self.0.op(t)) } } 
    fn flush(&mut self) -> io::Result<()> { match self.0.wgiven.get() { None => fail!("P17.no-limit-given"), Some(t) => ended(self.0.op(t)).map(|_| ()) } }
}
impl Timeout for Io {
    fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> { self.0.given.set(d); Ok(()) }
    fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> { self.0.wgiven.set(d); Ok(()) }
}
/// P17: `ops` reads (dir 0) or writes and flushes (1), or either (2), each waiting an arbitrary time, with other time passing in between.
entry!(h_limit(ops, dir, fine) {
    let limit = span(fine == 1);
    assume_(limit > Duration::ZERO);
    let s = Rc::new(Slow { fine: fine == 1, ..Slow::default() });
    let mut t = TimeoutStream::from(Io(s.clone()), Some(limit), Some(limit));
    let mut left = [limit, limit];
    for _ in 0..ops {
        let w = match dir { 0 => 0, 1 => 1, _ => choose!(2, "direction") };
        s.left.set(left[w]); s.last.set(None);
        let mut b = [0u8; 1];
        let r = if w == 0 { t.read(&mut b) } else if choose!(2, "flush") == 1 { t.flush().map(|_| 0) } else { t.write(&b) };
        match s.last.get() {
            None => {
                // it did not wait at all: only when nothing is left
                cover!("nothing left");
                check!(left[w] == Duration::ZERO, "P17.cut-short");
                check!(matches!(&r, Err(e) if e.kind() == ErrorKind::TimedOut), "P17.says-timeout");
            }
            Some(false) => { cover!("ran out"); check!(matches!(&r, Err(e) if e.kind() == ErrorKind::TimedOut), "P17.says-timeout"); }
            Some(true) => { cover!("in time"); check!(left[w] > Duration::ZERO, "P17.past-limit"); check!(!matches!(&r, Err(e) if e.kind() == ErrorKind::TimedOut || e.kind() == ErrorKind::WouldBlock), "P17.cut-short"); }
        }
        left[w] = s.left.get();
        // time that passes between the operations does not count
        pass(span(fine == 1));
    }
});

// ---- P29 ----------------------------------------------------------------------
fn pair(port: u16) -> (TcpStream, TcpStream) {
    let l = TcpListener::bind(("127.0.0.1", port)).unwrap();
    let a = TcpStream::connect(("127.0.0.1", port)).unwrap();
    let (b, _) = l.accept().unwrap();
    (a, b)
}
/// Moves `all` through the peer in pieces chosen here, with pauses or not.
fn peer_sends(mut p: TcpStream, all: Vec<u8>, pieces: usize) -> TcpStream {
    let mut at = 0;
    for k in 0..pieces {
        let n = if k + 1 == pieces { all.len() - at } else { choose!(all.len() - at + 1, "sent at once") };
        if n > 0 { p.write_all(&all[at..at + n]).unwrap(); }
        at += n;
        if choose!(2, "pause") == 1 { std::thread::sleep(Duration::from_secs(1)); }
    }
    p
}
/// P29: `n` arbitrary bytes sent in up to `pieces` pieces, read with buffers of chosen size; reads may be cut short.
entry!(h_cread(n, pieces, short, pre) {
    let (peer, own) = pair(80);
    let c = CancellableStream::new(own).unwrap();
    c.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    let data = bytes!(n, "data");
    let d2 = data.clone();
    os::short_io(short as i32); os::epoll_intr((short > 0) as i32); os::would_block(short as i32);
    os::sched(pre as i32, 2);
    let h = std::thread::spawn(move || { let p = peer_sends(peer, d2, pieces); p.shutdown(Shutdown::Write).unwrap(); p });
    let mut got = vec![];
    let mut idle = 0;
    loop {
        let mut b = [0u8; 4];
        let k = 1 + choose!(4, "buffer");
        match (&c).read(&mut b[..k]) {
            Ok(0) => break,
            Ok(m) => { check!(m <= k, "P29.more-than-asked"); got.extend_from_slice(&b[..m]); check!(got.len() <= n && same(&got, &data[..got.len()]), "P29.in-order"); }
            Err(e) if e.kind() == ErrorKind::Interrupted => { idle += 1; check!(idle < 20, "P29.progress"); }
            Err(_) => break,
        }
    }
    check!(same(&got, &data), "P29.nothing-lost");
    cover!("all read");
    drop(h.join().unwrap());
});
/// P29: `n` bytes written through a window of `cap`, the peer reading in chosen pieces with pauses.
entry!(h_cwrite(n, cap, short, pre) {
    os::rcap(cap as i32);
    let (mut peer, own) = pair(80);
    let c = CancellableStream::new(own).unwrap();
    c.set_write_timeout(Some(Duration::from_secs(60))).unwrap();
    let data = bytes!(n, "data");
    let d2 = data.clone();
    os::short_io(short as i32); os::epoll_intr((short > 0) as i32); os::would_block(short as i32);
    os::sched(pre as i32, 2);
    let h = std::thread::spawn(move || {
        let mut got = vec![];
        loop {
            if choose!(2, "pause") == 1 { std::thread::sleep(Duration::from_secs(1)); }
            let mut b = [0u8; 8];
            let k = 1 + choose!(3, "taken");
            match peer.read(&mut b[..k]) { Ok(0) | Err(_) => return got, Ok(m) => got.extend_from_slice(&b[..m]) }
        }
    });
    let mut at = 0; let mut tries = 0;
    while at < n {
        let k = 1 + choose!(n - at, "written at once");
        match (&c).write(&data[at..at + k]) {
            Ok(m) => { check!(m <= k, "P29.more-than-given"); at += m; }
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => fail!("P29.write-fails"),
        }
        tries += 1; check!(tries < 20, "P29.progress");
    }
    (&c).flush().unwrap();
    drop(c);
    let got = h.join().unwrap();
    check!(same(&got, &data), "P29.nothing-lost");
    cover!("all written");
});
/// P29: a read (0) or write (1) that gets nowhere, with a limit of `limit` seconds or none (0); shutdown by another
/// thread after a chosen time, or never; how: which half.
entry!(h_cstop(dir, limit, how, pre) {
    os::rcap(8);
    let (peer, own) = pair(80);
    let c = Arc::new(CancellableStream::new(own).unwrap());
    let lim = if limit > 0 { Some(Duration::from_secs(limit as u64)) } else { None };
    c.set_read_timeout(lim).unwrap(); c.set_write_timeout(lim).unwrap();
    let when = [0u64, 1, 3, 7][choose!(if limit > 0 { 4 } else { 3 }, "shut down after")];
    let stops = limit == 0 || choose!(2, "shut down at all") == 1;
    os::sched(pre as i32, 2);
    let t0 = os::now();
    let c2 = c.clone();
    let how_ = if dir == 1 { [Shutdown::Both, Shutdown::Write][how] } else { [Shutdown::Both, Shutdown::Read][how] };
    let h = std::thread::spawn(move || { if stops { if when > 0 { std::thread::sleep(Duration::from_secs(when)); } let _ = c2.shutdown(how_); } });
    let mut tries = 0;
    let r = loop {
        let mut b = [0u8; 16];
        let r = if dir == 0 { (&*c).read(&mut b) } else { (&*c).write(&b) };
        match r { Err(e) if e.kind() == ErrorKind::Interrupted => { tries += 1; check!(tries < 10, "P29.progress"); } r => break r }
    };
    let t = os::now() - t0;
    let by_stop = stops && (limit == 0 || when < limit as u64);
    if by_stop {
        cover!("shut down");
        check!(t <= when * 1000 * MS + 10 * MS, "P29.wakes-promptly");
        match &r { Ok(0) => {} Ok(_) => fail!("P29.made-up-data"), Err(_) => {} }
    } else if !stops || when > limit as u64 {
        cover!("timed out");
        check!(matches!(&r, Err(e) if e.kind() == ErrorKind::TimedOut), "P29.says-timeout");
        check!(t >= limit as u64 * 1000 * MS && t <= limit as u64 * 1000 * MS + 10 * MS, "P29.at-the-limit");
    }
    h.join().unwrap();
    drop(peer);
});

// ---- P30 ----------------------------------------------------------------------
fn addr<T>(x: &T) -> usize { x as *const T as usize }
type List = Arc<ObservedStreamList<TcpStream>>;
fn one(l: &List, port: u16) -> (ObservedStream<TcpStream>, TcpStream) {
    let (a, b) = pair(port);
    (ObservedStreamList::track(l, CancellableStream::new(b).unwrap()), a)
}
/// P30, one thread: any sequence of registering, cloning, dropping and draining.
entry!(h_list(steps) {
    let l: List = ObservedStreamList::new();
    let mut held: Vec<Vec<ObservedStream<TcpStream>>> = vec![];
    let mut tracked: Vec<bool> = vec![];
    let mut peers = vec![];
    for _ in 0..steps {
        let live = held.len();
        match choose!(4, "step") {
            0 => { let (s, p) = one(&l, 80); held.push(vec![s]); tracked.push(true); peers.push(p); }
            1 if live > 0 => { let i = choose!(live, "which"); let c = held[i][0].clone(); held[i].push(c); }
            2 if live > 0 => { let i = choose!(live, "which"); held[i].pop(); if held[i].is_empty() { held.remove(i); tracked.remove(i); } }
            3 => {
                let d = l.drain();
                let up: Vec<_> = d.iter().filter_map(|w| w.upgrade()).collect();
                check!(d.len() == tracked.iter().filter(|t| **t).count() && up.len() == d.len(), "P30.drained-all");
                for (i, h) in held.iter().enumerate() { let n = up.iter().filter(|u| addr(&***u) == addr(&*h[0])).count(); check!(n == tracked[i] as usize, "P30.each-once"); tracked[i] = false; }
                cover!("drained");
            }
            _ => {}
        }
        check!(l.len() == tracked.iter().filter(|t| **t).count(), "P30.exactly-the-live");
    }
});
/// P30: `n` threads each register a connection, use it and drop it (some twice), while another drains and shuts down.
entry!(h_list_race(n, again, pre) {
    let l: List = ObservedStreamList::new();
    let keep = Arc::new(Mutex::new(vec![]));
    let peers = Arc::new(Mutex::new(vec![]));
    os::sched(pre as i32, if pre > 0 { 0 } else { 2 });
    let (early, pe) = one(&l, 79);
    let hs: Vec<_> = (0..n).map(|k| {
        let (l, keep, peers) = (l.clone(), keep.clone(), peers.clone());
        std::thread::spawn(move || {
            for j in 0..=again {
                let (s, p) = one(&l, 80 + k as u16);
                peers.lock().unwrap().push(p);
                let c = s.clone();
                drop(s);
                // kept by every thread's last round when chosen
                if j == again && choose!(2, "keeps") == 1 { keep.lock().unwrap().push(c); } else { drop(c); }
            }
        })
    }).collect();
    // the drain runs while they do
    let d = l.drain();
    let mut stopped = 0;
    let mut saw_early = 0;
    for w in d.iter() { if let Some(s) = w.upgrade() { if addr(&*s) == addr(&*early) { saw_early += 1; } s.shutdown(Shutdown::Both).ok(); stopped += 1; } }
    drop(d);
    check!(saw_early == 1, "P30.live-is-there");
    for h in hs { h.join().unwrap(); }
    os::sched(0, 0);
    let kept = keep.lock().unwrap();
    let _ = stopped;
    let left = l.len();
    let rest = l.drain();
    check!(rest.len() == left, "P30.len");
    // every one kept is either still listed or was given to the drain (and shut down)
    let mut listed = 0;
    for c in kept.iter() {
        let k = rest.iter().filter(|w| w.upgrade().map_or(false, |s| addr(&*s) == addr(&**c))).count();
        check!(k <= 1, "P30.each-once");
        listed += k;
        if k == 0 { cover!("drained early"); let mut b = [0u8; 1]; let r = { let mut x: &CancellableStream<TcpStream> = &**c; x.read(&mut b) }; check!(!matches!(r, Ok(n) if n > 0), "P30.drained-or-listed"); check!(!matches!(&r, Err(e) if e.kind() == ErrorKind::TimedOut), "P30.drained-or-listed"); } else { cover!("still listed"); }
    }
    check!(rest.len() == listed, "P30.none-that-is-gone");
    check!(l.len() == 0, "P30.drained");
    drop(early); drop(pe);
});
