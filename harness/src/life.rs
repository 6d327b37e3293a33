//! P17 (whole server), P24, P25, P26: overload, shutdown, faults and slow peers.
use crate::server::*;
use crate::sym::*;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::str::FromStr;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use wruster::http::*;
use wruster::router::*;
use wruster::Server;

/// Handlers take a ticket and wait until it is called.
struct Gate { st: Mutex<(usize, Vec<usize>, bool)>, cv: Condvar }
impl Gate {
    fn new() -> Arc<Gate> { Arc::new(Gate { st: Mutex::new((0, vec![], false)), cv: Condvar::new() }) }
    fn call(&self, t: usize) { self.st.lock().unwrap().1.push(t); self.cv.notify_all(); }
    fn all(&self) { self.st.lock().unwrap().2 = true; self.cv.notify_all(); }
    fn pass(&self) { let mut g = self.st.lock().unwrap(); let t = g.0; g.0 += 1; while !g.2 && !g.1.contains(&t) { g = self.cv.wait(g).unwrap(); } }
}
/// "/w" waits at the gate, "/" answers at once, "/big" has a body of `big` bytes.
fn routes(l: &Log, g: &Arc<Gate>, big: usize) -> Router {
    let r = Router::new();
    let (l2, g2) = (l.clone(), g.clone());
    r.add("/w", HttpMethod::GET, Box::new(move |_: &mut Request| { l2.lock().unwrap().push((1, vec![])); g2.pass(); Response::from_str("one").unwrap() }));
    r.add("/", HttpMethod::GET, noting(l, 0));
    let l2 = l.clone();
    r.add("/big", HttpMethod::GET, Box::new(move |_: &mut Request| { l2.lock().unwrap().push((2, vec![])); Response::from_str(&"x".repeat(big)).unwrap() }));
    r
}
const GET: &[u8] = b"GET / HTTP/1.1\r\n\r\n";
const WAIT: &[u8] = b"GET /w HTTP/1.1\r\n\r\n";
const BIG: &[u8] = b"GET /big HTTP/1.1\r\n\r\n";
fn served(c: &mut TcpStream) -> bool {
    let mut buf = vec![];
    if c.write_all(GET).is_err() { return false; }
    match read_one(c, &mut buf) { Some(g) => g.status == 200 && g.body == b"zero" && buf.is_empty(), None => false }
}

// ---- overload ---------------------------------------------------------------
/// P24: every worker held by a handler; then `steps` further connections (that ask first, later or never), each maybe
/// after one handler has been let go.
entry!(h_busy(cpus, steps) {
    os::ncpu(cpus as i32);
    let (l, g) = (log(), Gate::new());
    let mut s = server();
    s.run(ADDR, routes(&l, &g, 0)).unwrap();
    let mut held = vec![];
    // fill it up
    let mut refused = None;
    for _ in 0..130 {
        let mut c = connect();
        c.write_all(WAIT).unwrap();
        os::idle();
        if os::peer_closed(c.as_raw_fd()) != 0 { refused = Some(c); break; }
        held.push(c);
    }
    let full = held.len();
    check!(refused.is_some(), "P24.never-full");
    let mut handled = full;
    check!(l.lock().unwrap().len() == handled, "P24.refused-handled");
    let told = |c: &mut TcpStream, asks: bool| {
        let (v, _) = read_all(c);
        match responses(&v) { None => fail!("P24.complete-503"), Some(g) => check!(g.len() == 1 && g[0].status == 503, "P24.told-503") }
        let _ = asks;
    };
    told(&mut refused.unwrap(), true);
    let mut free = 0; let mut next = 0;
    for _ in 0..steps {
        if choose!(2, "one finishes") == 1 && !held.is_empty() {
            g.call(next); next += 1; os::idle();
            let n = held.len();
            // the one that was let go got its answer
            let mut found = None;
            for i in 0..n { if os::unread(held[i].as_raw_fd()) > 0 { check!(found.is_none(), "P24.one-answer"); found = Some(i); } }
            match found { None => fail!("P24.held-answered"), Some(i) => {
                let mut c = held.remove(i); let mut b = vec![];
                match read_one(&mut c, &mut b) { Some(g) => check!(g.status == 200 && g.body == b"one", "P24.held-answered"), None => fail!("P24.held-answered") }
                drop(c); os::idle();
                free += 1;
            } }
        }
        let mut c = connect();
        let asks = choose!(3, "asks");
        if asks == 0 { c.write_all(WAIT).unwrap(); }
        os::idle();
        if free > 0 {
            cover!("slot free");
            check!(os::peer_closed(c.as_raw_fd()) == 0, "P24.free-slot-used");
            if asks != 0 { c.write_all(WAIT).unwrap(); os::idle(); }
            handled += 1; free -= 1;
            check!(l.lock().unwrap().len() == handled, "P24.free-slot-used");
            held.push(c);
        } else {
            cover!("full");
            check!(os::peer_closed(c.as_raw_fd()) != 0, "P24.refused-closed");
            if asks == 1 { let _ = c.write_all(WAIT); }
            told(&mut c, asks < 2);
            os::idle();
            check!(l.lock().unwrap().len() == handled, "P24.refused-handled");
        }
    }
    // everything is let go: all are answered, and the server takes new ones
    g.all();
    for c in held.iter_mut() { let mut b = vec![]; match read_one(c, &mut b) { Some(g) => check!(g.status == 200 && g.body == b"one", "P24.held-answered"), None => fail!("P24.held-answered") } }
    drop(held);
    os::idle();
    let mut c = connect();
    check!(served(&mut c), "P24.serves-again");
});

// ---- shutdown ---------------------------------------------------------------
/// P25: `conns` connections of every kind (99: chosen), then the server is shut down by another thread.
/// 0 nothing sent; 1 idle after an answer; 2 part of a request sent; 3 its handler runs; 4 its answer is being written;
/// 5 nothing of the request seen yet; 6 asked to close, handler runs
entry!(h_shutdown(conns, kind, pre) {
    let (l, g) = (log(), Gate::new());
    let big = 3000;
    os::rcap(1024);
    let mut s = server();
    s.run(ADDR, routes(&l, &g, big)).unwrap();
    let mut cs: Vec<(TcpStream, usize)> = vec![];
    for _ in 0..conns {
        let k = if kind == 99 { choose!(7, "kind") } else { kind };
        let mut c = connect();
        match k {
            0 => {}
            1 => { check!(served(&mut c), "P25.before"); }
            2 => c.write_all(b"GET / HT").unwrap(),
            3 => c.write_all(WAIT).unwrap(),
            4 => c.write_all(BIG).unwrap(),
            5 => c.write_all(GET).unwrap(),
            _ => c.write_all(b"GET /w HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap(),
        }
        if k != 5 { os::idle(); }
        cs.push((c, k));
    }
    os::sched(pre as i32, 0);
    let t0 = os::now();
    let done = Arc::new(Mutex::new(false));
    let d2 = done.clone();
    let h = std::thread::spawn(move || { let r = s.shutdown().is_ok(); *d2.lock().unwrap() = true; r });
    os::idle();
    let waits = cs.iter().any(|c| matches!(c.1, 3 | 4 | 6));
    check!(waits || *done.lock().unwrap(), "P25.returns");
    check!(os::now() - t0 < 1_000_000_000, "P25.prompt");
    for (c, k) in cs.iter_mut() {
        if *k <= 2 {
            // nothing is being handled on these
            check!(os::peer_closed(c.as_raw_fd()) != 0, "P25.idle-closed");
            let (v, _) = read_all(c);
            check!(v.is_empty(), "P25.nothing-sent");
        }
    }
    let mut ticket = 0;
    for (c, k) in cs.iter_mut() {
        match *k {
            3 | 6 => {
                cover!("handler let go");
                check!(os::peer_closed(c.as_raw_fd()) == 0, "P25.handled-kept");
                check!(!*done.lock().unwrap(), "P25.waits-for-handler");
                g.call(ticket); ticket += 1;
                let (v, _) = read_all(c);
                match responses(&v) { Some(g) if g.len() == 1 => check!(g[0].status == 200 && g[0].body == b"one", "P25.complete-answer"), _ => fail!("P25.complete-answer") }
            }
            4 => {
                cover!("answer being written");
                let (v, _) = read_all(c);
                match responses(&v) { Some(g) if g.len() == 1 => check!(g[0].status == 200 && g[0].body.len() == big, "P25.complete-answer"), _ => fail!("P25.complete-answer") }
            }
            5 => {
                // served or not, never halfway
                let (v, _) = read_all(c);
                match responses(&v) { Some(g) if g.len() <= 1 => { if g.len() == 1 { cover!("still served"); check!(g[0].status == 200 && g[0].body == b"zero", "P25.complete-answer"); } else { cover!("not served"); } } _ => fail!("P25.complete-answer") }
            }
            _ => {}
        }
    }
    os::idle();
    check!(*done.lock().unwrap(), "P25.returns");
    check!(h.join().unwrap(), "P25.ok");
    check!(os::now() - t0 < 1_000_000_000, "P25.prompt");
    check!(os::live() == 0, "P25.threads-left");
    check!(os::open_accepted() == 0, "P25.connections-left");
    // nobody serves a new one
    match TcpStream::connect(ADDR) { Err(_) => {} Ok(mut c) => { c.write_all(GET).unwrap(); os::idle(); check!(os::unread(c.as_raw_fd()) == 0, "P25.no-new"); } }
});

// ---- faults -----------------------------------------------------------------
fn errno(n: i32) -> i32 { n }
/// P26: accepting fails `n` times with any error a running system may give; then, and in between, connections are served.
entry!(h_accept(n, list, intr, pre) {
    let (l, g) = (log(), Gate::new());
    let mut s = server();
    s.run(ADDR, routes(&l, &g, 0)).unwrap();
    os::idle();
    os::epoll_intr(intr as i32);
    os::sched(pre as i32, 0);
    let e = if list == 0 { errno([103, 4, 11, 24, 23, 12, 1, 105, 71, 100][choose!(10, "error")]) } else {
        let b = byte!("errno"); assume_(b > 0); assume_(b <= 133); b as i32
    };
    let before = choose!(2, "served before") == 1;
    if before { let mut c = connect(); check!(served(&mut c), "P26.served"); drop(c); os::idle(); }
    os::accept_fault(n as i32, e);
    let mut a = connect();
    os::idle();
    let k = choose!(3, "more at once");
    let mut more: Vec<TcpStream> = (0..k).map(|_| connect()).collect();
    std::thread::sleep(Duration::from_secs(1));
    os::accept_fault(0, 0);
    // the server still takes connections
    let mut c = connect();
    check!(served(&mut c), "P26.later-served");
    cover!("served after");
    // the ones that waited are served as well, unless the system dropped them
    for c in more.iter_mut().chain([&mut a]) { if os::peer_closed(c.as_raw_fd()) == 0 { check!(served(c), "P26.waiting-served"); cover!("waited"); } }
});
/// P26: descriptors run out when `left` are free, for a while.
entry!(h_fds(left, k) {
    let (l, g) = (log(), Gate::new());
    let mut s = server();
    s.run(ADDR, routes(&l, &g, 0)).unwrap();
    os::idle();
    let mut cs: Vec<TcpStream> = (0..k).map(|_| connect()).collect();
    // connections wait in the backlog while the descriptors are gone
    os::fd_limit(3 + os::open_fds() + left as i32);
    os::idle();
    std::thread::sleep(Duration::from_secs(1));
    os::fd_limit(900);
    let mut c = connect();
    check!(served(&mut c), "P26.later-served");
    for c in cs.iter_mut() { if os::peer_closed(c.as_raw_fd()) == 0 { check!(served(c), "P26.waiting-served"); cover!("waited"); } else { cover!("dropped"); } }
});

// ---- slow peers -------------------------------------------------------------
/// P17: a request that arrives in `steps` pieces with pauses; it is served exactly when it is complete within the limit.
entry!(h_slow(steps, before) {
    let (l, g) = (log(), Gate::new());
    let mut s = server(); // 5 s to read
    s.run(ADDR, routes(&l, &g, 0)).unwrap();
    let mut c = connect();
    for _ in 0..before { check!(served(&mut c), "P17.before"); }
    os::idle();
    let t0 = os::now();
    let n = GET.len();
    let mut sent = 0; let mut total = 0u64;
    for k in 0..steps {
        // pauses in tenths of a second, around the limit
        let pause = [301u64, 1100, 2300, 2900, 4600, 5200][choose!(6, "pause")];
        total += pause;
        if total > 5000 { break; }
        std::thread::sleep(Duration::from_millis(pause));
        let to = if k + 1 == steps { n } else { sent + (n - sent) / 2 };
        c.write_all(&GET[sent..to]).unwrap();
        sent = to;
        os::idle();
    }
    if total <= 5000 {
        cover!("in time");
        let mut buf = vec![];
        match read_one(&mut c, &mut buf) { Some(g) => check!(g.status == 200 && g.body == b"zero", "P17.not-cut-short"), None => fail!("P17.not-cut-short") }
        check!(l.lock().unwrap().len() == before + 1, "P17.handled");
    } else {
        cover!("too slow");
        let (v, _) = read_all(&mut c);
        check!(os::now() - t0 <= 5_100_000_000, "P17.closed-at-limit");
        check!(l.lock().unwrap().len() == before, "P17.not-handled");
        match responses(&v) { Some(g) => check!(g.iter().all(|g| g.status >= 400), "P17.no-success"), None => fail!("P17.no-success") }
    }
});
/// P17: the peer takes the answer in `steps` sips with pauses; the write is given up exactly when it takes too long.
entry!(h_sip(steps, close) {
    let (l, g) = (log(), Gate::new());
    os::rcap(1000);
    let big = 3900;
    let mut s = server(); // 7 s to write
    s.run(ADDR, routes(&l, &g, big)).unwrap();
    let mut c = connect();
    c.write_all(BIG).unwrap();
    os::idle();
    let t0 = os::now();
    let mut got = vec![]; let mut total = 0u64;
    for _ in 0..steps {
        let pause = [1u64, 20, 33, 36, 69, 71][choose!(6, "pause")];
        std::thread::sleep(Duration::from_millis(pause * 100));
        total += pause * 100;
        if total > 7000 { break; }
        let mut b = [0u8; 1000];
        let n = c.read(&mut b).unwrap_or(0);
        got.extend_from_slice(&b[..n]);
        os::idle();
    }
    let _ = close;
    let at = os::now();
    if total > 7000 && steps <= 3 {
        cover!("too slow");
        check!(os::peer_closed(c.as_raw_fd()) != 0, "P17.write-given-up");
        let _ = at - t0;
    } else if total < 7000 {
        cover!("in time");
        // the rest fits now
        let mut buf = got;
        let mut b = [0u8; 4000];
        loop { if response(&buf).is_some() { break; } match c.read(&mut b) { Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]), _ => fail!("P17.not-cut-short") } }
        match response(&buf) { Some((g, _)) => check!(g.status == 200 && g.body.len() == big, "P17.not-cut-short"), None => fail!("P17.not-cut-short") }
    }
});

// ---- a server's life --------------------------------------------------------
/// P34: `steps` steps of: starting the server at a free address, one that is taken, one that is none (each with the
/// descriptors it needs, or with up to `left`), letting the taken address go, asking the server; then it is stopped,
/// or waited for, and started once more in its place.
entry!(h_life(steps, left) {
    let (l, g) = (log(), Gate::new());
    let mut other = Some(std::net::TcpListener::bind("127.0.0.1:81").unwrap());
    let mut s = Server::new();
    let mut at: Option<u16> = None;
    for _ in 0..steps {
        os::idle();
        match choose!(5, "step") {
            k @ 0..=2 => {
                let (addr, port, can) = match k { 0 => ("127.0.0.1:80", 80, true), 1 => ("127.0.0.1:81", 81, other.is_none()), _ => ("127.0.0.1", 0, false) };
                let few = choose!(left as u32 + 2, "descriptors left") as i32 - 1;
                let (fds, live) = (os::open_fds(), os::live());
                if few >= 0 { os::fd_limit(3 + fds + few); }
                let r = s.run(addr, routes(&l, &g, 0));
                os::fd_limit(900);
                match r {
                    Ok(()) => { check!(at.is_none(), "P34.started-twice"); check!(can, "P34.started-nowhere"); at = Some(port); cover!("started"); if few >= 0 { cover!("started with few descriptors"); } }
                    Err(_) => {
                        check!(at.is_some() || !can || few >= 0, "P34.not-started");
                        // polling leaves its epoll descriptor open when it gets no event descriptor
                        check!((few >= 0 || os::open_fds() == fds) && os::live() == live, "P34.left-behind");
                        if at.is_some() { cover!("started already"); } else if few >= 0 { cover!("too few descriptors"); } else { cover!("refused"); }
                    }
                }
                check!((os::listening(80) != 0) == (at == Some(80)), "P34.listens");
                check!((os::listening(81) != 0) == (at == Some(81) || other.is_some()), "P34.listens");
            }
            3 => { other = None; os::idle(); check!((os::listening(81) != 0) == (at == Some(81)), "P34.listens"); }
            _ => if let Some(p) = at {
                let mut c = TcpStream::connect(("127.0.0.1", p)).unwrap();
                check!(served(&mut c), "P34.serves"); cover!("served");
            } else {
                check!(TcpStream::connect("127.0.0.1:80").is_err(), "P34.listens");
            }
        }
    }
    if at.is_none() {
        let r = if choose!(2, "waits") == 1 { s.wait() } else { s.shutdown() };
        check!(r.is_err(), "P34.never-started"); cover!("never started");
        return;
    }
    // waiting does not end while the server runs
    if choose!(2, "waits") == 1 {
        let done = Arc::new(Mutex::new(false));
        let d = done.clone();
        std::thread::spawn(move || { let _ = s.wait(); *d.lock().unwrap() = true; });
        for _ in 0..2 {
            let mut c = TcpStream::connect(("127.0.0.1", at.unwrap())).unwrap();
            check!(served(&mut c), "P34.serves");
            std::thread::sleep(secs(100)); os::idle();
            check!(!*done.lock().unwrap(), "P34.wait-ended");
        }
        cover!("waited");
        return;
    }
    check!(s.shutdown().is_ok(), "P34.stopped"); cover!("stopped");
    check!(os::listening(at.unwrap()) == 0, "P34.still-listens");
    let mut s = Server::new();
    check!(s.run(&format!("127.0.0.1:{}", at.unwrap()), routes(&l, &g, 0)).is_ok(), "P34.address-free");
    let mut c = TcpStream::connect(("127.0.0.1", at.unwrap())).unwrap();
    check!(served(&mut c), "P34.serves-again");
});
/// A server started and stopped at once, `n` times in the same place, with and without a client on its way.
entry!(h_life_race(n, pre) {
    let (l, g) = (log(), Gate::new());
    os::sched(pre as i32, 0);
    for _ in 0..n {
        let mut s = Server::new();
        check!(s.run(ADDR, routes(&l, &g, 0)).is_ok(), "P34.address-free");
        check!(os::listening(80) != 0, "P34.listens");
        let c = if choose!(2, "client") == 1 { Some(connect()) } else { None };
        check!(s.shutdown().is_ok(), "P34.stopped");
        check!(os::listening(80) == 0, "P34.still-listens");
        drop(c);
    }
    cover!("stopped");
});
