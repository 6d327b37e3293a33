//! P13, P14, P21-P26, P30: the whole server over the operating system model.
use crate::msg::{is_token, ref_headers, METHODS, METHOD_VALUES};
use crate::sym::*;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wruster::http::*;
use wruster::router::*;
use wruster::{Server, Timeouts};

pub const ADDR: &str = "127.0.0.1:80";
pub fn secs(n: u64) -> Duration { Duration::from_secs(n) }
pub fn server() -> Server { Server::from_timeouts(Timeouts { read_request_timeout: secs(5), write_response_timeout: secs(7) }) }
pub fn connect() -> TcpStream { match TcpStream::connect(ADDR) { Ok(c) => c, Err(_) => if os::listening(80) == 0 { fail!("no longer listens") } else { fail!("engine: the model refuses the connection") } } }
/// What the handlers saw: which one ran, the target it was given.
pub type Log = Arc<Mutex<Vec<(usize, Vec<u8>)>>>;
pub fn log() -> Log { Arc::new(Mutex::new(vec![])) }
/// A handler that notes that it ran and answers with its number.
pub fn noting(l: &Log, k: usize) -> HttpHandler {
    let l = l.clone();
    Box::new(move |r: &mut Request| { l.lock().unwrap().push((k, r.uri.clone().into_bytes())); Response::from_str(["zero", "one", "two", "three", "four", "five", "six", "seven"][k]).unwrap() })
}
pub const BODIES: [&[u8]; 8] = [b"zero", b"one", b"two", b"three", b"four", b"five", b"six", b"seven"];
/// A response as the client reads it off the wire, by the message grammar alone.
pub struct Got { pub status: usize, pub headers: Vec<(Vec<u8>, Vec<u8>)>, pub body: Vec<u8>, pub length: Option<usize> }
/// Reads one response at the start of `d`; the number of bytes it takes.
pub fn response(d: &[u8]) -> Option<(Got, usize)> {
    let e = d.windows(2).position(|w| w == b"\r\n")?;
    let l = &d[..e];
    if l.len() < 13 || &l[..9] != b"HTTP/1.1 " || l[12] != b' ' { return None; }
    let mut status = 0usize;
    for c in &l[9..12] { if !c.is_ascii_digit() { return None; } status = status * 10 + (c - b'0') as usize; }
    let (headers, n) = ref_headers(&d[e + 2..])?;
    let mut length = None;
    for (k, v) in headers.iter() { if k.eq_ignore_ascii_case(b"content-length") { let mut x = 0usize; if v.is_empty() || length.is_some() { return None; } for c in v { if !c.is_ascii_digit() { return None; } x = x * 10 + (c - b'0') as usize; } length = Some(x); } }
    let at = e + 2 + n; let len = length.unwrap_or(0);
    if at + len > d.len() { return None; }
    Some((Got { status, headers, body: d[at..at + len].to_vec(), length }, at + len))
}
/// All the responses in `d`, which must consist of complete ones.
pub fn responses(mut d: &[u8]) -> Option<Vec<Got>> {
    let mut out = vec![];
    while !d.is_empty() { let (g, n) = response(d)?; out.push(g); d = &d[n..]; }
    Some(out)
}
/// Reads until the peer closes; None when the connection ends with an error.
pub fn read_all(c: &mut TcpStream) -> (Vec<u8>, bool) { let mut v = vec![]; let ok = c.read_to_end(&mut v).is_ok(); (v, ok) }

/// P19: requests on `conns` connections, some of whose handlers panic (also after reading part of the body); every
/// later request is served, on an untouched connection as well, and all workers stay usable.
entry!(h_panics(conns, pre) {
    let r = Router::new();
    let l = log();
    r.add("/a", HttpMethod::POST, noting(&l, 0));
    r.add("/p", HttpMethod::POST, Box::new(|q: &mut Request| {
        if choose!(2, "reads first") == 1 { let mut b = [0u8; 1]; let _ = q.body.as_mut().unwrap().content.read(&mut b); }
        panic!("handler");
    }));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut untouched = connect();
    os::idle();
    os::sched(pre as i32, 0);
    for _ in 0..conns {
        let panics = choose!(2, "panics") == 1;
        let mut c = connect(); let mut buf = vec![];
        let d: &[u8] = if panics { b"POST /p HTTP/1.1\r\nContent-Length: 2\r\n\r\nab" } else { b"POST /a HTTP/1.1\r\nContent-Length: 2\r\n\r\nab" };
        c.write_all(d).unwrap();
        if panics {
            cover!("panicked");
            let t0 = os::now();
            let (v, _) = read_all(&mut c);
            // whatever the peer is told, it is complete, no success, and the connection is not left hanging
            match responses(&v) { None => fail!("P19.whole-answer"), Some(g) => check!(g.len() <= 1 && g.iter().all(|g| g.status >= 500), "P19.no-success") }
            check!(os::now() - t0 < 1_000_000_000, "P19.not-left-hanging");
        } else {
            match read_one(&mut c, &mut buf) { Some(g) => check!(g.status == 200 && g.body == b"zero", "P19.others-served"), None => fail!("P19.others-served") }
        }
    }
    let mut buf = vec![];
    untouched.write_all(b"POST /a HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
    match read_one(&mut untouched, &mut buf) { Some(g) => check!(g.status == 200 && g.body == b"zero", "P19.others-served"), None => fail!("P19.others-served") }
    drop(untouched);
    s.shutdown().unwrap();
    check!(os::live() == 0, "P19.server-ends");
});
entry!(h_probe(a) {
    let r = Router::new();
    r.add("/", HttpMethod::GET, Box::new(|_| Response::from_str("ok").unwrap()));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut c = connect();
    c.write_all(b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
    let (v, _) = read_all(&mut c);
    check!(v.starts_with(b"HTTP/1.1 200"), "ok");
    s.shutdown().unwrap();
    let _ = a;
});

// ---- routing ------------------------------------------------------------
/// Reference normalisation: the segments of an absolute target, none when it is not absolute or climbs too far.
fn ref_segments(t: &[u8]) -> Option<Vec<Vec<u8>>> {
    if t.is_empty() || t[0] != b'/' { return None; }
    let mut out: Vec<Vec<u8>> = vec![];
    for s in t[1..].split(|c| *c == b'/') {
        if s.is_empty() || s == b"." { continue; }
        if s == b".." { if out.pop().is_none() { return None; } continue; }
        out.push(s.to_vec());
    }
    Some(out)
}
fn segs(t: &[u8]) -> Vec<Vec<u8>> { t.split(|c| *c == b'/').filter(|s| !s.is_empty()).map(|s| s.to_vec()).collect() }
/// route sets: path, method
type Set = &'static [(&'static str, usize)];
const SETS: [Set; 9] = [
    &[("/", 0), ("/a", 0), ("/a/b", 0)],
    &[("/a", 0), ("/ab", 0), ("/a/bc", 0), ("/b", 0)],
    &[("/", 0), ("/a/b", 2), ("/a", 0), ("/a/b/c", 0)],
    &[("/a/b/c", 0), ("/a", 2), ("/a/b", 2)],
    &[("/a/", 0), ("/", 0), ("/b/c/", 0)],
    &[("/a", 0), ("/a", 2), ("/a/b", 8), ("/", 3)],
    &[("/a", 0), ("/b", 0), ("/a", 0)],
    &[("/a/b/c/d", 0), ("/a/b", 0)],
    &[("/\u{e9}", 0), ("/a", 0), ("/\u{e9}/\u{df}b", 0), ("/", 0)],
];
/// before and after the free bytes of the target; from 9 on the first of them completes a character of two bytes
const TGT: [(&[u8], &[u8]); 12] = [(b"/", b""), (b"/a/", b""), (b"/a", b""), (b"/a/b", b""), (b"", b""), (b"/", b"/b"), (b"/a/b/", b"/.."), (b"/a", b"b/c"), (b"/b/c/", b"/a/b"),
    (b"/\xc3", b""), (b"/\xc3\xa9/\xc3", b""), (b"/\xc3", b"/\xc3\x9fb")];
/// P13 and P14: set of routes, template of the target, free bytes in it, method asked for (9: any), order of registration.
entry!(h_route(set, tpl, n, method, order) {
    let set = SETS[set];
    let l = log();
    let r = Router::new();
    let mut idx: Vec<usize> = (0..set.len()).collect();
    match order { 0 => {} 1 => idx.reverse(), _ => { for i in 0..idx.len() { let j = i + choose!(idx.len() - i, "order"); idx.swap(i, j); } } }
    for i in idx.iter() { r.add(set[*i].0, METHOD_VALUES[set[*i].1], noting(&l, *i)); }
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let m = if method == 9 { choose!(9, "method") } else { method };
    let mut target = TGT[tpl].0.to_vec();
    let free = bytes!(n, "in");
    for (k, c) in free.iter().enumerate() { if tpl > 8 && k == 0 { assume_(*c & 0xc0 == 0x80); } else { assume_(*c > 0x20 && *c < 0x7f); } }
    target.extend(free); target.extend_from_slice(TGT[tpl].1);
    if target.is_empty() { assume_(false); }
    let mut d = METHODS[m].as_bytes().to_vec(); d.push(b' '); d.extend_from_slice(&target); d.extend_from_slice(b" HTTP/1.1\r\nConnection: close\r\n\r\n");
    let mut c = connect();
    c.write_all(&d).unwrap();
    let (v, _) = read_all(&mut c);
    let ran = l.lock().unwrap().clone();
    let got = match responses(&v) { Some(g) if g.len() == 1 => g, _ => fail!("P13.one-response") };
    match ref_segments(&target) {
        None => {
            cover!("refused target");
            check!(ran.is_empty(), "P14.handler-saw-bad-target");
            check!(got[0].status >= 400, "P14.bad-target-refused");
        }
        Some(path) => {
            let mut norm = vec![]; for p in path.iter() { norm.push(b'/'); norm.extend_from_slice(p); } if norm.is_empty() { norm.push(b'/'); }
            // the path proper ends at a question mark
            let q = norm.iter().position(|c| *c == b'?').unwrap_or(norm.len());
            let want = segs(&norm[..q]);
            // the registered path with the most segments that leads to it; of equal ones the one registered last
            let mut best: Option<(usize, usize)> = None;
            for i in idx.iter() {
                let s = segs(set[*i].0.as_bytes());
                if set[*i].1 != m || s.len() > want.len() { continue; }
                let mut eq = true; for k in 0..s.len() { eq &= same(&s[k], &want[k]); }
                if eq && best.map_or(true, |b| s.len() >= b.1) { best = Some((*i, s.len())); }
            }
            match best {
                None => { cover!("not found"); check!(ran.is_empty(), "P13.no-handler"); check!(got[0].status == 404, "P13.not-found"); }
                Some((i, _)) => {
                    cover!("handled");
                    check!(ran.len() == 1, "P13.handled-once");
                    check!(ran[0].0 == i, "P13.closest-route");
                    check!(got[0].status == 200 && got[0].body == BODIES[i], "P13.its-answer");
                    check!(same(&ran[0].1, &norm), "P14.normalised-target");
                }
            }
        }
    }
});

/// P13: `conns` requests on as many connections routed at the same time, each to a path of its own choice.
entry!(h_route_race(conns, pre) {
    let l = log();
    let r = Router::new();
    r.add("/", METHOD_VALUES[0], noting(&l, 0));
    r.add("/a", METHOD_VALUES[0], noting(&l, 1));
    r.add("/a/b", METHOD_VALUES[0], noting(&l, 2));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    os::idle();
    os::sched(pre as i32, 0);
    let mut all = vec![];
    for _ in 0..conns {
        let k = choose!(4, "path");
        let mut c = connect();
        c.write_all([&b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n"[..], b"GET /a/c HTTP/1.1\r\nConnection: close\r\n\r\n", b"GET /a/b/d HTTP/1.1\r\nConnection: close\r\n\r\n", b"PUT /a HTTP/1.1\r\nConnection: close\r\n\r\n"][k]).unwrap();
        all.push((k, c));
    }
    for (k, c) in all.iter_mut() {
        let (v, _) = read_all(c);
        let got = match responses(&v) { Some(g) if g.len() == 1 => g, _ => fail!("P13.one-response") };
        if *k == 3 { check!(got[0].status == 404, "P13.not-found"); } else { check!(got[0].status == 200 && got[0].body == BODIES[*k], "P13.its-answer"); }
    }
    let ran = l.lock().unwrap();
    for k in 0..3 { check!(ran.iter().filter(|x| x.0 == k).count() == all.iter().filter(|x| x.0 == k).count(), "P13.handled-once"); }
    cover!("routed together");
});

/// Reads exactly one response; false when the connection ends first.
pub fn read_one(c: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Got> {
    loop {
        if let Some((g, n)) = response(buf) { buf.drain(..n); return Some(g); }
        let mut b = [0u8; 256];
        match c.read(&mut b) { Ok(0) | Err(_) => return None, Ok(n) => buf.extend_from_slice(&b[..n]) }
    }
}
pub fn lower(v: &[u8]) -> Vec<u8> { v.iter().map(|c| c | if c.is_ascii_uppercase() { 32 } else { 0 }).collect() }
/// Whether a Connection value lists the option (lower case), by the list grammar.
pub fn lists(value: &[u8], option: &[u8]) -> bool {
    let mut found = false;
    for p in value.split(|c| *c == b',') {
        let (mut a, mut b) = (0, p.len());
        while a < b && (p[a] == b' ' || p[a] == b'\t') { a += 1; }
        while b > a && (p[b - 1] == b' ' || p[b - 1] == b'\t') { b -= 1; }
        found |= same(&lower(&p[a..b]), option);
    }
    found
}
pub const VERSIONS: [&str; 3] = ["HTTP/1.1", "HTTP/1.0", "HTTP/2"];
/// Connection header fields with a free part: lines before, value before and after the free bytes
const CONN: [(&str, &str, &str, &str); 10] = [
    ("", "", "", ""),
    ("", "clos", "", ""),
    ("", "", "lose", ""),
    ("", "keep-aliv", "", ""),
    ("", "x", "close", ""),
    ("", "close", "keep-alive", ""),
    ("", "keep-alive", "x", ""),
    ("Connection: keep-alive\r\n", "", "", ""),
    ("Connection: x\r\n", "clos", "", "Connection: keep-alive\r\n"),
    ("", "", ",Close", "connection: upgrade\r\n"),
];
fn value_bytes(n: usize) -> Vec<u8> { let b = bytes!(n, "in"); for c in b.iter() { assume_((*c >= 0x20 && *c < 0x7f) | (*c == b'\t')); } b }
/// The Connection lines of template `t` (99: no such header) and whether they list close and keep-alive.
pub fn connection(t: usize, n: usize) -> (Vec<u8>, bool, bool) {
    if t == 99 { return (vec![], false, false); }
    let (before, a, z, after) = CONN[t];
    let mut v = a.as_bytes().to_vec(); v.extend(value_bytes(n)); v.extend_from_slice(z.as_bytes());
    let mut d = before.as_bytes().to_vec(); d.extend_from_slice(b"Connection: "); d.extend_from_slice(&v); d.extend_from_slice(b"\r\n"); d.extend_from_slice(after.as_bytes());
    let (mut close, mut keep) = (lists(&v, b"close"), lists(&v, b"keep-alive"));
    for l in [before, after] { if let Some(x) = l.split(": ").nth(1) { let x = x.trim(); close |= lists(x.as_bytes(), b"close"); keep |= lists(x.as_bytes(), b"keep-alive"); } }
    (d, close, keep)
}
/// P22: version, template of the Connection header, free bytes in it, body (0 no, 1 read by the handler, 2 left unread).
entry!(h_persist(ver, tpl, n, body) {
    let l = log();
    let r = Router::new();
    let l2 = l.clone();
    r.add("/a", HttpMethod::POST, Box::new(move |q: &mut Request| {
        l2.lock().unwrap().push((0, vec![]));
        if body == 1 { let mut v = vec![]; let _ = q.body.as_mut().unwrap().content.read_to_end(&mut v); check!(v == b"xyz", "P22.body"); }
        Response::from_str("zero").unwrap()
    }));
    r.add("/b", HttpMethod::GET, noting(&l, 1));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let (head, close, keep) = connection(tpl, n);
    let mut d = b"POST /a ".to_vec(); d.extend_from_slice(VERSIONS[ver].as_bytes()); d.extend_from_slice(b"\r\n"); d.extend_from_slice(&head);
    d.extend_from_slice(if body > 0 { b"Content-Length: 3\r\n\r\nxyz" } else { b"\r\n" });
    let mut c = connect(); let mut buf = vec![];
    c.write_all(&d).unwrap();
    match read_one(&mut c, &mut buf) { None => fail!("P22.first-answer"), Some(g) => check!(g.status == 200 && g.body == b"zero", "P22.first-answer") }
    os::idle();
    let closed = os::peer_closed(c.as_raw_fd()) != 0;
    let stay = !close && (VERSIONS[ver] != "HTTP/1.0" || keep);
    if stay { cover!("stays open"); check!(!closed, "P22.kept-open"); } else { cover!("closed"); check!(closed, "P22.closed"); }
    if !closed {
        c.write_all(b"GET /b HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
        match read_one(&mut c, &mut buf) { None => fail!("P22.second-answer"), Some(g) => check!(g.status == 200 && g.body == b"one", "P22.second-answer") }
        os::idle();
        check!(os::peer_closed(c.as_raw_fd()) != 0, "P22.closed-at-last");
    }
    let (rest, ok) = read_all(&mut c);
    check!(rest.is_empty() && buf.is_empty() && ok, "P22.nothing-more");
    let ran = l.lock().unwrap();
    check!(ran.len() == if closed { 1 } else { 2 }, "P22.handled");
});
/// P22: what the library says of a request it read agrees.
entry!(h_persist_fn(ver, tpl, n) {
    let (head, close, keep) = connection(tpl, n);
    let mut d = b"GET /a ".to_vec(); d.extend_from_slice(VERSIONS[ver].as_bytes()); d.extend_from_slice(b"\r\n"); d.extend_from_slice(&head); d.extend_from_slice(b"\r\n");
    match Request::read_from(std::io::Cursor::new(d)) {
        Err(_) => fail!("P22.accepted"),
        Ok(r) => { let stay = !close && (VERSIONS[ver] != "HTTP/1.0" || keep); if stay { cover!("stays open"); } else { cover!("closed"); } check!(r.is_connection_persistent() == stay, "P22.persistent"); }
    }
});
/// P21: an answer that cannot be completed: its body ends early, fails or (how 2) is refused by its source after `got`
/// bytes of the announced ones.  Whatever of it the peer got, the connection ends and nothing follows.
entry!(h_cut_answer(how, asked) {
    struct Src { data: Vec<u8>, at: usize, fail: bool }
    impl Read for Src { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = std::cmp::min(b.len(), self.data.len() - self.at);
        if n == 0 && self.fail { return Err(std::io::Error::from(std::io::ErrorKind::Other)); }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]); self.at += n; Ok(n)
    } }
    let l = log();
    let r = Router::new();
    let have = choose!(4, "bytes there");
    let l2 = l.clone();
    r.add("/t", HttpMethod::GET, Box::new(move |_: &mut Request| {
        l2.lock().unwrap().push((0, vec![]));
        let mut q = Response::from_status(StatusCode::OK);
        q.body = Some(Body::new(if how == 2 { Some(mime::TEXT_PLAIN) } else { None }, 4, Box::new(Src { data: b"HTTP"[..have].to_vec(), at: 0, fail: how == 1 })));
        q
    }));
    r.add("/b", HttpMethod::GET, noting(&l, 1));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut c = connect();
    let m: &[u8] = if asked == 0 { b"GET /t HTTP/1.1\r\n\r\n" } else { b"GET /t HTTP/1.0\r\nConnection: keep-alive\r\n\r\n" };
    c.write_all(m).unwrap();
    os::idle();
    check!(os::peer_closed(c.as_raw_fd()) != 0, "P21.part-ends-connection");
    let _ = c.write_all(b"GET /b HTTP/1.1\r\nConnection: close\r\n\r\n");
    let (v, _) = read_all(&mut c);
    // nothing, or an honest failure, or the beginning of that answer
    match response(&v) {
        Some((g, n)) => { check!(g.status >= 500 && n == v.len(), "P21.nothing-follows-part"); cover!("refused"); }
        None => { if let Some(i) = v.windows(4).position(|w| w == b"\r\n\r\n") { check!(same(&v[i + 4..], &b"HTTP"[..std::cmp::min(v.len() - i - 4, have)]), "P21.nothing-follows-part"); } cover!("in part"); }
    }
    check!(l.lock().unwrap().iter().all(|x| x.0 == 0), "P21.nothing-follows-part");
});
/// P21: `count` requests one after the other on a connection, each with a body of free length that its handler reads
/// not at all, in part or fully; `short` transfers of the model may be cut short; pipe 1: all sent at once.
entry!(h_serial(count, short, pipe, cap) {
    if cap > 0 { os::rcap(cap as i32); }
    let l = log();
    let r = Router::new();
    for k in 0..4 {
        let l2 = l.clone();
        r.add(["/a", "/b", "/c", "/d"][k], HttpMethod::POST, Box::new(move |q: &mut Request| {
            let mut got = vec![];
            if let Some(b) = q.body.as_mut() {
                match choose!(3, "handler reads") {
                    0 => {}
                    1 => { let mut x = [0u8; 1]; if let Ok(1) = b.content.read(&mut x) { got.push(x[0]); } }
                    _ => { let _ = b.content.read_to_end(&mut got); }
                }
            }
            l2.lock().unwrap().push((k, got));
            Response::from_str(["zero", "one", "two", "three"][k]).unwrap()
        }));
    }
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut c = connect(); let mut buf = vec![];
    let lens: Vec<usize> = (0..count).map(|_| choose!(3, "body length")).collect();
    let mut bodies = vec![];
    let mut msgs = vec![];
    for k in 0..count {
        let b = bytes!(lens[k], "body");
        let mut d = b"POST ".to_vec(); d.extend_from_slice(["/a", "/b", "/c", "/d"][k].as_bytes()); d.extend_from_slice(b" HTTP/1.1\r\n");
        if k + 1 == count { d.extend_from_slice(b"Connection: close\r\n"); }
        if lens[k] > 0 || choose!(2, "length given") == 1 { d.extend_from_slice(b"Content-Length: "); d.push(b'0' + lens[k] as u8); d.extend_from_slice(b"\r\n"); }
        d.extend_from_slice(b"\r\n"); d.extend_from_slice(&b);
        bodies.push(b); msgs.push(d);
    }
    os::short_io(short as i32);
    if pipe == 1 { let all: Vec<u8> = msgs.iter().flatten().cloned().collect(); c.write_all(&all).unwrap(); }
    for k in 0..count {
        if pipe == 0 { c.write_all(&msgs[k]).unwrap(); }
        match read_one(&mut c, &mut buf) {
            None => { if pipe == 1 { fail!("P21.pipelined"); } fail!("P21.answered"); }
            Some(g) => { check!(g.status == 200 && g.body == BODIES[k], "P21.its-own-answer"); }
        }
        let ran = l.lock().unwrap();
        check!(ran.len() >= k + 1 && ran[k].0 == k, "P21.in-order");
        check!(ran[k].1.len() <= lens[k] && same(&ran[k].1, &bodies[k][..ran[k].1.len()]), "P21.its-own-body");
        if pipe == 0 { check!(ran.len() == k + 1, "P21.one-handler-each"); }
    }
    let (rest, ok) = read_all(&mut c);
    check!(rest.is_empty() && buf.is_empty() && ok, "P21.closed-after-last");
    check!(l.lock().unwrap().len() == count, "P21.handled-once");
    cover!("served");
});

/// P21: a handler may also take the body out of the request: to drop it unread or read in part, or to send it back; the
/// body comes with the head or (late) after a pause.  Then a second request.
entry!(h_take(late, short, second) {
    let l = log();
    let r = Router::new();
    let l2 = l.clone();
    let all = Arc::new(Mutex::new(false));
    let a2 = all.clone();
    r.add("/t", HttpMethod::POST, Box::new(move |q: &mut Request| {
        let mut got = vec![];
        let Some(mut b) = q.body.take() else { fail!("P21.body-there") };
        let how = choose!(5, "handler");
        let mut whole = true;
        let rsp = match how {
            0 => { drop(b); whole = false; Response::from_str("one").unwrap() }
            1 => { let mut x = [0u8; 1]; if let Ok(1) = b.content.read(&mut x) { got.push(x[0]); } whole = false; Response::from_str("one").unwrap() }
            2 => { let _ = b.content.read_to_end(&mut got); Response::from_str("one").unwrap() }
            3 => { let mut r = Response::from_status(StatusCode::OK); r.body = Some(b); r }
            _ => { let mut x = [0u8; 1]; if let Ok(1) = b.content.read(&mut x) { got.push(x[0]); } q.body = Some(b); Response::from_str("one").unwrap() }
        };
        *a2.lock().unwrap() = whole;
        l2.lock().unwrap().push((how, got));
        rsp
    }));
    r.add("/b", HttpMethod::POST, noting(&l, 7));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut c = connect(); let mut buf = vec![];
    let body = bytes!(3, "body");
    os::short_io(short as i32);
    c.write_all(b"POST /t HTTP/1.1\r\nContent-Length: 3\r\n\r\n").unwrap();
    if late == 1 { let n = choose!(3, "sent at first"); if n > 0 { c.write_all(&body[..n]).unwrap(); } std::thread::sleep(secs(1)); let _ = c.write_all(&body[n..]); cover!("late"); } else { c.write_all(&body).unwrap(); }
    match read_one(&mut c, &mut buf) {
        None => fail!("P21.answered"),
        Some(g) => { check!(g.status == 200 && (g.body == b"one" || same(&g.body, &body)), "P21.its-own-answer"); }
    }
    os::idle();
    let gone = os::peer_closed(c.as_raw_fd()) != 0;
    let whole = *all.lock().unwrap();
    if whole { cover!("read whole"); check!(!gone, "P22.stays-open"); } else { cover!("left unread"); }
    if !gone && second > 0 {
        c.write_all(b"POST /b HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
        match read_one(&mut c, &mut buf) { None => fail!("P21.answered"), Some(g) => check!(g.status == 200 && g.body == BODIES[7], "P21.its-own-answer") }
    }
    if gone || second > 0 {
        let (rest, _) = read_all(&mut c);
        check!(rest.is_empty() && buf.is_empty(), "P21.nothing-made-up");
    }
    check!(l.lock().unwrap().len() == if gone || second == 0 { 1 } else { 2 }, "P21.handled-once");
});

/// P21: a body of more than the buffers on the way hold, of text that reads as requests; its handler reads part of it,
/// all of it, drops it or sends it back.  Then a second request.
entry!(h_bulk(len, hows) {
    const TEXT: &[u8] = b"POST /b HTTP/1.1\r\n\r\n";
    let data: Vec<u8> = TEXT.iter().cycle().take(len).copied().collect();
    let l = log();
    let r = Router::new();
    let (l2, want) = (l.clone(), data.clone());
    let whole = Arc::new(Mutex::new(false));
    let w2 = whole.clone();
    r.add("/t", HttpMethod::POST, Box::new(move |q: &mut Request| {
        let how = choose!(hows, "handler");
        let first = |b: &mut Body| { let mut x = vec![0u8; [1, 8192, 9000][choose!(3, "reads")]]; match b.content.read(&mut x) { Ok(n) => check!(n > 0 && same(&x[..n], &want[..n]), "P21.its-own-body"), Err(_) => fail!("P21.its-own-body") } };
        let one = || Response::from_str("one").unwrap();
        let rsp = match how {
            0 => one(),
            1 => { first(q.body.as_mut().unwrap()); one() }
            2 => { let mut v = vec![]; check!(q.body.as_mut().unwrap().content.read_to_end(&mut v).is_ok() && same(&v, &want), "P21.its-own-body"); one() }
            3 => { drop(q.body.take()); one() }
            4 => { let mut b = q.body.take().unwrap(); first(&mut b); one() }
            _ => { let mut r = Response::from_status(StatusCode::OK); r.body = q.body.take(); r }
        };
        *w2.lock().unwrap() = how < 3 || how == 5;
        l2.lock().unwrap().push((how, vec![]));
        rsp
    }));
    r.add("/b", HttpMethod::POST, noting(&l, 7));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut c = connect(); let mut buf = vec![];
    let mut d = b"POST /t HTTP/1.1\r\nContent-Length: ".to_vec(); d.extend(crate::msg::digits(len as u64)); d.extend_from_slice(b"\r\n\r\n"); d.extend_from_slice(&data);
    // the client reads while it sends
    let mut c2 = c.try_clone().unwrap();
    let sender = std::thread::spawn(move || c2.write_all(&d).is_ok());
    let got = read_one(&mut c, &mut buf);
    let sent = sender.join().unwrap();
    match got {
        // a body left unread may end the connection at once, and with it the answer
        None => { cover!("ended"); check!(!*whole.lock().unwrap(), "P21.answered"); }
        Some(g) => { cover!("answered"); check!(g.status == 200 && (g.body == b"one" || same(&g.body, &data)), "P21.its-own-answer"); }
    }
    os::idle();
    let gone = !sent || os::peer_closed(c.as_raw_fd()) != 0;
    if *whole.lock().unwrap() { check!(!gone, "P22.stays-open"); }
    if !gone {
        c.write_all(b"POST /b HTTP/1.1\r\nConnection: close\r\n\r\n").unwrap();
        match read_one(&mut c, &mut buf) { None => fail!("P21.answered"), Some(g) => check!(g.status == 200 && g.body == BODIES[7], "P21.its-own-answer") }
    }
    let (rest, _) = read_all(&mut c);
    check!(rest.is_empty() && buf.is_empty(), "P21.nothing-made-up");
    check!(l.lock().unwrap().len() == if gone { 1 } else { 2 }, "P21.handled-once");
});
/// P21/P23: a body the handler leaves unread, or reads in part, stops short for longer than the server waits; what
/// comes then, a whole request of its own, is no request.
entry!(h_stall(n) {
    const TEXT: &[u8] = b"POST /b HTTP/1.1\r\n\r\n";
    let l = log();
    let r = Router::new();
    let l2 = l.clone();
    r.add("/t", HttpMethod::POST, Box::new(move |q: &mut Request| {
        let mut x = [0u8; 2];
        match choose!(5, "handler") {
            0 => {}
            1 => { let _ = q.body.as_mut().unwrap().content.read(&mut x); }
            2 => { drop(q.body.take()); }
            3 => { let mut b = q.body.take().unwrap(); let _ = b.content.read(&mut x); }
            _ => { let mut v = vec![]; check!(q.body.as_mut().unwrap().content.read_to_end(&mut v).is_err(), "P23.short-body-reported"); }
        }
        l2.lock().unwrap().push((0, vec![]));
        Response::from_str("one").unwrap()
    }));
    r.add("/b", HttpMethod::POST, noting(&l, 7));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut c = connect();
    let mut d = b"POST /t HTTP/1.1\r\nContent-Length: ".to_vec(); d.extend(crate::msg::digits((TEXT.len() + n) as u64)); d.extend_from_slice(b"\r\n\r\n");
    d.extend_from_slice(&b"xxxx"[..n]);
    c.write_all(&d).unwrap();
    std::thread::sleep(secs(6));
    let _ = c.write_all(TEXT);
    os::idle();
    cover!("stalled");
    check!(l.lock().unwrap().iter().all(|x| x.0 == 0), "P21.P23.part-of-a-body-handled");
    check!(l.lock().unwrap().len() <= 1, "P21.handled-once");
    check!(os::peer_closed(c.as_raw_fd()) != 0, "P23.closed");
});

// ---- bad requests -----------------------------------------------------------
const BAD: [(&[u8], &[u8]); 21] = [
    (b"", b" / HTTP/1.1\r\nHost: x\r\n\r\n"),
    (b"GET", b"/ HTTP/1.1\r\n\r\n"),
    (b"GET /", b"HTTP/1.1\r\n\r\n"),
    (b"GET / ", b"\r\n\r\n"),
    (b"GET / HTTP/1.1", b"\r\n\r\n"),
    (b"GET / HTTP/1.1\r\n", b"\r\n\r\n"),
    (b"GET / HTTP/1.1\r\nA", b"b\r\n\r\n"),
    (b"GET / HTTP/1.1\r\nA: b", b"\r\n\r\n"),
    (b"POST / HTTP/1.1\r\nContent-Length: ", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: 1", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Type: ", b"\r\n\r\nabc"),
    (b"GET / HTTP/1.1\r\nA: b", b"C: d\r\n\r\n"),
    (b"POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-", b": 3\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nTransfer-Encoding: ", b"\r\n\r\nabc"),
    (b"", b"\r\n\r\n"),
    (b"FOO", b"\r\n\r\n"),
    (b"GET", b"/\r\n\r\n"),
    (b"POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: ", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: ", b"\r\nA: b\r\ncontent-length: 3\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: 3\r\nTransfer-Encoding: ", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nTransfer-Encoding: chunk", b"\r\n\r\n0\r\n\r\n"),
];
/// Reference: 0 broken grammar, 1 complete and well-formed, 2 cut off, 3 not judged here (see P06, P07)
fn judge(d: &[u8]) -> usize {
    let mut e = 0;
    loop { if e + 1 >= d.len() { return if d.contains(&b'\n') { 3 } else { 2 }; } if d[e] == b'\r' && d[e + 1] == b'\n' { break; } e += 1; }
    let l = &d[..e];
    let sp: Vec<usize> = (0..l.len()).filter(|i| l[*i] == b' ').collect();
    // the reader tolerates more than the grammar inside the target and the version (P06)
    if l.iter().any(|c| *c >= 0x80 || *c < 0x20 || *c == 0x7f) { return 3; }
    if sp.len() < 2 { return 0; }
    if sp.len() > 2 { return 3; }
    if !METHODS.iter().any(|m| same(m.as_bytes(), &l[..sp[0]])) { return 0; }
    if sp[1] == sp[0] + 1 || sp[1] + 1 == l.len() { return 3; }
    match ref_headers(&d[e + 2..]) {
        None => {
            // broken, unless it merely stops too early
            let mut at = e + 2;
            loop {
                let mut f = at;
                loop { if f + 1 >= d.len() { return 3; } if d[f] == b'\r' && d[f + 1] == b'\n' { break; } f += 1; }
                let h = &d[at..f];
                if h.is_empty() { return 3; }
                let mut c = 0; while c < h.len() && is_token(h[c]) { c += 1; }
                if c == 0 || c + 1 >= h.len() || h[c] != b':' { return 0; }
                if h[c + 1..].iter().any(|x| !(*x == b'\t' || (*x >= 0x20 && *x != 0x7f))) { return 0; }
                at = f + 2;
            }
        }
        Some((fields, _)) => {
            let mut lens = vec![];
            for (k, v) in fields.iter() {
                let k = lower(k);
                if same(&k, b"content-length") { lens.push(v.clone()); }
                if same(&k, b"transfer-encoding") { return if !v.is_empty() && v.iter().all(|c| c.is_ascii_alphanumeric()) && !same(&lower(v), b"identity") { 0 } else { 3 }; }
                if same(&k, b"content-type") { return 3; }
            }
            if lens.is_empty() { return 1; }
            if lens.len() > 1 { return if lens.iter().any(|l| !same(l, &lens[0])) { 0 } else { 3 }; }
            if lens[0].is_empty() || lens[0].iter().any(|c| !c.is_ascii_digit()) { return 0; }
            if lens[0].len() > 1 { return 3; }
            1
        }
    }
}
/// P23: a template with free bytes; the client then stops sending.
entry!(h_bad(tpl, n, short) {
    let l = log();
    let r = Router::new();
    for m in METHOD_VALUES { r.add("/", m, noting(&l, 0)); }
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut d = BAD[tpl].0.to_vec(); d.extend(bytes!(n, "in")); d.extend_from_slice(BAD[tpl].1);
    os::short_io(short as i32);
    let want = judge(&d);
    let mut c = connect();
    c.write_all(&d).unwrap();
    if want == 1 {
        // a well-formed one is not turned away
        let mut buf = vec![];
        match read_one(&mut c, &mut buf) { None => {} Some(g) => check!(g.status != 400, "P23.good-request-refused") }
        cover!("well-formed");
        return;
    }
    if want == 3 { cover!("not judged"); return; }
    if want == 2 { c.shutdown(std::net::Shutdown::Write).unwrap(); }
    let mut v = vec![];
    if want == 0 {
        // once told, the client tries again on the same connection
        let mut buf = [0u8; 512];
        while response(&v).is_none() { match c.read(&mut buf) { Ok(0) | Err(_) => break, Ok(n) => v.extend_from_slice(&buf[..n]) } }
        os::idle();
        let _ = c.write_all(b"GET / HTTP/1.1\r\n\r\n");
        os::idle();
    }
    v.extend(read_all(&mut c).0);
    check!(l.lock().unwrap().is_empty(), "P23.no-handler");
    match responses(&v) {
        None => fail!("P23.complete-answer"),
        Some(g) => {
            check!(g.len() <= 1 && g.iter().all(|g| g.status == 400), "P23.only-400");
            if want == 0 { cover!("refused"); check!(g.len() == 1, "P23.told-400"); } else { cover!("cut off"); }
        }
    }
});
const CUT: &[u8] = b"POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 4\r\n\r\nbody";
/// P23: a request cut off anywhere by the peer closing (0), resetting (1) or falling silent (2), after `before` good ones.
entry!(h_cut(how, before, reads) {
    let l = log();
    let r = Router::new();
    let l2 = l.clone();
    r.add("/", HttpMethod::POST, Box::new(move |q: &mut Request| {
        let mut v = vec![]; if reads == 1 { if let Some(b) = q.body.as_mut() { let _ = b.content.read_to_end(&mut v); } }
        l2.lock().unwrap().push((0, v)); Response::from_str("zero").unwrap()
    }));
    let mut s = server();
    s.run(ADDR, r).unwrap();
    let mut c = connect(); let mut buf = vec![];
    for _ in 0..before { c.write_all(CUT).unwrap(); match read_one(&mut c, &mut buf) { Some(g) => check!(g.status == 200, "P23.served-before"), None => fail!("P23.served-before") } }
    let at = choose!(CUT.len(), "cut at");
    let head = CUT.len() - 4;
    if at > 0 { c.write_all(&CUT[..at]).unwrap(); }
    if choose!(2, "seen first") == 1 { os::idle(); }
    match how { 0 => { c.shutdown(std::net::Shutdown::Write).unwrap(); } 1 => os::reset(c.as_raw_fd()), _ => {} }
    let t0 = os::now();
    let (v, _) = read_all(&mut c);
    let ran = l.lock().unwrap().len();
    if at < head { cover!("head cut"); check!(ran == before, "P23.cut-head-handled"); } else { cover!("body cut"); check!(ran <= before + 1, "P23.handled-again"); }
    if how == 2 { check!(os::now() - t0 <= 5_000_000_000, "P23.closed-in-time"); }
    match responses(&v) {
        None => fail!("P23.complete-answer"),
        Some(g) => {
            check!(g.len() <= 1 && g.iter().all(|g| g.status == 400), "P23.not-served");
            if at == 0 { check!(g.is_empty(), "P23.silent-close"); }
        }
    }
    // and the server goes on with others
    let mut c2 = connect(); let mut b2 = vec![];
    c2.write_all(CUT).unwrap();
    match read_one(&mut c2, &mut b2) { Some(g) => check!(g.status == 200, "P23.others-served"), None => fail!("P23.others-served") }
});
