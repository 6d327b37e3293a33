//! P28 (and the client's half of P22): the client against scripted servers.
use crate::msg::ref_headers;
use crate::server::{lists, lower};
use crate::sym::*;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wruster::http::client::{Client, ClientResponse};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, StatusCode};

/// What both sides know about request k.
#[derive(Clone, Default)]
struct Ask { sent: bool, addr: usize, closing: bool, outstanding: bool, kind: usize, answered: bool }
type Book = Arc<Mutex<Vec<Ask>>>;
const KINDS: usize = 13;
/// Kinds of answer: how long the body is, whether it says close, whether the server closes, whether it is whole.
struct Kind { head: &'static str, body: usize, sent: usize, ends: bool, again: bool, bad: bool }
const ANSWERS: [Kind; KINDS] = [
    Kind { head: "Content-Length: 3\r\n", body: 3, sent: 3, ends: false, again: true, bad: false },
    Kind { head: "", body: 0, sent: 0, ends: true, again: false, bad: false },
    Kind { head: "", body: 0, sent: 0, ends: false, again: false, bad: false },
    Kind { head: "Content-Length: 3\r\nConnection: close\r\n", body: 3, sent: 3, ends: true, again: false, bad: false },
    Kind { head: "Connection: foo, CLOSE\r\nContent-Length: 3\r\n", body: 3, sent: 3, ends: false, again: false, bad: false },
    Kind { head: "Content-Length: 0\r\n", body: 0, sent: 0, ends: false, again: true, bad: false },
    Kind { head: "Content-Length: 40\r\n", body: 40, sent: 40, ends: false, again: true, bad: false },
    Kind { head: "Content-Length: 9\r\n", body: 9, sent: 3, ends: true, again: false, bad: false },
    Kind { head: "Content-Length: x\r\n", body: 0, sent: 0, ends: false, again: false, bad: true },
    Kind { head: "", body: 0, sent: 0, ends: true, again: false, bad: true },
    Kind { head: "Connection: keep-alive\r\nContent-Length: 3\r\nConnection: Close\r\n", body: 3, sent: 3, ends: false, again: false, bad: false },
    // more than any buffer on the way
    Kind { head: "Content-Length: 70000\r\n", body: 70000, sent: 70000, ends: false, again: true, bad: false },
    Kind { head: "Content-Length: 200001\r\n", body: 200001, sent: 200001, ends: false, again: true, bad: false },
];
fn content(k: usize, addr: usize, n: usize) -> Vec<u8> { (0..n).map(|i| b'a' + (k * 7 + addr * 3 + i) as u8 % 26).collect() }
fn head(c: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Vec<u8>> {
    loop {
        if let Some(e) = buf.windows(4).position(|w| w == b"\r\n\r\n") { let h = buf[..e + 4].to_vec(); buf.drain(..e + 4); return Some(h); }
        let mut b = [0u8; 256];
        match c.read(&mut b) { Ok(0) | Err(_) => return None, Ok(n) => buf.extend_from_slice(&b[..n]) }
    }
}
/// Serves one connection; answers request k with a kind chosen here (0..kinds) and says so in the book.
fn serve(mut c: TcpStream, me: usize, book: Book, kinds: usize, first: usize) {
    let mut buf = vec![];
    let mut prev: Option<usize> = None;
    loop {
        let Some(h) = head(&mut c, &mut buf) else { return };
        check!(buf.is_empty(), "P28.one-request-at-a-time");
        check!(h.len() > 7 && &h[..5] == b"GET /" && (b'0'..=b'9').contains(&h[5]) && h[6] == b' ', "P28.request-as-sent");
        let k = (h[5] - b'0') as usize;
        let Some((hs, _)) = ref_headers(&h[h.windows(2).position(|w| w == b"\r\n").unwrap() + 2..]) else { fail!("P28.request-as-sent") };
        {
            let mut b = book.lock().unwrap();
            check!(k < b.len() && b[k].sent && !b[k].answered, "P28.request-as-sent");
            check!(b[k].addr == me, "P28.right-address");
            if let Some(p) = prev {
                cover!("connection used again");
                check!(!b[p].closing && ANSWERS[b[p].kind].again, "P28.not-after-close");
                check!(!b[p].outstanding, "P28.not-while-unread");
            }
            let closes = hs.iter().any(|(n, v)| lower(n) == b"connection" && lists(v, b"close"));
            check!(closes == b[k].closing, "P28.request-as-sent");
            b[k].answered = true;
            b[k].kind = first + choose!(kinds, "kind of answer");
        }
        let kind = &ANSWERS[book.lock().unwrap()[k].kind];
        if kind.bad && kind.ends { return; }
        let mut d = format!("HTTP/1.1 20{} OK\r\nX-Tag: {}{}\r\n{}\r\n", if k == 1 { 1 } else { 0 }, k, me, kind.head).into_bytes();
        d.extend_from_slice(&content(k, me, kind.sent));
        if kind.sent > 10 {
            let n = d.len() - 20;
            if c.write_all(&d[..n]).is_err() { return; }
            std::thread::sleep(Duration::from_secs(1));
            let _ = c.write_all(&d[n..]);
        } else if c.write_all(&d).is_err() { return; }
        if kind.ends { return; }
        prev = Some(k);
    }
}
const ADDRS: [&str; 3] = ["127.0.0.1:80", "127.0.0.1:81", "127.0.0.1:8"];
fn start(addrs: usize, book: &Book, kinds: usize, first: usize) {
    for a in 0..addrs {
        let l = TcpListener::bind(ADDRS[a]).unwrap();
        let book = book.clone();
        std::thread::spawn(move || { for _ in 0..9 { let (c, _) = match l.accept() { Ok(x) => x, Err(_) => return }; let b = book.clone(); std::thread::spawn(move || serve(c, a, b, kinds, first)); } });
    }
}
fn request(k: usize, close: usize) -> Request {
    let mut headers = Headers::new();
    if close > 0 { headers.add(Header { name: ["Connection", "connection"][close - 1].into(), value: ["close", "x , Close"][close - 1].into() }); }
    Request { method: HttpMethod::GET, uri: format!("/{}", k), version: "HTTP/1.1".into(), headers, body: None }
}
enum Held { Response(usize, usize, ClientResponse), Body(usize, usize, Body) }
/// Checks that the rest of a body is the one of request k.
fn read_rest(k: usize, addr: usize, kind: usize, from: usize, b: &mut Body) {
    let kd = &ANSWERS[kind];
    let mut v = vec![];
    let r = b.content.read_to_end(&mut v);
    check!(r.is_ok() == (kd.sent == kd.body), "P28.whole-body");
    let want = content(k, addr, kd.sent);
    check!(v[..] == want[from..], "P28.its-own-body");
}
fn exchange(c: &Client, book: &Book, k: usize, addr: usize, close: usize, uses: usize, held: &mut Vec<Held>) {
    { let mut b = book.lock().unwrap(); b[k] = Ask { sent: true, addr, closing: close > 0, outstanding: true, kind: 99, answered: false }; }
    let r = c.run(ADDRS[addr], request(k, close));
    let a = book.lock().unwrap()[k].clone();
    let done = || book.lock().unwrap()[k].outstanding = false;
    let mut r = match r {
        Err(_) => { cover!("refused"); check!(a.answered && ANSWERS[a.kind].bad, "P28.answered"); done(); return; }
        Ok(r) => r,
    };
    check!(a.answered && !ANSWERS[a.kind].bad, "P28.made-up");
    check!(r.status == if k == 1 { StatusCode::Created } else { StatusCode::OK }, "P28.its-own-status");
    let tag = format!("{}{}", k, addr);
    match r.headers.get("X-Tag") { Some(v) => check!(v.len() == 1 && *v[0] == tag[..], "P28.its-own-headers"), None => fail!("P28.its-own-headers") }
    let want = content(k, addr, ANSWERS[a.kind].sent);
    let how = choose!(uses, "what is done with it");
    match how {
        0 => { if let Some(b) = r.body.as_mut() { read_rest(k, addr, a.kind, 0, b); } else { check!(ANSWERS[a.kind].body == 0, "P28.its-own-body"); } }
        2 => if let Some(b) = r.body.as_mut() { let mut x = [0u8; 1]; match b.content.read(&mut x) { Ok(1) => check!(x[0] == want[0], "P28.its-own-body"), Ok(0) => check!(want.is_empty(), "P28.its-own-body"), _ => fail!("P28.its-own-body") } },
        3 => { held.push(Held::Response(k, a.kind, r)); return; }
        4 => { if let Some(b) = r.body.take() { held.push(Held::Body(k, a.kind, b)); drop(r); return; } }
        _ => {}
    }
    // what dropping does to the rest of the body comes before anyone else may use the connection
    done();
    drop(r);
}
fn finish(book: &Book, held: Vec<Held>) {
    for h in held {
        match h {
            Held::Response(k, kind, mut r) => { let a = book.lock().unwrap()[k].addr; if let Some(b) = r.body.as_mut() { read_rest(k, a, kind, 0, b); } book.lock().unwrap()[k].outstanding = false; drop(r); }
            Held::Body(k, kind, mut b) => { let a = book.lock().unwrap()[k].addr; read_rest(k, a, kind, 0, &mut b); book.lock().unwrap()[k].outstanding = false; }
        }
    }
}
/// P28: `n` requests one after the other to up to `addrs` servers, the answers of any of `kinds` kinds from `first` on.
entry!(h_client(n, addrs, first, kinds, uses) {
    let book: Book = Arc::new(Mutex::new(vec![Ask::default(); n]));
    start(addrs, &book, kinds, first);
    let c = Client::new();
    let mut held = vec![];
    for k in 0..n {
        let addr = choose!(addrs, "address");
        let close = choose!(3, "own close");
        exchange(&c, &book, k, addr, close, uses, &mut held);
        if !held.is_empty() && k + 1 < n && choose!(2, "finishes one") == 1 { let h = held.remove(0); finish(&book, vec![h]); }
        // time for the server to do what it does
        os::idle();
    }
    // the client may go before what it gave out
    if choose!(2, "client goes first") == 1 { drop(c); finish(&book, held); } else { finish(&book, held); drop(c); }
    cover!("finished");
});
/// P28: `n` threads use one client at once, `each` requests apiece.
entry!(h_client_race(n, each, uses, pre) {
    let total = n * each;
    let book: Book = Arc::new(Mutex::new(vec![Ask::default(); total + 1]));
    start(1, &book, 1, 0);
    let c = Arc::new(Client::new());
    // one connection is there to be used
    let mut held = vec![];
    exchange(&c, &book, total, 0, 0, 1, &mut held);
    os::idle();
    os::sched(pre as i32, 0);
    let hs: Vec<_> = (0..n).map(|t| { let (c, book) = (c.clone(), book.clone()); std::thread::spawn(move || {
        let mut held = vec![];
        for j in 0..each { exchange(&c, &book, t * each + j, 0, 0, uses, &mut held); }
        finish(&book, held);
    }) }).collect();
    for h in hs { h.join().unwrap(); }
    cover!("finished");
});
/// P22: Connection header fields with `n` free bytes in the response (side 0) or the request (side 1).
const CONN: [(&str, &str); 6] = [("Connection: ", "\r\n"), ("Connection: close", "\r\n"), ("Connection: x,", "close\r\n"), ("Connection: x\r\nConnection: ", "\r\n"), ("Connection: ", "close\r\n"), ("Connection: x, close", ",y\r\n")];
entry!(h_client_conn(side, place, n) {
    let free = bytes!(n, "connection");
    for c in &free { assume_((*c >= 0x20 && *c < 0x7f) || *c == b'\t'); }
    let (a, z) = CONN[place];
    let mut line = a.as_bytes().to_vec(); line.extend_from_slice(&free); line.extend_from_slice(z.as_bytes());
    let (hs, _) = match ref_headers(&[&line[..], b"\r\n"].concat()) { Some(x) => x, None => { assume_(false); return; } };
    let closes = hs.iter().any(|(k, v)| lower(k) == b"connection" && lists(v, b"close"));
    let l = TcpListener::bind(ADDRS[0]).unwrap();
    let seen = Arc::new(Mutex::new(vec![]));
    let (s2, line2) = (seen.clone(), line.clone());
    std::thread::spawn(move || {
        for k in 0..2 {
            let (mut c, _) = match l.accept() { Ok(x) => x, Err(_) => return };
            let (s2, line2) = (s2.clone(), line2.clone());
            std::thread::spawn(move || {
                let mut buf = vec![];
                while let Some(_) = head(&mut c, &mut buf) {
                    s2.lock().unwrap().push(k);
                    let mut d = b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n".to_vec();
                    if side == 0 { d.extend_from_slice(&line2); }
                    d.extend_from_slice(b"\r\nz");
                    if c.write_all(&d).is_err() { return; }
                }
            });
        }
    });
    let c = Client::new();
    for _ in 0..2 {
        let mut r = request(0, 0);
        if side == 1 { for (k, v) in &hs { r.headers.add(Header { name: String::from_utf8(k.clone()).unwrap(), value: String::from_utf8(v.clone()).unwrap() }); } }
        match c.run(ADDRS[0], r) { Ok(_) => {}, Err(_) => fail!("P22.client-answered") }
        os::idle();
    }
    let s = seen.lock().unwrap();
    check!(s.len() == 2 && s[0] == 0, "P22.client-answered");
    if closes { cover!("close"); check!(s[1] == 1, "P22.client-closes"); } else { cover!("open"); if s[1] == 0 { cover!("used again"); } }
});
