//! P36: logging, and the logging middleware, change nothing.
use crate::msg::{fill, read_req, read_rsp, same_seen, REQ, RSP};
use crate::sym::*;
use std::io::{Cursor, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use wruster::http::headers::Header;
use wruster::http::{Body, Request, Response, StatusCode};
use wruster::router::HttpHandler;
use wruster_handlers::log_middleware;

/// P36: a message with `n` free bytes at a place, read without logging and with everything logged.
entry!(h_log_parse(resp, tpl, n, level) {
    let data = if resp == 1 { fill(RSP[tpl], n) } else { fill(REQ[tpl], n) };
    let read = |d: &[u8]| if resp == 1 { read_rsp(Src::whole(d.to_vec())) } else { read_req(Src::whole(d.to_vec())) };
    let a = read(&data);
    logging(level);
    let b = read(&data);
    match (&a, &b) {
        (None, None) => cover!("both refused"),
        (Some(a), Some(b)) => { cover!("both accepted"); check!(same_seen(a, b), "P36.same-message"); }
        _ => fail!("P36.same-outcome"),
    }
    if logged() > 0 { cover!("something was logged"); }
});
/// What a handler saw and what it left, and what was sent.
struct Done { ran: usize, given: Vec<u8>, left: Vec<u8>, sent: Vec<u8>, panicked: bool }
fn text(r: &Request) -> Vec<u8> {
    let mut v = format!("{} ", r.method).into_bytes();
    v.extend_from_slice(r.uri.as_bytes()); v.push(b' '); v.extend_from_slice(r.version.as_bytes());
    for (k, l) in r.headers.iter() { for x in l { v.push(b'\n'); v.extend_from_slice(k.as_bytes()); v.push(b':'); v.extend_from_slice(x.as_bytes()); } }
    if let Some(b) = r.body.as_ref() { v.extend_from_slice(format!("\n{:?} {}", b.content_type, b.content_length).as_bytes()); }
    v
}
/// What the handler does with the request: nothing, reads a byte or all of the body (by either way), takes it, panics,
/// changes the request.
fn handler(uses: usize, answer: usize, status: usize, content: Vec<u8>, ran: Arc<AtomicUsize>, given: Arc<std::sync::Mutex<Vec<u8>>>) -> HttpHandler {
    Box::new(move |r: &mut Request| {
        ran.fetch_add(1, SeqCst);
        given.lock().unwrap().extend(text(r));
        let mut v = vec![];
        match uses {
            1 => { let mut x = [0u8; 1]; match r.body.as_mut().unwrap().read(&mut x) { Ok(n) => v.push(x[0] + 2 * n as u8), Err(_) => v.push(255) } }
            2 => if r.body.as_mut().unwrap().content.read_to_end(&mut v).is_err() { v.push(255); },
            3 => if r.body.take().unwrap().read_to_end(&mut v).is_err() { v.push(255); },
            4 => panic!("handler"),
            5 => { r.uri = "/other".into(); r.headers.add(Header { name: "X-Mine".into(), value: "1".into() }); }
            _ => {}
        }
        given.lock().unwrap().extend(v);
        let mut rsp = match answer {
            0 => Response::from_status(StatusCode::OK),
            1 => Response::from_content(Cursor::new(content.clone()), content.len() as u64, mime_text()),
            _ => { let mut r = Response::from_status(StatusCode::OK); r.body = Some(Body::new(None, content.len() as u64, Box::new(Cursor::new(content.clone())))); r }
        };
        rsp.status = StatusCode::from(status);
        if content.iter().all(|c| *c >= 0x20 && *c < 0x7f) { rsp.headers.add(Header { name: "X-Tag".into(), value: String::from_utf8(content.clone()).unwrap() }); }
        rsp
    })
}
fn mime_text() -> mime::Mime { "text/plain".parse().unwrap() }
fn serve(data: &[u8], wrapped: bool, uses: usize, answer: usize, status: usize, content: &[u8]) -> Done {
    let (ran, given) = (Arc::new(AtomicUsize::new(0)), Arc::new(std::sync::Mutex::new(vec![])));
    let mut h = handler(uses, answer, status, content.to_vec(), ran.clone(), given.clone());
    if wrapped { h = log_middleware(h); }
    let mut r = match Request::read_from(Src::whole(data.to_vec())) { Ok(r) => r, Err(_) => fail!("P36.same-outcome") };
    let rsp = catch_unwind(AssertUnwindSafe(|| h(&mut r)));
    let mut sent = vec![];
    let panicked = match rsp { Err(_) => true, Ok(mut rsp) => { check!(rsp.write(&mut sent).is_ok(), "P36.same-answer"); false } };
    let mut left = text(&r);
    if let Some(b) = r.body.as_mut() { if b.read_to_end(&mut left).is_err() { left.extend_from_slice(b"\nfails"); } }
    let given = given.lock().unwrap().clone();
    Done { ran: ran.load(SeqCst), given, left, sent, panicked }
}
/// P36: a handler with and without the logging middleware, which logs at a level; `n` free bytes in a request header
/// field and `m` free bytes of content; the request may end up to `cut` bytes early.
entry!(h_log_handler(uses, answer, n, m, level, cut) {
    let value = bytes!(n, "value");
    for c in &value { assume_(*c > 0x20 && *c < 0x7f); }
    let content = bytes!(m, "content");
    let status = if m == 0 { 100 + choose!(900, "status") } else { 299 };
    let mut data = b"POST /a HTTP/1.1\r\nX-A: ".to_vec(); data.extend_from_slice(&value);
    data.extend_from_slice(b"\r\nContent-Type: text/html\r\nContent-Length: 4\r\n\r\nbody");
    let whole = data.len(); data.truncate(whole - choose!(cut + 1, "cut"));
    let plain = serve(&data, false, uses, answer, status, &content);
    logging(level);
    let logs = serve(&data, true, uses, answer, status, &content);
    check!(plain.ran == 1 && logs.ran == 1, "P36.runs-once");
    check!(same(&plain.given, &logs.given), "P36.same-request");
    check!(same(&plain.left, &logs.left), "P36.request-left-alone");
    check!(plain.panicked == logs.panicked, "P36.same-answer");
    check!(same(&plain.sent, &logs.sent), "P36.same-answer");
    if level >= 3 { check!(infos() >= 1 + !logs.panicked as usize, "P36.logs"); }
    cover!("answered");
});
