//! P31: the dummy server, its own main included, over the model of the operating system.
use crate::server::{connect, responses, read_all, Got};
use crate::sym::*;
use std::io::Write;

const METHODS: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];
const TYPES: [&str; 4] = ["text/plain", "application/json", "text/html; charset=utf-8", "image/png"];
struct Route { name: &'static str, path: &'static str, method: usize, status: Vec<u8>, quoted: Vec<u8>, content: Vec<u8>, kind: usize }
fn yaml(rs: &[Route], order: &[usize], alias: bool) -> &'static [u8] {
    let mut v = vec![];
    for i in order {
        let r = &rs[*i];
        for p in [r.name.as_bytes(), b":\n  path: ", r.path.as_bytes(), b"\n  method: ", METHODS[r.method].as_bytes(), b"\n  response:\n    status: ", &r.status, b"\n    content: \"", &r.quoted, b"\"\n    ", if alias { b"type" } else { b"content_type" }, b": ", TYPES[r.kind].as_bytes(), b"\n"] { v.extend_from_slice(p); }
    }
    v.leak()
}
fn start(config: &'static [u8], args: &[&'static str]) {
    let d = os::dir(0, "cfg");
    os::file(d, "c.yaml", config);
    os::args(args);
    std::thread::spawn(|| dummy::run());
    os::idle();
}
const ARGS: [&str; 3] = ["wrusdummy", "127.0.0.1:80", "/cfg/c.yaml"];
fn segs(t: &[u8]) -> Vec<&[u8]> { t.split(|c| *c == b'/').filter(|s| !s.is_empty()).collect() }
fn sets(set: usize) -> Vec<Route> {
    let r = |name, path, method, kind| Route { name, path, method, status: b"200".to_vec(), quoted: vec![], content: vec![], kind };
    match set {
        0 => vec![r("one", "/", 0, 0)],
        1 => vec![r("gets", "/", 0, 0), r("posts", "/", 2, 1)],
        2 => vec![r("x", "/a", 0, 2), r("y", "/a/b", 0, 1)],
        3 => vec![r("x", "/a", 0, 0), r("y", "/b", 0, 1), r("z", "/b", 3, 3)],
        _ => vec![r("p", "/", 8, 1), r("q", "/a/b", 2, 0), r("r", "/a", 2, 2)],
    }
}
fn answered(g: &Got, r: &Route) {
    let st = r.status.iter().fold(0usize, |a, c| a * 10 + (*c - b'0') as usize);
    check!(g.status == st, "P31.status");
    check!(same(&g.body, &r.content), "P31.content");
    let ct: Vec<_> = g.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(b"content-type")).collect();
    check!(ct.len() == 1 && same(&ct[0].1, TYPES[r.kind].as_bytes()), "P31.type");
}
/// set of routes; `n` free characters in the content of the first; free: 1 every status from 200 to 999, 2 any content
/// type and either name of its key, 4 any order in the file; at: bytes free in the path asked for; ask: the method (9: any).
entry!(h_dummy(set, n, free, at, ask) {
    let mut rs = sets(set);
    let k = rs.len();
    for (i, r) in rs.iter_mut().enumerate() { r.content = crate::server::BODIES[i].to_vec(); r.quoted = r.content.clone(); }
    if n > 0 && n < 9 {
        let c = bytes!(n, "content");
        for b in &c { assume_(*b >= 0x20 && *b < 0x7f && *b != b'"' && *b != b'\\'); }
        rs[0].content = c.clone(); rs[0].quoted = c;
    }
    // what else a content may hold: nothing, ends of lines, characters of other scripts
    if n == 9 {
        let (q, c): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"a\\r\\n\\r\\nb\\0", b"a\r\n\r\nb\0"), (b"\\u00e9\\\"\\\\", b"\xc3\xa9\"\\"), (b"\xe2\x82\xac", b"\xe2\x82\xac")][choose!(4, "content")];
        rs[0].content = c.to_vec(); rs[0].quoted = q.to_vec();
    }
    if free & 1 != 0 {
        let d = bytes!(3, "status");
        assume_(d[0] >= b'2' && d[0] <= b'9' && d[1] >= b'0' && d[1] <= b'9' && d[2] >= b'0' && d[2] <= b'9');
        // 204 and 304 have no content
        assume_(!same(&d, b"204") && !same(&d, b"304"));
        rs[0].status = d;
    }
    if free & 2 != 0 { rs[0].kind = choose!(TYPES.len(), "type"); }
    let alias = free & 2 == 0 || choose!(2, "key") == 0;
    let mut order: Vec<usize> = (0..k).collect();
    if free & 4 != 0 { for i in 0..k { let j = i + choose!(k - i, "order"); order.swap(i, j); } }
    os::on_exit(1);
    start(yaml(&rs, &order, alias), &ARGS);
    check!(os::listening(80) == 1, "P31.runs");
    let m = if ask == 9 { choose!(9, "method") } else { ask };
    if m == 1 { return; }
    let mut target = rs[0].path.as_bytes().to_vec();
    if at > 0 {
        let f = bytes!(at, "path");
        for c in &f { assume_(*c > 0x20 && *c < 0x7f && *c != b'.' && *c != b'?'); }
        target = if at == 1 { b"/".to_vec() } else { vec![b'/', b'a'] };
        target.extend_from_slice(&f);
    }
    for round in 0..2 {
        let mut c = connect();
        c.write_all(&[METHODS[m].as_bytes(), b" ", &target, b" HTTP/1.1\r\nConnection: close\r\n\r\n"].concat()).unwrap();
        let (v, _) = read_all(&mut c);
        let g = match responses(&v) { Some(g) if g.len() == 1 => g, _ => fail!("P31.one-response") };
        let want = segs(&target);
        let mut best: Option<(usize, usize)> = None;
        for i in 0..k {
            let s = segs(rs[i].path.as_bytes());
            if rs[i].method != m || s.len() > want.len() { continue; }
            let mut eq = true; for j in 0..s.len() { eq &= same(s[j], want[j]); }
            if eq && best.map_or(true, |b| s.len() > b.1) { best = Some((i, s.len())); }
        }
        match best {
            Some((i, _)) => { cover!("configured"); answered(&g[0], &rs[i]); }
            None => { cover!("not configured"); check!(g[0].status >= 400, "P31.nothing-else"); for r in &rs { check!(r.content.is_empty() || !same(&g[0].body, &r.content), "P31.nothing-else"); } }
        }
        if round == 0 && at > 0 { break; }
    }
});
/// A configuration that cannot be followed ends the program with a failure, before it listens.
entry!(h_dummy_bad(what) {
    let mut rs = sets(1);
    for r in rs.iter_mut() { r.quoted = b"x".to_vec(); }
    let mut cfg = yaml(&rs, &[0, 1], true).to_vec();
    let swap = |v: &[u8], a: &[u8], b: &[u8]| -> Vec<u8> { let p = v.windows(a.len()).position(|w| w == a).unwrap(); [&v[..p], b, &v[p + a.len()..]].concat() };
    let mut args = ARGS;
    match what {
        0 => cfg = swap(&cfg, b"GET", b"BREW"),
        1 => cfg = swap(&cfg, b"text/plain", b"plain"),
        2 => cfg = swap(&cfg, b"200", b"\"two hundred\""),
        3 => cfg = swap(&cfg, b"200", b"70000"),
        4 => cfg = swap(&cfg, b"  path: /\n", b""),
        5 => cfg = swap(&cfg, b"response:", b"response: ]"),
        6 => args[2] = "/cfg/none",
        7 => args[2] = "/cfg",
        8 => { cfg.truncate(20); }
        9 => cfg = swap(&cfg, b"200", b"-1"),
        // the address is in use
        11 => std::mem::forget(std::net::TcpListener::bind("127.0.0.1:80").unwrap()),
        _ => { let m = bytes!(3, "method"); for b in &m { assume_(b.is_ascii_alphabetic()); } assume_(!same(&m, b"GET") && !same(&m, b"PUT")); cfg = swap(&cfg, b"GET", &m); }
    }
    os::on_exit(if what == 11 { 3 } else { 2 });
    start(cfg.leak(), &args);
    fail!("P31.bad-configuration-followed");
});
/// A wrong number of arguments ends it the same way.
entry!(h_dummy_args(n) {
    os::on_exit(2);
    start(b"{}", &["wrusdummy", "127.0.0.1:80", "/cfg/c.yaml", "more"][..n]);
    fail!("P31.bad-arguments-followed");
});
