//! P15, P16: the static file handler over the model of a file system.
use crate::server::{connect, read_all, response, server, ADDR};
use crate::sym::*;
use std::io::{Read, Write};
use wruster::http::headers::Headers;
use wruster::http::{HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
use wruster_handlers::serve_static;

pub const A: &[u8] = b"hello file\x00\xff\r\n\r\nend";
const D_A: &[u8] = b"inner";
const SECRET: &[u8] = b"secret!";
#[derive(Clone, Copy, PartialEq)]
enum What { File(&'static [u8]), Dir, Missing, Other }
/// The tree; the directory served is /srv/www.  Returns the nodes of www, a, d and /srv.
pub fn tree() -> [i32; 4] {
    let srv = os::dir(0, "srv");
    let www = os::dir(srv, "www");
    let etc = os::dir(0, "etc");
    os::file(etc, "p", SECRET);
    os::file(0, "a", SECRET);
    os::file(srv, "a", SECRET);
    os::file(srv, "www2", SECRET);
    let w2 = os::dir(srv, "wwwa");
    os::file(w2, "a", SECRET);
    os::link(srv, "wl", "www");
    let a = os::file(www, "a", A);
    os::file(www, "b.txt", b"text");
    os::file(www, "e", b"");
    let d = os::dir(www, "d");
    os::file(d, "a", D_A);
    os::dir(d, "f");
    os::link(www, "l", "a");
    os::link(www, "m", "d");
    os::link(www, "x", "nowhere");
    os::link(www, "y", "y");
    [www, a, d, srv]
}
/// What a relative name without dot-dots stands for.
fn what(rel: &[u8]) -> What {
    match rel {
        b"a" | b"l" => What::File(A),
        b"b.txt" => What::File(b"text"),
        b"e" => What::File(b""),
        b"d/a" | b"m/a" => What::File(D_A),
        b"" | b"d" | b"m" | b"d/f" | b"m/f" => What::Dir,
        b"y" => What::Other,
        _ => {
            // below a file, or a link that leads back to itself: some failure
            for p in [&b"a/"[..], b"l/", b"b.txt/", b"e/", b"d/a/", b"m/a/", b"y/"] { if rel.starts_with(p) { return What::Other; } }
            What::Missing
        }
    }
}
/// Resolves dots lexically; None when it leads above the root.
fn parts(p: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for c in p.split(|c| *c == b'/') { match c { b"" | b"." => {} b".." => { out.pop(); } c => out.push(c.to_vec()) } }
    out
}
fn get(uri: Vec<u8>) -> Option<Request> { Some(Request { method: HttpMethod::GET, uri: String::from_utf8(uri).ok()?, version: "HTTP/1.1".into(), headers: Headers::new(), body: None }) }
fn number(s: &StatusCode) -> usize { usize::from(s) }
pub const DIRS: [&str; 8] = ["/srv/www", "/srv/www/", "www", "./", "../srv/www", "/srv/wl", "/srv/none", "/srv/a"];
fn confined(dir: usize, from: usize) {
    for p in os::asked().split_off(from) {
        check!(p.len() < 120, "engine: a long path");
        let full = if p.first() == Some(&b'/') { p.clone() } else if dir == 3 { [&b"/srv/www/"[..], &p].concat() } else { [&b"/srv/"[..], &p].concat() };
        let ps = parts(&full);
        let inside = |b: &[&[u8]]| ps.len() >= b.len() && (0..b.len()).all(|i| ps[i] == b[i]);
        check!(inside(&[b"srv", b"www"]) || dir == 5 && inside(&[b"srv", b"wl"]) || dir == 6 && inside(&[b"srv", b"none"]) || dir == 7 && inside(&[b"srv", b"a"]), "P15.outside");
    }
}
/// The two properties for one answer to `rel` (the target without its first slash).
fn judge(rel: &[u8], dir: usize, status: usize, length: &[u8], content: &[u8]) {
    if dir >= 6 { check!(status >= 400, "P16.no-directory"); return; }
    let dots = rel.split(|c| *c == b'/').any(|c| c == b"..") || rel.first() == Some(&b'/');
    let ps = parts(rel);
    let flat = ps.join(&b'/');
    let is = if rel.contains(&0) { What::Other } else { what(&flat) };
    let slash = rel.last() == Some(&b'/') || rel.ends_with(b"/.");
    let ok = |b: &[u8]| { check!(same(content, b), "P16.exact-bytes"); check!(same(length, b.len().to_string().as_bytes()), "P16.exact-length"); };
    match is {
        // dots and slashes after the name may be refused, or taken as the file
        What::File(b) if dots || slash => { cover!("odd name of a file"); if status < 400 { check!(status == 200, "P16.status"); ok(b); } }
        What::File(b) => { cover!("file"); check!(status == 200, "P16.served"); ok(b); }
        What::Dir => { cover!("directory"); check!(status >= 300, "P16.directory-as-file"); }
        What::Missing if dots => { check!(status >= 400, "P16.missing"); }
        What::Missing => { cover!("missing"); check!(status == 404, "P16.missing"); }
        What::Other => { cover!("failure"); check!(status >= 400, "P16.failure"); }
    }
}
fn whole(r: &mut Response) -> (Vec<u8>, Vec<u8>) {
    let mut v = vec![];
    let mut l = vec![];
    if let Some(b) = r.body.as_mut() {
        if b.content.read_to_end(&mut v).is_err() { fail!("P16.readable"); }
        check!(b.content_length as usize == v.len(), "P16.body-length");
    }
    if let Some(h) = r.headers.get("Content-Length") { check!(h.len() == 1, "P16.one-length"); l = h[0].as_bytes().to_vec(); }
    (l, v)
}
pub const TARGETS: [(&[u8], &[u8]); 14] = [
    (b"/", b""), (b"", b""), (b"/d/", b""), (b"/", b"/a"), (b"/a", b""), (b"/d/", b"/a"), (b"/../", b""), (b"/d/../", b"a"),
    (b"/", b"/../a"), (b"/d", b"a"), (b"/.", b""), (b"/y", b""), (b"//", b"a"), (b"/../www", b"/a"),
];
/// P15/P16: `n` free bytes in the target, given to the handler directly; dir: how the directory is configured.
entry!(h_file(place, n, dir) {
    let [www, _, _, srv] = tree();
    os::chdir(if dir == 3 { www } else { srv });
    let free = bytes!(n, "target");
    let (a, z) = TARGETS[place];
    let mut t = a.to_vec(); t.extend_from_slice(&free); t.extend_from_slice(z);
    let Some(r) = get(t.clone()) else { return };
    let mut rsp = serve_static(DIRS[dir], &r);
    let st = number(&rsp.status);
    let (l, v) = whole(&mut rsp);
    confined(dir, 0);
    let rel = if t.first() == Some(&b'/') { &t[1..] } else { &t[..] };
    judge(rel, dir, st, &l, &v);
});
/// The two properties for a request for `t` of the server that listens.
pub fn served(t: &[u8], dir: usize) {
    let mut c = connect();
    os::idle();
    // (starting the server asks how many processors there are)
    let from = os::asked().len();
    let d = [b"GET ", t, b" HTTP/1.1\r\nConnection: close\r\n\r\n"].concat();
    c.write_all(&d).unwrap();
    let (v, _) = read_all(&mut c);
    confined(dir, from);
    let Some((g, m)) = response(&v) else { fail!("P16.answered") };
    check!(m == v.len(), "P16.exact-length");
    // what the server passes on has its dots resolved; a target that does not start at the root is not passed on
    if t.first() != Some(&b'/') { return; }
    let ps = parts(t);
    let flat = ps.join(&b'/');
    let slash = t.last() == Some(&b'/') || t.ends_with(b"/.") || t.ends_with(b"/..");
    let rel = if slash && !flat.is_empty() { [&flat[..], b"/"].concat() } else { flat };
    let l = g.headers.iter().find(|h| h.0.eq_ignore_ascii_case(b"content-length")).map(|h| h.1.clone()).unwrap_or_default();
    if g.status != 500 || !t.windows(2).any(|w| w == b"..") { judge(&rel, dir, g.status, &l, &g.body); }
}
/// P15/P16 through the server: target bytes free where the router takes them.
entry!(h_file_served(place, n, dir) {
    let [www, _, _, srv] = tree();
    os::chdir(if dir == 3 { www } else { srv });
    let free = bytes!(n, "target");
    for c in &free { assume_(*c > 0x20 && *c < 0x7f && *c != b'?'); }
    let (a, z) = TARGETS[place];
    let mut t = a.to_vec(); t.extend_from_slice(&free); t.extend_from_slice(z);
    let r = Router::new();
    let h: HttpHandler = Box::new(move |q: &mut Request| serve_static(DIRS[dir], q));
    r.add("/", HttpMethod::GET, h);
    let mut s = server();
    s.run(ADDR, r).unwrap();
    served(&t, dir);
});
/// P16: the file system fails with any error number at the file (0), its directory (1) or the directory served (2).
entry!(h_file_fails(at) {
    let [www, a, d, _] = tree();
    let e = byte!("error number");
    assume_(e > 0 && e <= 133 && e != 4); // an interrupted call is made again
    os::fs_err([a, d, www][at], concrete(e as u64) as i32);
    let r = get([&b"/a"[..], b"/d/a", b"/a"][at].to_vec()).unwrap();
    let rsp = serve_static("/srv/www", &r);
    check!(number(&rsp.status) >= 400, "P16.failure");
    check!(rsp.status == StatusCode::NotFound || e != 2, "P16.missing");
    cover!("refused");
});
/// P16: any one call that names a path or reads a file fails, once or (ever) from then on.
entry!(h_file_fault(at, ever) {
    tree();
    let target = [&b"/a"[..], b"/d/a", b"/d", b"/d/", b"/"][at];
    let r = get(target.to_vec()).unwrap();
    let e = [13, 5, 12, 2][choose!(4, "error")];
    os::fs_fault(choose!(10, "fails at") as i32, e, ever as i32);
    let mut rsp = serve_static("/srv/www", &r);
    let st = number(&rsp.status);
    let file = match what(&parts(&target[1..]).join(&b'/')) { What::File(b) => Some(b), _ => None };
    if os::fs_faulted() == 0 { check!(match file { Some(_) => st == 200, None => st >= 300 }, "P16.status"); }
    if st < 400 {
        let Some(b) = file else { check!(st >= 300, "P16.directory-as-file"); return };
        let mut out = Sink { out: vec![] };
        let res = rsp.write(&mut out);
        if res.is_ok() { match response(&out.out) { Some((g, n)) => { cover!("served"); check!(n == out.out.len() && g.body == b, "P16.exact-bytes") } None => fail!("P16.short-reported") } }
        else { cover!("cut off"); check!(os::fs_faulted() > 0 && response(&out.out).is_none(), "P16.short-reported"); }
    } else { cover!("refused"); }
});
/// P16: the file changes its size after it was looked at; reads may be cut short.
entry!(h_file_changes(short) {
    let [_, a, _, _] = tree();
    let r = get(b"/a".to_vec()).unwrap();
    let mut rsp = serve_static("/srv/www", &r);
    check!(number(&rsp.status) == 200, "P16.served");
    let to = choose!(A.len() + 1, "new size");
    os::fs_resize(a, to as u64);
    os::short_io(short as i32);
    let mut out = Sink { out: vec![] };
    let res = rsp.write(&mut out);
    if to == A.len() { cover!("unchanged"); check!(res.is_ok(), "P16.served"); }
    match response(&out.out) {
        Some((g, n)) => { check!(n == out.out.len() && res.is_ok() && g.body == A, "P16.exact-bytes"); }
        None => { cover!("cut off"); check!(res.is_err(), "P16.short-reported"); }
    }
});
