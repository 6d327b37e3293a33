//! P01-P12: reading and writing messages, against independent reference readings.
use crate::sym::*;
use std::cell::Cell;
use std::io::{self, Cursor, Read, Write};
use std::rc::Rc;
use std::str::FromStr;
use wruster::http::headers::{Header, Headers};
use wruster::http::*;

pub const METHODS: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];
pub const METHOD_VALUES: [HttpMethod; 9] = [HttpMethod::GET, HttpMethod::HEAD, HttpMethod::POST, HttpMethod::PUT, HttpMethod::DELETE, HttpMethod::CONNECT, HttpMethod::OPTIONS, HttpMethod::TRACE, HttpMethod::PATCH];
fn end(e: usize) -> End { match e { 0 => End::Eof, 1 => End::Error, _ => End::Timeout } }
/// before the free bytes, after them
pub const REQ: [(&[u8], &[u8]); 18] = [
    (b"", b""),
    (b"GET ", b""),
    (b"GET / HTTP/1.1\r\n", b""),
    (b"POST / HTTP/1.1\r\nContent-Length: ", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: 1\r\nTransfer-Encoding: ", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: 1\r\nContent-Type: ", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: 2\r\n", b"\r\n\r\nabc"),
    (b"", b" / HTTP/1.1\r\n\r\n"),
    (b"GET ", b" HTTP/1.1\r\n\r\n"),
    (b"GET / ", b"\r\n\r\n"),
    (b"GET / HTTP/1.1\r\n", b"\r\n\r\n"),
    (b"GET / HTTP/1.1\r\nA: ", b"\r\nB: c\r\n\r\n"),
    (b"POST / HTTP/1.1\r\nContent-Length: 1844674407370955161", b"\r\n\r\nabc"),
    (b"POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: ", b"\r\n\r\nabc"),
    (b"GET / HTTP/1.1\r", b"\r\n\r\n"),
    (b"POST / HTTP/1.1\r\nContent-Length: 4\r\n\r\n", b"c"),
    (b"GET / HTTP/1.1\r\nA: \xc3\xa9", b"\r\n\r\n"),
    (b"GET /\xc3\xa9", b" HTTP/1.1\r\n\r\n"),
];
pub const RSP: [(&[u8], &[u8]); 12] = [
    (b"", b""),
    (b"HTTP/1.1 ", b""),
    (b"HTTP/1.1 200 OK\r\n", b""),
    (b"HTTP/", b" 200 OK\r\n\r\n"),
    (b"HTTP/1.1 ", b" OK\r\n\r\n"),
    (b"HTTP/1.1 200 ", b"\r\n\r\n"),
    (b"HTTP/1.1 200 OK\r\nContent-Length: ", b"\r\n\r\nabc"),
    (b"HTTP/1.1 200 OK\r\nContent-Length: 1844674407370955161", b"\r\n\r\nabc"),
    (b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Type: ", b"\r\n\r\nabc"),
    (b"HTTP/1.1 200 OK\r\nA: b\r\n", b"\r\n\r\n"),
    (b"HTTP/1.1 200 \xc3\xa9", b"\r\n\r\n"),
    (b"HTTP/1.1 200 OK\r\nA: \xc3\xa9", b"\r\n\r\n"),
];
pub fn fill(t: (&[u8], &[u8]), n: usize) -> Vec<u8> { let mut d = t.0.to_vec(); d.extend(bytes!(n, "in")); d.extend_from_slice(t.1); d }
fn exhaust(b: &mut Body) { let mut v = vec![]; let _ = b.read_to_end(&mut v); let _ = b.ensure_read(); }
entry!(h_req_parse(tpl, n, mode, e) {
    let data = fill(REQ[tpl], n);
    match Request::read_from(Src::new(data, mode, end(e))) {
        Ok(mut r) => { cover!("accepted"); if let Some(b) = r.body.as_mut() { exhaust(b); } }
        Err(_) => cover!("refused"),
    }
    cover!("finished");
});
entry!(h_rsp_parse(tpl, n, mode, e) {
    let data = fill(RSP[tpl], n);
    match Response::read_from(Src::new(data, mode, end(e))) {
        Ok(mut r) => { cover!("accepted"); if let Some(b) = r.body.as_mut() { exhaust(b); } }
        Err(_) => cover!("refused"),
    }
    cover!("finished");
});
const REQ_FULL: &[u8] = b"POST /a/b HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nContent-Length: 4\r\nX-A: b\r\n\r\nbody";
const RSP_FULL: &[u8] = b"HTTP/1.1 404 Not Found\r\nContent-Type: text/plain\r\nContent-Length: 4\r\nX-A: b\r\n\r\nbody";
/// Every end point of a message, one byte of it changed arbitrarily, three kinds of ending.
entry!(h_trunc(resp, flip) {
    let full = if resp == 1 { RSP_FULL } else { REQ_FULL };
    let cut = choose!(full.len() + 1, "cut");
    let mut data = full[..cut].to_vec();
    if flip == 1 && cut > 0 { let p = choose!(cut, "changed"); data[p] = byte!("byte"); }
    let src = Src::new(data, 2 * choose!(2, "bytewise"), end(choose!(3, "ending")));
    let (mut body, _ok) = if resp == 1 { match Response::read_from(src) { Ok(r) => (r.body, true), Err(_) => (None, false) } } else { match Request::read_from(src) { Ok(r) => (r.body, true), Err(_) => (None, false) } };
    if let Some(b) = body.as_mut() { cover!("body"); exhaust(b); }
    cover!("finished");
});

/// What a message parsed to, in a form that can be compared.
pub struct Seen { head: Vec<u8>, headers: Vec<(Vec<u8>, Vec<Vec<u8>>)>, len: u64, body: Vec<u8>, failed: bool }
fn seen(head: Vec<u8>, h: &Headers, b: &mut Option<Body>) -> Seen {
    let headers = h.iter().map(|(k, v)| (k.clone().into_bytes(), v.iter().map(|x| x.clone().into_bytes()).collect())).collect();
    let mut body = vec![]; let mut failed = false; let mut len = 0;
    if let Some(b) = b.as_mut() { len = b.content_length; failed = b.read_to_end(&mut body).is_err(); }
    Seen { head, headers, len, body, failed }
}
pub fn read_req(s: Src) -> Option<Seen> { match Request::read_from(s) { Err(_) => None, Ok(mut r) => { let mut h = r.method.to_string().into_bytes(); h.push(0); h.extend(r.uri.as_bytes()); h.push(0); h.extend(r.version.as_bytes()); Some(seen(h, &r.headers, &mut r.body)) } } }
pub fn read_rsp(s: Src) -> Option<Seen> { match Response::read_from(s) { Err(_) => None, Ok(mut r) => { let c: usize = usize::from(&r.status); Some(seen(c.to_string().into_bytes(), &r.headers, &mut r.body)) } } }
pub fn same_seen(a: &Seen, b: &Seen) -> bool {
    if a.headers.len() != b.headers.len() || a.len != b.len || a.failed != b.failed { return false; }
    let mut ok = same(&a.head, &b.head) & same(&a.body, &b.body);
    for (x, y) in a.headers.iter().zip(b.headers.iter()) {
        if x.1.len() != y.1.len() { return false; }
        ok &= same(&x.0, &y.0);
        for (p, q) in x.1.iter().zip(y.1.iter()) { ok &= same(p, q); }
    }
    ok
}
/// P03. kind 0: one split anywhere plus an interruption; 1: two splits; 2: byte by byte with an interruption anywhere
entry!(h_split(resp, tpl, n, kind) {
    let data = if resp == 1 { if tpl == 99 { RSP_FULL.to_vec() } else { fill(RSP[tpl], n) } } else if tpl == 99 { REQ_FULL.to_vec() } else { fill(REQ[tpl], n) };
    let l = data.len();
    let mut s = Src::whole(data.clone());
    if l > 0 {
        match kind {
            0 => { s.cuts = vec![choose!(l, "cut")]; s.intr_at = Some(choose!(2, "interrupted at") * s.cuts[0]); }
            1 => { let a = choose!(l, "cut"); let b = a + choose!(l - a, "second cut"); s.cuts = vec![a, b]; s.intr_at = Some(b); }
            _ => { s.mode = 2; s.intr_at = Some(choose!(l + 1, "interrupted at")); }
        }
    }
    let (a, b) = if resp == 1 { (read_rsp(Src::whole(data)), read_rsp(s)) } else { (read_req(Src::whole(data)), read_req(s)) };
    match (&a, &b) {
        (None, None) => cover!("both refused"),
        (Some(a), Some(b)) => { cover!("both accepted"); check!(same_seen(a, b), "P03.same-message"); }
        _ => fail!("P03.same-outcome"),
    }
});

// ---- header grammar ---------------------------------------------------
pub fn is_token(c: u8) -> bool { c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c) }
fn is_content(c: u8) -> bool { c == b' ' || c == b'\t' || (c > 0x20 && c != 0x7f) }
fn ows(c: u8) -> bool { c == b' ' || c == b'\t' }
/// The reference reading of a header section: fields in order, or none when it breaks the grammar.
pub fn ref_headers(d: &[u8]) -> Option<(Vec<(Vec<u8>, Vec<u8>)>, usize)> {
    let mut out = vec![]; let mut at = 0;
    loop {
        let mut e = at;
        loop { if e + 1 >= d.len() { return None; } if d[e] == b'\r' && d[e + 1] == b'\n' { break; } e += 1; }
        let l = &d[at..e];
        if l.is_empty() { return Some((out, e + 2)); }
        let mut c = 0;
        while c < l.len() && is_token(l[c]) { c += 1; }
        if c == 0 || c >= l.len() || l[c] != b':' || c + 1 >= l.len() { return None; }
        let (mut a, mut b) = (c + 1, l.len());
        if l[a..].iter().any(|c| !is_content(*c)) { return None; }
        while a < b && ows(l[a]) { a += 1; }
        while b > a && ows(l[b - 1]) { b -= 1; }
        out.push((l[..c].to_vec(), l[a..b].to_vec()));
        at = e + 2;
    }
}
fn latin1(v: &[u8]) -> Vec<u8> { v.iter().map(|c| *c as char).collect::<String>().into_bytes() }
fn fold(v: &[u8]) -> Vec<u8> { v.iter().map(|c| c | if c.is_ascii_uppercase() { 32 } else { 0 }).collect() }
const HDR: [(&[u8], &[u8]); 9] = [
    (b"", b"\r\n\r\n"),
    (b"", b": v\r\n\r\n"),
    (b"A:", b"\r\n\r\n"),
    (b"A: b", b"c\r\n\r\n"),
    (b"A: b\r\n", b"\r\nA: d\r\n\r\n"),
    (b"A: b\r\nA:", b"\r\n\r\n"),
    (b"A", b": b\r\n\r\n"),
    (b"Ab-Cd: e \t", b"\r\nx: y\r\n\r\n"),
    (b"A: b\r\nC: d\r\nA: ", b"\r\na: e\r\n\r\n"),
];
/// P04: acceptance and values of a header section with n free bytes.
entry!(h_headers(tpl, n) {
    let data = fill(HDR[tpl], n);
    let want = ref_headers(&data);
    let got = Headers::read_from(&mut io::BufReader::new(Cursor::new(data)));
    match (got, want) {
        (Err(_), None) => cover!("refused"),
        (Ok(_), None) => fail!("P04.accepts-bad-line"),
        (Err(_), Some(_)) => fail!("P04.refuses-good-line"),
        (Ok(h), Some((w, _))) => {
            cover!("accepted");
            let count: usize = h.iter().map(|(_, v)| v.len()).sum();
            check!(count == w.len(), "P04.every-field-once");
            for i in 0..w.len() {
                let k = fold(&w[i].0);
                // its position among the fields of that name
                let pos = w[..i].iter().filter(|f| fold(&f.0) == k).count();
                let name = String::from_utf8(w[i].0.clone()).unwrap();
                match h.get(&name) {
                    None => fail!("P04.field-found"),
                    Some(vals) => {
                        check!(pos < vals.len(), "P04.value-kept");
                        let v = vals[pos].as_bytes();
                        check!(same(v, &w[i].1) | same(v, &latin1(&w[i].1)), "P04.value");
                        if pos > 0 { cover!("repeated"); }
                    }
                }
            }
        }
    }
});
/// P05: the case of every letter of a name is arbitrary; the name is one of several.
entry!(h_names(which, from, to) {
    let canon = ["Content-Length", "Connection", "Transfer-Encoding", "Content-Type", "X-Ab-1c", "9a-B2c-Z"][which];
    let mut name = canon.as_bytes().to_vec();
    match choose!(3, "rest") { 1 => name.make_ascii_lowercase(), 2 => name.make_ascii_uppercase(), _ => {} }
    let case = bytes!(name.len(), "case");
    for i in 0..name.len() { if name[i].is_ascii_alphabetic() && i >= from && i < to { assume_(case[i] & !32 == 0); name[i] ^= case[i]; } else { assume_(case[i] == 0); } }
    let mut d = b"A: 1\r\n".to_vec(); d.extend_from_slice(&name); d.extend_from_slice(b": v\r\nZ: 2\r\n\r\n");
    match Headers::read_from(&mut io::BufReader::new(Cursor::new(d))) {
        Err(_) => fail!("P05.accepted"),
        Ok(h) => {
            match h.get(canon) { Some(v) => check!(v.len() == 1 && v[0] == "v", "P05.value"), None => fail!("P05.found") }
            let names: Vec<&[u8]> = h.iter().map(|x| x.0.as_bytes()).collect();
            check!(names.len() == 3 && names.iter().any(|x| same(&fold(x), &fold(canon.as_bytes()))), "P05.one-field");
            cover!("found");
        }
    }
    // and the framing follows
    if which == 0 {
        let mut d = b"POST / HTTP/1.1\r\n".to_vec(); d.extend_from_slice(&name); d.extend_from_slice(b": 2\r\n\r\nabc");
        match Request::read_from(Cursor::new(d)) { Err(_) => fail!("P05.request"), Ok(r) => match r.body { None => fail!("P05.body"), Some(mut b) => { let mut v = vec![]; let _ = b.read_to_end(&mut v); check!(v == b"ab", "P05.framing"); } } }
    }
});
/// P05: two arbitrary names are one field exactly when they differ in letter case only.
entry!(h_names2(n, m) {
    let (a, b) = (bytes!(n, "first"), bytes!(m, "second"));
    for c in a.iter().chain(b.iter()) { assume_(is_token(*c)); }
    let mut d = a.clone(); d.extend_from_slice(b": 1\r\n"); d.extend_from_slice(&b); d.extend_from_slice(b": 2\r\n\r\n");
    let equal = fold(&a) == fold(&b);
    match Headers::read_from(&mut io::BufReader::new(Cursor::new(d))) {
        Err(_) => fail!("P05.tokens-accepted"),
        Ok(h) => {
            let sa = String::from_utf8(a).unwrap(); let sb = String::from_utf8(b).unwrap();
            match (h.get(&sa), h.get(&sb)) {
                (Some(x), Some(y)) => {
                    if equal { cover!("one field"); check!(x.len() == 2 && y.len() == 2 && x[0] == "1" && x[1] == "2", "P05.same-field"); }
                    else { cover!("two fields"); check!(x.len() == 1 && y.len() == 1 && x[0] == "1" && y[0] == "2", "P05.different-fields"); }
                }
                _ => fail!("P05.found"),
            }
        }
    }
});

// ---- request line -----------------------------------------------------
const LINE: [(&[u8], &[u8]); 8] = [
    (b"", b" / HTTP/1.1\r\n"),
    (b"GET", b"/ HTTP/1.1\r\n"),
    (b"GET /", b" HTTP/1.1\r\n"),
    (b"DELETE ", b"\r\n"),
    (b"GET / ", b"\r\n"),
    (b"GET / HTTP/1.1", b"\n"),
    (b"PATCH /a", b"HTTP/1.0\r\n"),
    (b"OPTIONS * HTTP/1.", b"\r\nA: b\r\n"),
];
/// P06. Canonical lines must be accepted; an accepted line must be method, space, target, space, version, CR LF.
entry!(h_line(tpl, n) {
    let mut data = fill(LINE[tpl], n);
    data.extend_from_slice(b"\r\n");
    for c in data.iter() { assume_(*c < 0x80); }
    // reference: first CR LF pair, split at the spaces
    let mut e = 0;
    while e + 1 < data.len() && !(data[e] == b'\r' && data[e + 1] == b'\n') { e += 1; }
    let line = data[..e].to_vec();
    let spaces: Vec<usize> = (0..line.len()).filter(|i| line[*i] == b' ').collect();
    let plain = line.iter().all(|c| *c >= 0x20 && *c != 0x7f);
    let mut good = plain && spaces.len() == 2 && spaces[1] > spaces[0] + 1 && spaces[1] + 1 < line.len();
    let known = if spaces.is_empty() { false } else { METHODS.iter().any(|m| m.as_bytes() == &line[..spaces[0]]) };
    good = good && known && ref_headers(&data[e + 2..]).is_some();
    match Request::read_from(Cursor::new(data.clone())) {
        Err(_) => { check!(!good, "P06.canonical-line-accepted"); cover!("refused"); }
        Ok(r) => {
            cover!("accepted");
            if good { cover!("canonical"); }
            check!(known, "P06.known-method");
            let m = r.method.to_string();
            // whatever was accepted is put together again from what was delivered
            let mut again = m.into_bytes(); again.push(b' '); again.extend(r.uri.as_bytes()); again.push(b' '); again.extend(r.version.as_bytes()); again.extend_from_slice(b"\r\n");
            check!(again.len() <= data.len() && same(&again, &data[..again.len()]), "P06.delivered-as-sent");
            check!(!r.uri.is_empty() && !r.version.is_empty(), "P06.three-parts");
            check!(!r.uri.bytes().any(|c| c == b'\n' || c == b' ') && !r.version.bytes().any(|c| c == b'\n'), "P06.within-one-line");
        }
    }
});

// ---- bodies -----------------------------------------------------------
/// Keeps count of the bytes taken from the source.
pub struct Counted { pub src: Src, pub taken: Rc<Cell<usize>> }
impl Read for Counted { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.src.read(b)?; self.taken.set(self.taken.get() + n); Ok(n) } }
/// reference: a plain decimal number that fits, up to 20 digits
fn decimal(v: &[u8]) -> Option<u64> {
    if v.is_empty() || v.iter().any(|c| !c.is_ascii_digit()) { return None; }
    let mut n: u64 = 0;
    for c in v { n = n.checked_mul(10)?.checked_add((c - b'0') as u64)?; }
    Some(n)
}
const LEN: [(&[u8], &[u8]); 8] = [
    (b"Content-Length: ", b"\r\n\r\n"),
    (b"content-length: 1844674407370955161", b"\r\n\r\n"),
    (b"Content-Length: 000000000000000000000", b"\r\n\r\n"),
    (b"Content-Length: 2\r\nContent-Length: ", b"\r\n\r\n"),
    (b"Content-Length: 2\r\nTransfer-Encoding: ", b"\r\n\r\n"),
    (b"Content-Length: 2\r\nTransfer-Encoding: identi", b"\r\n\r\n"),
    (b"Transfer-Encoding: identity\r\nTransfer-Encoding: ", b"\r\nContent-Length: 2\r\n\r\n"),
    (b"A: b\r\nContent-Length: 18446744073709551", b"\r\n\r\n"),
];
/// P07: which messages have a body, and what it yields.
entry!(h_body(resp, tpl, n, data_len) {
    let hs = fill(LEN[tpl], n);
    let want = match ref_headers(&hs) { Some((w, end)) if end == hs.len() => w, _ => return };
    let payload = bytes!(data_len, "data");
    let mut d = if resp == 1 { b"HTTP/1.1 200 OK\r\n".to_vec() } else { b"POST / HTTP/1.1\r\n".to_vec() };
    d.extend_from_slice(&hs); d.extend_from_slice(&payload);
    // reference
    let lens: Vec<&Vec<u8>> = want.iter().filter(|f| fold(&f.0) == b"content-length").map(|f| &f.1).collect();
    let encs: Vec<&Vec<u8>> = want.iter().filter(|f| fold(&f.0) == b"transfer-encoding").map(|f| &f.1).collect();
    let mut ok = lens.len() <= 1 && encs.len() <= 1;
    let mut unsure = false;
    for e in encs.iter() { let id = fold(e) == b"identity"; ok = ok && id; if id && e.as_slice() != b"identity" { unsure = true; } }
    let mut len = Some(0);
    if lens.len() == 1 { len = decimal(lens[0]); }
    ok = ok && len.is_some();
    let got = if resp == 1 { Response::read_from(Src::whole(d)).map(|r| r.body) } else { Request::read_from(Src::whole(d)).map(|r| r.body) };
    match got {
        Err(_) => { check!(!ok || unsure, "P07.good-length-accepted"); cover!("refused"); }
        Ok(b) => {
            check!(ok, "P07.bad-length-refused");
            let len = len.unwrap_or(0);
            match b {
                None => { check!(len == 0, "P07.body-present"); cover!("no body"); }
                Some(mut b) => {
                    cover!("body");
                    check!(len != 0 && b.content_length == len, "P07.announced-length");
                    let mut v = vec![]; let r = b.read_to_end(&mut v);
                    let m = if len < data_len as u64 { len as usize } else { data_len };
                    check!(v.len() == m && same(&v, &payload[..m]), "P07.exact-bytes");
                    check!(r.is_ok() == (len <= data_len as u64), "P07.cut-short-reported");
                }
            }
        }
    }
});
/// P08: part of the body read in arbitrary steps, then skipped.
entry!(h_skip(max, via, steps, mode) {
    let len = 1 + choose!(max, "length"); let have = choose!(max + 3, "available");
    let mut h = Headers::new(); h.add(Header { name: "Content-Length".to_string(), value: len.to_string() });
    let taken = Rc::new(Cell::new(0));
    let src = Counted { src: Src::new(vec![7u8; have], mode, if choose!(2, "fails") == 1 { End::Error } else { End::Eof }), taken: taken.clone() };
    let mut b = match Body::read_from(src, &h) { Ok(Some(b)) => b, _ => fail!("P08.body") };
    skip(&mut b, len, have, via, steps, max, &taken);
});
fn skip(b: &mut Body, len: usize, have: usize, via: usize, steps: usize, max: usize, taken: &Rc<Cell<usize>>) {
    for _ in 0..steps {
        let mut buf = vec![0u8; choose!(max + 2, "step")];
        let r = if via == 0 || via == 2 && choose!(2, "by content") == 0 { b.read(&mut buf) } else { b.content.read(&mut buf) };
        match r { Ok(n) => check!(n <= buf.len(), "P08.read-size"), Err(_) => break }
    }
    check!(taken.get() <= len, "P08.reads-stay-inside");
    let r = b.ensure_read();
    check!(taken.get() <= len, "P08.skip-stays-inside");
    if have >= len { cover!("complete"); check!(r.is_ok() && taken.get() == len, "P08.skip-consumes-the-rest"); }
    else { cover!("cut short"); check!(r.is_err() || taken.get() == have, "P08.failure-or-end"); }
}
/// P08 with bodies around and beyond the size of the copy buffers.
entry!(h_skip_big(via, huge) {
    let lens = [[8191usize, 8192, 8193, 20000], [65535, 65537, 131073, 1 << 20 | 1]][huge]; let reads = [0usize, 1, 100, 8192, 9000];
    let len = lens[choose!(lens.len(), "length")]; let have = len + choose!(2, "more"); let step = reads[choose!(reads.len(), "read")];
    let mut h = Headers::new(); h.add(Header { name: "Content-Length".to_string(), value: len.to_string() });
    let taken = Rc::new(Cell::new(0));
    let src = Counted { src: Src::whole(vec![7u8; have]), taken: taken.clone() };
    let mut b = match Body::read_from(src, &h) { Ok(Some(b)) => b, _ => fail!("P08.body") };
    let mut buf = vec![0u8; step];
    let _ = if via == 0 { b.read(&mut buf) } else { b.content.read(&mut buf) };
    check!(taken.get() <= len, "P08.reads-stay-inside");
    let r = b.ensure_read();
    check!(r.is_ok() && taken.get() == len, "P08.skip-consumes-the-rest");
    cover!("complete");
});

// ---- writing ----------------------------------------------------------
/// Reads a written message back by the grammar: start line, header lines, rest.
pub struct Wire { pub start: Vec<u8>, pub fields: Vec<(Vec<u8>, Vec<u8>)>, pub body: Vec<u8> }
pub fn wire(d: &[u8]) -> Option<Wire> {
    let mut e = 0;
    loop { if e + 1 >= d.len() { return None; } if d[e] == b'\r' && d[e + 1] == b'\n' { break; } e += 1; }
    let (fields, used) = ref_headers(&d[e + 2..])?;
    Some(Wire { start: d[..e].to_vec(), fields, body: d[e + 2 + used..].to_vec() })
}
fn lengths(w: &Wire) -> Vec<Vec<u8>> { w.fields.iter().filter(|f| fold(&f.0) == b"content-length").map(|f| f.1.clone()).collect() }
/// The text of a number, without the code under test.
pub fn digits(mut n: u64) -> Vec<u8> { let mut v = vec![]; loop { v.insert(0, b'0' + (n % 10) as u8); n /= 10; if n == 0 { break; } } v }
/// P09: a response of every shape, written to a sink that takes everything.
/// shape 0: no body; 1: Body::new; 2: from_content; 3: from_str. hdr 0: no length header, 1: the right one, 2: spelled differently
entry!(h_respond(shape, hdr, max) {
    let code = [200usize, 404, 503, 299, 418][choose!(5, "status")];
    let len = if shape == 0 { 0 } else { choose!(max + 1, "announced") };
    let have = match shape { 0 => 0, 3 => len, _ => choose!(max + 2, "yielded") };
    let data = bytes!(have, "data");
    let val = bytes!(2, "value");
    for c in val.iter() { assume_(*c > 0x20 && *c < 0x7f); }
    let mut r = match shape {
        0 => Response::from_status(StatusCode::from(code)),
        1 => { let mut r = Response::from_status(StatusCode::from(code)); r.body = Some(Body::new(Some(mime::TEXT_PLAIN), len as u64, Box::new(Cursor::new(data.clone())))); r }
        2 => { let mut r = Response::from_content(Cursor::new(data.clone()), len as u64, mime::TEXT_PLAIN); r.status = StatusCode::from(code); r }
        _ => { for c in data.iter() { assume_(*c < 0x80); } let mut r = Response::from_str(std::str::from_utf8(&data).unwrap()).unwrap(); r.status = StatusCode::from(code); r }
    };
    if shape != 2 && hdr > 0 { r.headers.add(Header { name: if hdr == 1 { "Content-Length" } else { "content-length" }.to_string(), value: len.to_string() }); }
    r.headers.add(Header { name: "X-A".to_string(), value: String::from_utf8(val.clone()).unwrap() });
    r.headers.add(Header { name: "X-A".to_string(), value: "second".to_string() });
    let mut s = Sink { out: vec![] };
    let res = r.write(&mut s);
    if have < len { check!(res.is_err(), "P09.short-body-reported"); cover!("short body"); return; }
    check!(res.is_ok(), "P09.written");
    let w = match wire(&s.out) { Some(w) => w, None => fail!("P09.well-formed") };
    let reason = match code { 200 => "OK", 404 => "Not Found", 503 => "Service Unavailable", 299 => "", _ => "" };
    let mut start = b"HTTP/1.1 ".to_vec(); start.extend(digits(code as u64)); start.push(b' ');
    check!(w.start.len() >= start.len() && same(&w.start[..start.len()], &start), "P09.status-line");
    if !reason.is_empty() { check!(&w.start[start.len()..] == reason.as_bytes(), "P09.reason"); }
    let l = lengths(&w);
    check!(l.len() == 1, "P09.one-length");
    check!(l[0] == digits(len as u64), "P09.length-value");
    check!(w.body.len() == len && same(&w.body, &data[..len]), "P09.body");
    let a: Vec<&Vec<u8>> = w.fields.iter().filter(|f| f.0 == b"X-A").map(|f| &f.1).collect();
    check!(a.len() == 2 && same(a[0], &val) && a[1].as_slice() == b"second", "P09.header-values");
    check!(w.fields.len() == 3 + (shape == 2) as usize, "P09.nothing-else");
    cover!("framed");
});
/// A sink with `faults` free decisions: it takes part of a write, interrupts it, fails, or takes nothing.
pub struct Faulty { pub out: Vec<u8>, pub faults: usize, pub broken: bool, pub full: bool }
impl Faulty {
    fn verdict(&mut self, n: usize) -> io::Result<usize> {
        if self.broken { return Err(io::Error::from(io::ErrorKind::BrokenPipe)); }
        if self.faults == 0 || n == 0 || choose!(2, "fault") == 0 { return Ok(n); }
        self.faults -= 1;
        match choose!(4, "kind") {
            0 => Ok(if self.full && n <= 24 { 1 + choose!(n, "part") } else { [1, n - n / 2, n - (n > 1) as usize][choose!(3, "part")] }),
            1 => Err(io::Error::from(io::ErrorKind::Interrupted)),
            2 => { self.broken = true; Err(io::Error::from(io::ErrorKind::BrokenPipe)) }
            _ => { self.broken = true; Ok(0) }
        }
    }
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = self.verdict(b.len())?; self.out.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn some_request(data: &[u8], val: &[u8]) -> Request {
    let mut r = Request::from_body(Body::new(Some(mime::TEXT_PLAIN), data.len() as u64, Box::new(Cursor::new(data.to_vec()))), HttpMethod::PUT, "/a");
    r.headers.add(Header { name: "X-A".to_string(), value: String::from_utf8_lossy(val).into_owned() });
    r
}
fn some_response(data: &[u8], val: &[u8]) -> Response {
    let mut r = Response::from_content(Cursor::new(data.to_vec()), data.len() as u64, mime::TEXT_PLAIN);
    r.headers.add(Header { name: "X-A".to_string(), value: String::from_utf8_lossy(val).into_owned() });
    r
}
/// P10: writing a request (0) or response (1) into a faulty sink.
entry!(h_faulty(resp, faults, full) {
    let data = bytes!(3, "data"); let val = bytes!(1, "value"); assume_(val[0] > 0x20 && val[0] < 0x7f);
    let mut good = Sink { out: vec![] };
    let mut s = Faulty { out: vec![], faults, broken: false, full: full == 1 };
    let r = if resp == 1 {
        check!(some_response(&data, &val).write(&mut good).is_ok(), "P10.plain-sink");
        some_response(&data, &val).write(&mut s)
    } else {
        check!(some_request(&data, &val).write(&mut good).is_ok(), "P10.plain-sink");
        some_request(&data, &val).write(&mut s)
    };
    let n = s.out.len();
    check!(n <= good.out.len() && same(&s.out, &good.out[..n]), "P10.in-order-once");
    if r.is_ok() { cover!("complete"); check!(n == good.out.len(), "P10.complete-or-error"); } else { cover!("reported"); check!(s.broken, "P10.no-needless-error"); }
});
/// Yields `left` bytes whose values count up, so that their order can be checked without storing them.
struct Ramp { left: usize, at: usize, unit: usize }
impl Read for Ramp {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(self.left).min(self.unit); if n > 0 { b[0] = (self.at / self.unit) as u8; b[n - 1] = b[0]; } self.left -= n; self.at += n; Ok(n) }
}
struct CountSink { head: Vec<u8>, n: usize, faults: usize, broken: bool, at_flush: bool }
impl Write for CountSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.broken { return Err(io::Error::from(io::ErrorKind::BrokenPipe)); }
        let mut n = b.len();
        if self.faults > 0 && n > 0 && choose!(2, "fault") == 1 {
            self.faults -= 1;
            match choose!(4, "kind") { 0 => n = n - n / 2, 1 => return Err(io::Error::from(io::ErrorKind::Interrupted)), 2 => { self.broken = true; return Err(io::Error::from(io::ErrorKind::BrokenPipe)); } _ => { self.broken = true; return Ok(0); } }
        }
        if n <= 4096 && self.head.len() < 4096 { self.head.extend_from_slice(&b[..n]); }
        self.n += n; Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.at_flush = true; Ok(()) }
}
/// P10 and P09 with a body large enough for the other copying method.
entry!(h_big(over, faults) {
    let len = (1usize << 21) + over;
    let mut b = Body::new(None, len as u64, Box::new(Ramp { left: len + 1, at: 0, unit: 1 << 20 }));
    let mut s = CountSink { head: vec![], n: 0, faults, broken: false, at_flush: false };
    let r = b.write(&mut s);
    if r.is_ok() { cover!("complete"); check!(s.n == len, "P10.complete-or-error"); } else { cover!("reported"); check!(s.broken, "P10.no-needless-error"); }
    check!(s.n <= len, "P10.in-order-once");
});

// ---- round trips ------------------------------------------------------
fn visible(c: u8) -> bool { c > 0x20 && c < 0x7f }
/// the kinds of content given to a body
pub const KINDS: [&str; 5] = ["text/plain", "text/plain; charset=utf-8", "application/x-a; b=\"c, d\"; e=f", "image/svg+xml", ""];
/// P11, requests: made from a body, written, read back.
entry!(h_round_req(nu, nv, nb, kind) {
    let m = choose!(9, "method");
    let mut uri = vec![b'/']; uri.extend(bytes!(nu, "target"));
    for c in uri[1..].iter() { assume_(visible(*c)); }
    let v = bytes!(nv, "value"); for (i, c) in v.iter().enumerate() { assume_(visible(*c) || i > 0 && i + 1 < nv && (*c == b' ' || *c == b'\t')); }
    let body = bytes!(nb, "data");
    let u = String::from_utf8(uri.clone()).unwrap();
    let mut r = Request::from_body(Body::new(if kind == 4 { None } else { Some(KINDS[kind].parse().unwrap()) }, nb as u64, Box::new(Cursor::new(body.clone()))), METHOD_VALUES[m], &u);
    let version = if m == 1 { ["HTTP/1.1", "HTTP/1.0", "HTTP/2", "HTTP/1.7"][choose!(4, "version") as usize] } else { "HTTP/1.1" };
    r.version = version.to_string();
    r.headers.add(Header { name: "X-One".to_string(), value: String::from_utf8(v.clone()).unwrap() });
    r.headers.add(Header { name: "X-One".to_string(), value: "2".to_string() });
    let mut s = Sink { out: vec![] };
    check!(r.write(&mut s).is_ok(), "P11.written");
    match Request::read_from(Cursor::new(s.out)) {
        Err(_) => fail!("P11.read-back"),
        Ok(r) => {
            check!(r.method.to_string() == METHODS[m], "P11.method");
            check!(same(r.uri.as_bytes(), &uri), "P11.target");
            check!(r.version == version, "P11.version");
            match r.headers.get("X-One") { Some(x) => check!(x.len() == 2 && same(x[0].as_bytes(), &v) && x[1] == "2", "P11.header-values"), None => fail!("P11.header") }
            match r.body { Some(mut b) => {
                if kind < 4 { match &b.content_type { Some(t) => check!(t.to_string() == KINDS[kind], "P11.content-type"), None => fail!("P11.content-type") } }
                let mut d = vec![]; check!(b.read_to_end(&mut d).is_ok() && same(&d, &body), "P11.body"); cover!("with body");
            } None => { check!(nb == 0, "P11.body"); } }
            cover!("round trip");
        }
    }
});
/// P11, requests made from a value: known to be written without their length.
entry!(h_round_into(nb) {
    let body = bytes!(nb, "data"); for c in body.iter() { assume_(*c < 0x80); }
    let r = Request::from(String::from_utf8(body.clone()).unwrap(), mime::TEXT_PLAIN, HttpMethod::POST, "/a".to_string());
    let mut s = Sink { out: vec![] };
    check!(r.write(&mut s).is_ok(), "P11.written");
    match Request::read_from(Cursor::new(s.out)) {
        Err(_) => fail!("P11.read-back"),
        Ok(r) => { cover!("read back"); match r.body { Some(mut b) => { let mut d = vec![]; check!(b.read_to_end(&mut d).is_ok() && same(&d, &body), "P11.body"); } None => check!(nb == 0, "P11.converted-request-body"), } }
    }
});
/// P11, messages made from text that is not all ASCII: the bytes after the head are the text's.
/// kind 0-1: a request from a String or a &str; 2: a response; 3-4: a body put into a response
entry!(h_round_text(kind, n) {
    let free = bytes!(n, "text"); for c in free.iter() { assume_(*c < 0x80); }
    let before = ["", "\u{e9}", "\u{20ac}x", "\u{1f600}"][choose!(4, "begins")];
    let text = format!("{}{}", before, String::from_utf8(free).unwrap());
    let mut s = Sink { out: vec![] };
    let body = |b: Body| { let mut r = Response::from_status(StatusCode::OK); r.body = Some(b); r };
    let res = match kind {
        0 => Request::from(text.clone(), mime::TEXT_PLAIN, HttpMethod::POST, "/a".to_string()).write(&mut s),
        1 => Request::from(&*text.clone().leak(), mime::TEXT_PLAIN, HttpMethod::POST, "/a".to_string()).write(&mut s),
        2 => Response::from_str(&text).unwrap().write(&mut s),
        _ => body(Body::from(text.clone(), mime::TEXT_PLAIN)).write(&mut s),
    };
    check!(res.is_ok(), "P11.written");
    let Some(w) = wire(&s.out) else { fail!("P11.well-formed") };
    check!(same(&w.body, text.as_bytes()), "P11.text");
    for l in lengths(&w) { check!(l == digits(text.len() as u64), "P11.text-length"); }
    cover!("text");
});
/// P11, responses.
entry!(h_round_rsp(nv, nb, shape, kind) {
    let code = { let b = bytes!(2, "code"); (b[0] as usize) << 8 | b[1] as usize };
    assume_(code >= 100 && code <= 999);
    let v = bytes!(nv, "value"); for c in v.iter() { assume_(visible(*c)); }
    let body = bytes!(nb, "data");
    let mut r = if shape == 0 { Response::from_content(Cursor::new(body.clone()), nb as u64, KINDS[kind].parse().unwrap()) } else { let mut r = Response::from_status(StatusCode::OK); if shape == 1 { r.body = Some(Body::new(None, nb as u64, Box::new(Cursor::new(body.clone())))); } r };
    r.status = StatusCode::from(code);
    r.headers.add(Header { name: "X-One".to_string(), value: String::from_utf8(v.clone()).unwrap() });
    let mut s = Sink { out: vec![] };
    check!(r.write(&mut s).is_ok(), "P11.written");
    match Response::read_from(Cursor::new(s.out)) {
        Err(_) => fail!("P11.read-back"),
        Ok(r) => {
            let c: usize = usize::from(&r.status);
            check!(c == code, "P11.status");
            match r.headers.get("X-One") { Some(x) => check!(x.len() == 1 && same(x[0].as_bytes(), &v), "P11.header-values"), None => fail!("P11.header") }
            if shape == 0 { match r.headers.get("Content-Type") { Some(x) => check!(x.len() == 1 && x[0] == KINDS[kind], "P11.content-type"), None => fail!("P11.content-type") } }
            match r.body { Some(mut b) => { let mut d = vec![]; check!(b.read_to_end(&mut d).is_ok() && same(&d, &body), "P11.body"); } None => check!(nb == 0 || shape == 2, "P11.body") }
            cover!("round trip");
        }
    }
});

// ---- tables -----------------------------------------------------------
const NAMED: &[(u16, &str)] = &[(100, "Continue"), (101, "Switching Protocols"), (200, "OK"), (201, "Created"), (202, "Accepted"), (203, "Non-Authoritative Information"), (204, "No Content"), (205, "Reset Content"), (206, "Partial Content"), (300, "Multiple Choices"), (301, "Moved Permanently"), (302, "Found"), (303, "See Other"), (304, "Not Modified"), (305, "Use Proxy"), (307, "Temporary Redirect"), (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"), (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"), (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Time-out"), (409, "Conflict"), (410, "Gone"), (411, "Length Required"), (412, "Precondition Failed"), (413, "Request Entity Too Large"), (414, "Request-URI Too Large"), (415, "Unsupported Media Type"), (416, "Requested range not satisfiable"), (417, "Expectation Failed"), (500, "Internal Server Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"), (504, "Gateway Time-out"), (505, "HTTP Version not supported")];
/// P12: any machine number converts to a status and back.
entry!(h_status_number() {
    let b = bytes!(8, "number"); let mut n = 0u64; for c in b.iter() { n = n << 8 | *c as u64; }
    let s = StatusCode::from(n as usize);
    let back: usize = usize::from(&s);
    check!(back as u64 == n, "P12.status-round-trip");
    let c = s.clone(); let back2: usize = usize::from(&c);
    check!(back2 as u64 == n, "P12.status-clone");
    check!(c == s, "P12.status-equal");
    cover!("status");
});
/// P12: two numbers give equal statuses exactly when they are equal.
entry!(h_status_distinct() {
    let b = bytes!(4, "numbers"); let (n, m) = ((b[0] as usize) << 8 | b[1] as usize, (b[2] as usize) << 8 | b[3] as usize);
    let equal = StatusCode::from(n) == StatusCode::from(m);
    check!(equal == (n == m), "P12.status-distinct");
    cover!("status");
});
/// P12: the printed form starts with the number.
entry!(h_status_text(lo, hi) {
    let b = bytes!(2, "number"); let n = (b[0] as usize) << 8 | b[1] as usize; assume_(n >= lo && n <= hi);
    let t = StatusCode::from(n).to_string();
    let d = digits(n as u64);
    check!(t.len() > d.len() && same(&t.as_bytes()[..d.len()], &d) && t.as_bytes()[d.len()] == b' ', "P12.status-text");
    check!(!t.contains('\r') && !t.contains('\n'), "P12.status-one-line");
    let rest = &t.as_bytes()[d.len() + 1..];
    for (c, r) in NAMED { if *c as usize == n { cover!("named"); check!(rest == r.as_bytes(), "P12.reason"); } }
    cover!("printed");
});
/// P12: methods and versions parse exactly from their own text.
entry!(h_table_text(what, n) {
    let b = bytes!(n, "text");
    for c in b.iter() { assume_(*c < 0x80); }
    let s = String::from_utf8(b).unwrap();
    if what == 0 {
        let known = METHODS.iter().any(|m| *m == s);
        match HttpMethod::from_str(&s) {
            Ok(m) => { cover!("accepted"); check!(known, "P12.method-known"); check!(m.to_string() == s, "P12.method-text");
                for i in 0..9 { check!((METHOD_VALUES[i] == m) == (METHODS[i] == s), "P12.method-distinct"); } }
            Err(_) => { cover!("refused"); check!(!known, "P12.method-accepted"); }
        }
    } else {
        let known = ["HTTP/1.0", "HTTP/1.1", "HTTP/2"].contains(&s.as_str());
        match Version::from_str(&s) {
            Ok(v) => { cover!("accepted"); check!(known, "P12.version-known"); check!(v.to_string() == s, "P12.version-text"); }
            Err(_) => { cover!("refused"); check!(!known, "P12.version-accepted"); }
        }
    }
});
entry!(h_table_values() {
    for i in 0..9 { check!(METHOD_VALUES[i].to_string() == METHODS[i], "P12.method-prints"); match HttpMethod::from_str(METHODS[i]) { Ok(m) => check!(m == METHOD_VALUES[i] && m as usize == METHOD_VALUES[i] as usize, "P12.method-parses"), Err(_) => fail!("P12.method-parses") } }
    for (v, t) in [(Version::HTTP1_0, "HTTP/1.0"), (Version::HTTP1_1, "HTTP/1.1"), (Version::HTTP2, "HTTP/2")] { check!(v.to_string() == t, "P12.version-prints"); match Version::from_str(t) { Ok(x) => check!(x == v, "P12.version-parses"), Err(_) => fail!("P12.version-parses") } }
    check!(HttpMethod::get_last() as usize == (0..9).map(|i| METHOD_VALUES[i] as usize).max().unwrap(), "P12.method-last");
    cover!("values");
});
