// Hash-consed bit-vector expressions with eager simplification.
use std::collections::HashMap;
use std::rc::Rc;
pub type Ex = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Concat, Extract, SExt, Ite, Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: Ex, pub b: Ex, pub c: Ex, pub k: u128 }
pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<u32>, // support-set id
    map: HashMap<Node, Ex>,
    pub sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Rc<Vec<u32>>, u32>,
    unions: HashMap<(u32, u32), u32>,
    pub tables: HashMap<Ex, Rc<[u128; 256]>>,
    pub truth: HashMap<Ex, [u64; 4]>,
    stamp: Vec<u32>, memo: Vec<u128>, gen: u32,
    pub nvars: u32,
}
static mut AR: *mut Arena = std::ptr::null_mut();
#[inline] pub fn ar() -> &'static mut Arena { unsafe { &mut *AR } }
pub fn init() {
    let a = Box::new(Arena { nodes: vec![], sup: vec![], map: HashMap::new(), sets: vec![Rc::new(vec![])], setmap: HashMap::new(), unions: HashMap::new(), tables: HashMap::new(), truth: HashMap::new(), stamp: vec![], memo: vec![], gen: 0, nvars: 0 });
    unsafe { AR = Box::into_raw(a); }
    ar().setmap.insert(Rc::new(vec![]), 0);
    // id 0 is reserved ("concrete" in memory overlays)
    intern(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
}
#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn node(e: Ex) -> Node { ar().nodes[e as usize] }
#[inline] pub fn width(e: Ex) -> u16 { ar().nodes[e as usize].w }
#[inline] pub fn konst(e: Ex) -> Option<u128> { let n = &ar().nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
pub fn sext_to_i128(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }
fn set_union(a: u32, b: u32) -> u32 {
    if a == b || b == 0 { return a; } if a == 0 { return b; }
    let key = if a < b { (a, b) } else { (b, a) };
    let r = ar();
    if let Some(x) = r.unions.get(&key) { return *x; }
    let mut v: Vec<u32> = r.sets[a as usize].iter().chain(r.sets[b as usize].iter()).cloned().collect();
    v.sort(); v.dedup();
    let id = set_id(v);
    ar().unions.insert(key, id);
    id
}
fn set_id(v: Vec<u32>) -> u32 {
    let r = ar(); let rc = Rc::new(v);
    if let Some(x) = r.setmap.get(&rc) { return *x; }
    let id = r.sets.len() as u32; r.sets.push(rc.clone()); r.setmap.insert(rc, id); id
}
pub fn support(e: Ex) -> Rc<Vec<u32>> { let r = ar(); r.sets[r.sup[e as usize] as usize].clone() }
#[inline] pub fn single_var(e: Ex) -> Option<u32> { let r = ar(); let s = &r.sets[r.sup[e as usize] as usize]; if s.len() == 1 { Some(s[0]) } else { None } }
fn intern(n: Node) -> Ex {
    let r = ar();
    if let Some(x) = r.map.get(&n) { return *x; }
    let id = r.nodes.len() as Ex;
    let sup = match n.op {
        Op::Const => 0,
        Op::Var => set_id(vec![n.k as u32]),
        Op::Extract | Op::SExt => r.sup[n.a as usize],
        Op::Ite => { let x = set_union(r.sup[n.a as usize], r.sup[n.b as usize]); set_union(x, ar().sup[n.c as usize]) }
        _ => set_union(r.sup[n.a as usize], r.sup[n.b as usize]),
    };
    let r = ar();
    r.nodes.push(n); r.sup.push(sup); r.stamp.push(0); r.memo.push(0); r.map.insert(n, id);
    id
}
pub fn k(v: u128, w: u16) -> Ex { intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
pub fn new_var() -> (Ex, u32) { let id = ar().nvars; ar().nvars += 1; (intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 }), id) }
pub fn var(id: u32) -> Ex { if id >= ar().nvars { ar().nvars = id + 1; } intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 }) }
fn n2(op: Op, w: u16, a: Ex, b: Ex) -> Ex { intern(Node { op, w, a, b, c: 0, k: 0 }) }
fn cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }
pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b }, Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (sext_to_i128(a, w) >> s) as u128 }
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sext_to_i128(a, w) < sext_to_i128(b, w)) as u128, Op::Sle => (sext_to_i128(a, w) <= sext_to_i128(b, w)) as u128,
        _ => unreachable!(),
    }) & if cmp(op) { 1 } else { m }
}
fn ite_const(e: Ex) -> Option<(Ex, u128, u128)> {
    let n = node(e);
    if n.op == Op::Ite { if let (Some(x), Some(y)) = (konst(n.b), konst(n.c)) { return Some((n.a, x, y)); } }
    None
}
/// Binary operation; operand width = width(a).  Comparisons yield width 1.
pub fn bin(op: Op, a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?}", op);
    let rw = if cmp(op) { 1 } else { w };
    let (ka, kb) = (konst(a), konst(b));
    if let (Some(x), Some(y)) = (ka, kb) { return k(fold(op, w, x, y), rw); }
    // constants to the right for commutative operators
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        if ka.is_some() { return bin(op, b, a); }
        if kb.is_none() && a > b { return bin(op, b, a); }
    }
    if let Some(y) = kb {
        if let Some((c, p, q)) = ite_const(a) { let x1 = k(fold(op, w, p, y), rw); let x2 = k(fold(op, w, q, y), rw); return ite(c, x1, x2); }
    } else if let Some(x) = ka {
        if let Some((c, p, q)) = ite_const(b) { let x1 = k(fold(op, w, x, p), rw); let x2 = k(fold(op, w, x, q), rw); return ite(c, x1, x2); }
    }
    let m = mask(w);
    match op {
        Op::Add => {
            if kb == Some(0) { return a; }
            if let Some(y) = kb { let n = node(a); if n.op == Op::Add { if let Some(z) = konst(n.b) { return bin(Op::Add, n.a, k(y.wrapping_add(z), w)); } } }
            let (na, nb) = (node(a), node(b));
            if kb.is_none() { // float constants outward
                if na.op == Op::Add { if let Some(_) = konst(na.b) { let i = bin(Op::Add, na.a, b); return bin(Op::Add, i, na.b); } }
                if nb.op == Op::Add { if let Some(_) = konst(nb.b) { let i = bin(Op::Add, a, nb.a); return bin(Op::Add, i, nb.b); } }
                if na.op == Op::Sub && na.b == b { return na.a; }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
            }
            n2(op, w, a, b)
        }
        Op::Sub => {
            if a == b { return k(0, w); }
            if let Some(y) = kb { return bin(Op::Add, a, k((!y).wrapping_add(1), w)); }
            let (na, nb) = (node(a), node(b));
            if na.op == Op::Add && na.a == b { return na.b; }
            if na.op == Op::Add && na.b == b { return na.a; }
            if nb.op == Op::Add && konst(nb.b).is_some() { let i = bin(Op::Sub, a, nb.a); return bin(Op::Sub, i, nb.b); }
            if na.op == Op::Add && konst(na.b).is_some() { let i = bin(Op::Sub, na.a, b); return bin(Op::Add, i, na.b); }
            n2(op, w, a, b)
        }
        Op::Mul => {
            if let Some(y) = kb { if y == 0 { return b; } if y == 1 { return a; } if y.is_power_of_two() { return bin(Op::Shl, a, k(y.trailing_zeros() as u128, w)); } }
            n2(op, w, a, b)
        }
        Op::UDiv => { if let Some(y) = kb { if y == 1 { return a; } if y.is_power_of_two() { return bin(Op::LShr, a, k(y.trailing_zeros() as u128, w)); } } n2(op, w, a, b) }
        Op::URem => { if let Some(y) = kb { if y == 1 { return k(0, w); } if y.is_power_of_two() { return bin(Op::And, a, k(y - 1, w)); } } n2(op, w, a, b) }
        Op::SDiv | Op::SRem => n2(op, w, a, b),
        Op::And | Op::Or | Op::Xor => {
            if a == b { return if op == Op::Xor { k(0, w) } else { a }; }
            if let Some(y) = kb {
                if op == Op::And { if y == 0 { return b; } if y == m { return a; } }
                if op == Op::Or { if y == 0 { return a; } if y == m { return b; } }
                if op == Op::Xor { if y == 0 { return a; } }
                let n = node(a);
                if n.op == op { if let Some(z) = konst(n.b) { return bin(op, n.a, k(fold(op, w, y, z), w)); } }
                if n.op == Op::Concat { let lw = width(n.b); let h = bin(op, n.a, k(y >> lw, w - lw)); let l = bin(op, n.b, k(y & mask(lw), lw)); return concat(h, l); }
                if op == Op::And && w > 1 {
                    // split off constant-zero ends so that masks become extracts
                    let tz = y.trailing_zeros() as u16;
                    if tz > 0 { let hi = extract(a, tz, w - tz); let h = bin(op, hi, k(y >> tz, w - tz)); return concat(h, k(0, tz)); }
                    let to = (!y).trailing_zeros() as u16; // low ones
                    if to < w && (y >> to) == 0 { let l = extract(a, 0, to); return zext(l, w); }
                }
                if op == Op::Xor && w == 1 { // not
                    if n.op == Op::Xor && konst(n.b) == Some(1) { return n.a; }
                    if n.op == Op::Ult { return bin(Op::Ule, n.b, n.a); }
                    if n.op == Op::Ule { return bin(Op::Ult, n.b, n.a); }
                    if n.op == Op::Slt { return bin(Op::Sle, n.b, n.a); }
                    if n.op == Op::Sle { return bin(Op::Slt, n.b, n.a); }
                    if n.op == Op::Ite { let x = bin(Op::Xor, n.b, b); let y = bin(Op::Xor, n.c, b); return ite(n.a, x, y); }
                }
            } else {
                let (na, nb) = (node(a), node(b));
                if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) { let h = bin(op, na.a, nb.a); let l = bin(op, na.b, nb.b); return concat(h, l); }
                let zside = |n: &Node| n.op == Op::Concat && (konst(n.a) == Some(0) || konst(n.b) == Some(0));
                if zside(&na) { let lw = width(na.b); let bh = extract(b, lw, w - lw); let bl = extract(b, 0, lw); let h = bin(op, na.a, bh); let l = bin(op, na.b, bl); return concat(h, l); }
                if zside(&nb) { let lw = width(nb.b); let ah = extract(a, lw, w - lw); let al = extract(a, 0, lw); let h = bin(op, ah, nb.a); let l = bin(op, al, nb.b); return concat(h, l); }
                if w == 1 {
                    if op != Op::Xor && (not(a) == b) { return k((op == Op::Or) as u128, 1); }
                    if op == Op::And { if na.op == Op::And && (na.a == b || na.b == b) { return a; } if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; } }
                    if op == Op::Or { if na.op == Op::Or && (na.a == b || na.b == b) { return a; } if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; } }
                }
            }
            n2(op, w, a, b)
        }
        Op::Shl => {
            if let Some(y) = kb { if y == 0 { return a; } if y >= w as u128 { return k(0, w); } let y = y as u16; let l = extract(a, 0, w - y); return concat(l, k(0, y)); }
            n2(op, w, a, b)
        }
        Op::LShr => {
            if let Some(y) = kb { if y == 0 { return a; } if y >= w as u128 { return k(0, w); } let y = y as u16; let h = extract(a, y, w - y); return zext(h, w); }
            n2(op, w, a, b)
        }
        Op::AShr => {
            if let Some(y) = kb { if y == 0 { return a; } let y = if y >= w as u128 { w - 1 } else { y as u16 }; let h = extract(a, y, w - y); return sext(h, w); }
            n2(op, w, a, b)
        }
        Op::Eq => {
            if a == b { return k(1, 1); }
            if w == 1 { if let Some(y) = kb { return if y == 1 { a } else { not(a) }; } let x = bin(Op::Xor, a, b); return not(x); }
            let (na, nb) = (node(a), node(b));
            if let Some(y) = kb {
                match na.op {
                    Op::Concat => { let lw = width(na.b); let h = bin(Op::Eq, na.a, k(y >> lw, w - lw)); if konst(h) == Some(0) { return h; } let l = bin(Op::Eq, na.b, k(y & mask(lw), lw)); return bin(Op::And, h, l); }
                    Op::Add => if let Some(z) = konst(na.b) { return bin(Op::Eq, na.a, k(y.wrapping_sub(z), w)); },
                    Op::Xor => if let Some(z) = konst(na.b) { return bin(Op::Eq, na.a, k(y ^ z, w)); },
                    Op::SExt => { let iw = width(na.a); let t = y & mask(iw); if fold_sext(t, iw, w) == y { return bin(Op::Eq, na.a, k(t, iw)); } return k(0, 1); }
                    Op::Ite => { if konst(na.b).is_some() || konst(na.c).is_some() { let x = bin(Op::Eq, na.b, b); let z = bin(Op::Eq, na.c, b); return ite(na.a, x, z); } }
                    _ => {}
                }
            } else {
                if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) { let h = bin(Op::Eq, na.a, nb.a); let l = bin(Op::Eq, na.b, nb.b); return bin(Op::And, h, l); }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return bin(Op::Eq, na.a, nb.a); }
            }
            n2(op, 1, a, b)
        }
        Op::Ult | Op::Ule => {
            if a == b { return k((op == Op::Ule) as u128, 1); }
            if op == Op::Ult { if kb == Some(0) || ka == Some(m) { return k(0, 1); } if kb == Some(1) { return bin(Op::Eq, a, k(0, w)); } }
            else { if kb == Some(m) || ka == Some(0) { return k(1, 1); } if kb == Some(0) { return bin(Op::Eq, a, k(0, w)); } }
            let (na, nb) = (node(a), node(b));
            if na.op == Op::Concat && konst(na.a) == Some(0) {
                let lw = width(na.b);
                if let Some(y) = kb { return if y > mask(lw) { k(1, 1) } else { bin(op, na.b, k(y, lw)) }; }
                if nb.op == Op::Concat && konst(nb.a) == Some(0) && width(nb.b) == lw { return bin(op, na.b, nb.b); }
            }
            if nb.op == Op::Concat && konst(nb.a) == Some(0) { if let Some(x) = ka { let lw = width(nb.b); return if x > mask(lw) { k(0, 1) } else { bin(op, k(x, lw), nb.b) }; } }
            n2(op, 1, a, b)
        }
        Op::Slt | Op::Sle => {
            if a == b { return k((op == Op::Sle) as u128, 1); }
            let (na, nb) = (node(a), node(b));
            let nonneg = |e: Ex, n: &Node| -> bool { match konst(e) { Some(x) => x >> (w - 1) == 0, None => n.op == Op::Concat && matches!(konst(n.a), Some(x) if x >> (width(n.a) - 1) == 0) } };
            if nonneg(a, &na) && nonneg(b, &nb) { return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            // sign tests
            if op == Op::Slt && kb == Some(0) { return extract(a, w - 1, 1); }
            if op == Op::Slt && ka == Some(m) { let s = extract(b, w - 1, 1); return not(s); }
            if op == Op::Sle && ka == Some(0) { let s = extract(b, w - 1, 1); return not(s); }
            n2(op, 1, a, b)
        }
        _ => unreachable!(),
    }
}
fn fold_sext(v: u128, iw: u16, w: u16) -> u128 { (sext_to_i128(v, iw) as u128) & mask(w) }
pub fn not(a: Ex) -> Ex { let w = width(a); bin(Op::Xor, a, k(mask(w), w)) }
pub fn concat(h: Ex, l: Ex) -> Ex {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    if let (Some(x), Some(y)) = (konst(h), konst(l)) { if w <= 128 { return k((x << lw) | y, w); } }
    let (nh, nl) = (node(h), node(l));
    // adjacent extracts of the same value
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 { return extract(nh.a, nl.k as u16, w); }
    if nh.op == Op::Extract && nh.a == l && nh.k == lw as u128 && width(l) == lw { /* low part is the whole value: not adjacent */ }
    // right-nested canonical form: concat(concat(a,b),c) -> concat(a,concat(b,c))
    if nh.op == Op::Concat { let r = concat(nh.b, l); return concat(nh.a, r); }
    if nl.op == Op::Concat {
        if let (Some(x), Some(y)) = (konst(h), konst(nl.a)) { let cw = hw + nl_aw(&nl); if cw <= 128 { let kk = k((x << nl_aw(&nl)) | y, cw); return intern(Node { op: Op::Concat, w, a: kk, b: nl.b, c: 0, k: 0 }); } }
        let na = node(nl.a);
        if nh.op == Op::Extract && na.op == Op::Extract && nh.a == na.a && nh.k == na.k + na.w as u128 { let j = extract(nh.a, na.k as u16, hw + na.w); return concat(j, nl.b); }
    }
    intern(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
}
fn nl_aw(n: &Node) -> u16 { width(n.a) }
pub fn zext(a: Ex, w: u16) -> Ex { let aw = width(a); if aw == w { return a; } concat(k(0, w - aw), a) }
pub fn sext(a: Ex, w: u16) -> Ex {
    let aw = width(a); if aw == w { return a; }
    if let Some(x) = konst(a) { return k(fold_sext(x, aw, w), w); }
    if let Some((c, p, q)) = ite_const(a) { return ite(c, k(fold_sext(p, aw, w), w), k(fold_sext(q, aw, w), w)); }
    let n = node(a);
    if n.op == Op::Concat { if let Some(x) = konst(n.a) { if x >> (width(n.a) - 1) == 0 { return zext(a, w); } } }
    if aw == 1 { return ite(a, k(mask(w), w), k(0, w)); }
    intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
}
pub fn trunc(a: Ex, w: u16) -> Ex { extract(a, 0, w) }
pub fn extract(a: Ex, lo: u16, w: u16) -> Ex {
    let n = node(a);
    if lo == 0 && w == n.w { return a; }
    debug_assert!(lo + w <= n.w);
    match n.op {
        Op::Const => k(n.k >> lo, w),
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw { extract(n.a, lo - lw, w) } else if lo + w <= lw { extract(n.b, lo, w) }
            else { let h = extract(n.a, 0, lo + w - lw); let l = extract(n.b, lo, lw - lo); concat(h, l) }
        }
        Op::Extract => extract(n.a, n.k as u16 + lo, w),
        Op::Ite if konst(n.b).is_some() || konst(n.c).is_some() || w == 8 => { let x = extract(n.b, lo, w); let y = extract(n.c, lo, w); ite(n.a, x, y) }
        Op::And | Op::Or | Op::Xor => { let x = extract(n.a, lo, w); let y = extract(n.b, lo, w); bin(n.op, x, y) }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = extract(n.a, 0, w); let y = extract(n.b, 0, w); bin(n.op, x, y) }
        Op::SExt if lo + w <= width(n.a) => extract(n.a, lo, w),
        _ => intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 }),
    }
}
pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    if a == b { return a; }
    match konst(c) { Some(0) => return b, Some(_) => return a, None => {} }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        match (konst(a), konst(b)) {
            (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b), (Some(0), None) => { let x = not(c); return bin(Op::And, x, b); }
            (None, Some(0)) => return bin(Op::And, c, a), (None, Some(1)) => { let x = not(c); return bin(Op::Or, x, a); }
            _ => {}
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Op::Ite && nb.a == c { return ite(c, a, nb.c); }
    if nb.op == Op::Ite && nb.b == a { let cc = bin(Op::Or, c, nb.a); return ite(cc, a, nb.c); }
    if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) { let h = ite(c, na.a, nb.a); let l = ite(c, na.b, nb.b); return concat(h, l); }
    // zext'ed operand against a small constant
    if na.op == Op::Concat && konst(na.a) == Some(0) { if let Some(y) = konst(b) { let lw = width(na.b); if y <= mask(lw) { let l = ite(c, na.b, k(y, lw)); return concat(na.a, l); } } }
    if nb.op == Op::Concat && konst(nb.a) == Some(0) { if let Some(y) = konst(a) { let lw = width(nb.b); if y <= mask(lw) { let l = ite(c, k(y, lw), nb.b); return concat(nb.a, l); } } }
    let nc = node(c);
    if nc.op == Op::Xor && konst(nc.b) == Some(1) { return intern(Node { op: Op::Ite, w, a: nc.a, b, c: a, k: 0 }); }
    intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
}
pub fn eval1(n: &Node, x: u128, y: u128, z: u128) -> u128 {
    match n.op {
        Op::Const => n.k,
        Op::Concat => { let lw = width(n.b); if n.w <= 128 { (x << lw) | y } else { y } }
        Op::Extract => (x >> n.k as u32) & mask(n.w),
        Op::SExt => fold_sext(x, width(n.a), n.w),
        Op::Ite => if x != 0 { y } else { z },
        op => fold(op, width(n.a), x, y),
    }
}
/// Evaluate under a full assignment of the byte variables.
pub fn eval(e: Ex, model: &dyn Fn(u32) -> u8) -> u128 {
    ar().gen += 1;
    fn go(e: Ex, model: &dyn Fn(u32) -> u8) -> u128 {
        let r = ar();
        if r.stamp[e as usize] == r.gen { return r.memo[e as usize]; }
        let n = r.nodes[e as usize];
        let v = match n.op {
            Op::Const => return n.k,
            Op::Var => model(n.k as u32) as u128,
            Op::Extract | Op::SExt => { let x = go(n.a, model); eval1(&n, x, 0, 0) }
            Op::Ite => { if go(n.a, model) != 0 { go(n.b, model) } else { go(n.c, model) } }
            _ => { let x = go(n.a, model); let y = go(n.b, model); eval1(&n, x, y, 0) }
        };
        let r = ar(); r.stamp[e as usize] = r.gen; r.memo[e as usize] = v; v
    }
    go(e, model)
}
/// Values of a one-variable expression for all 256 values of that variable.
pub fn table(e: Ex) -> Rc<[u128; 256]> {
    if let Some(t) = ar().tables.get(&e) { return t.clone(); }
    let n = node(e);
    let mut out = Box::new([0u128; 256]);
    match n.op {
        Op::Const => { for i in 0..256 { out[i] = n.k; } }
        Op::Var => { for i in 0..256 { out[i] = i as u128; } }
        Op::Extract | Op::SExt => { let a = table(n.a); for i in 0..256 { out[i] = eval1(&n, a[i], 0, 0); } }
        Op::Ite => { let a = table(n.a); let b = table(n.b); let c = table(n.c); for i in 0..256 { out[i] = if a[i] != 0 { b[i] } else { c[i] }; } }
        _ => { let a = table(n.a); let b = table(n.b); for i in 0..256 { out[i] = eval1(&n, a[i], b[i], 0); } }
    }
    let rc: Rc<[u128; 256]> = Rc::new(*out);
    if ar().tables.len() > 20000 { ar().tables.clear(); }
    ar().tables.insert(e, rc.clone());
    rc
}
pub fn truth(e: Ex) -> [u64; 4] {
    if let Some(t) = ar().truth.get(&e) { return *t; }
    let t = table(e);
    let mut b = [0u64; 4];
    for i in 0..256 { if t[i] != 0 { b[i >> 6] |= 1 << (i & 63); } }
    ar().truth.insert(e, b);
    b
}
pub fn show(e: Ex, depth: u32) -> String {
    let n = node(e);
    if depth == 0 { return "..".into(); }
    let d = depth - 1;
    match n.op {
        Op::Const => format!("{}", n.k), Op::Var => format!("v{}", n.k),
        Op::Extract => format!("{}[{}+{}]", show(n.a, d), n.k, n.w), Op::SExt => format!("sx{}({})", n.w, show(n.a, d)),
        Op::Ite => format!("({}?{}:{})", show(n.a, d), show(n.b, d), show(n.c, d)),
        op => format!("({:?} {} {})", op, show(n.a, d), show(n.b, d)),
    }
}
