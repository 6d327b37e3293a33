// Path conditions and the Z3 back end.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;
type Z = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> Z; fn Z3_set_param_value(c: Z, a: *const c_char, b: *const c_char);
    fn Z3_mk_context(c: Z) -> Z; fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z; fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z; fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_not(c: Z, a: Z) -> Z; fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z; fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z; fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, l: Z) -> Z; fn Z3_mk_simple_solver(c: Z) -> Z; fn Z3_solver_inc_ref(c: Z, s: Z); fn Z3_solver_reset(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z); fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z); fn Z3_solver_check(c: Z, s: Z) -> c_int; fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z); fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, compl: bool, out: *mut Z) -> bool; fn Z3_get_numeral_uint64(c: Z, v: Z, out: *mut u64) -> bool;
    fn Z3_mk_params(c: Z) -> Z; fn Z3_params_inc_ref(c: Z, p: Z); fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint); fn Z3_solver_set_params(c: Z, s: Z, p: Z);
}
#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub domain: u64, pub cached: u64, pub confirmed: u64, pub model_hits: u64, pub z3_time: f64, pub max_query: f64 }
type Key = (Vec<Ex>, Vec<(u32, [u64; 4])>);
type Answer = Option<Option<Vec<(u32, u8)>>>;
pub struct Solver { ctx: Z, s: Z, tr: HashMap<Ex, Z>, pub st: Stats, cache: HashMap<Key, Answer>, doms: HashMap<(u32, [u64; 4]), Z>, pub force: bool, pub trust: bool }
#[derive(Clone)]
pub struct Pc {
    pub dom: Rc<Vec<[u64; 4]>>,
    pub cons: Rc<Vec<Ex>>,
    pub entangled: Rc<Vec<bool>>,
    pub model: Rc<Vec<u8>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat { Yes, No, Unknown }
const FULL: [u64; 4] = [!0; 4];
fn band(a: [u64; 4], b: [u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn bempty(a: &[u64; 4]) -> bool { a.iter().all(|x| *x == 0) }
fn bfirst(a: &[u64; 4]) -> u8 { for i in 0..4 { if a[i] != 0 { return (i * 64) as u8 + a[i].trailing_zeros() as u8; } } 0 }
fn bhas(a: &[u64; 4], v: u8) -> bool { a[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
impl Pc {
    pub fn new() -> Pc { Pc { dom: Rc::new(vec![]), cons: Rc::new(vec![]), entangled: Rc::new(vec![]), model: Rc::new(vec![]) } }
    pub fn ensure(&mut self, v: u32) {
        if self.dom.len() <= v as usize {
            Rc::make_mut(&mut self.dom).resize(v as usize + 1, FULL);
            Rc::make_mut(&mut self.entangled).resize(v as usize + 1, false);
            Rc::make_mut(&mut self.model).resize(v as usize + 1, 0);
        }
    }
    fn mv(&self, v: u32) -> u8 { self.model.get(v as usize).cloned().unwrap_or(0) }
    pub fn domain(&self, v: u32) -> [u64; 4] { self.dom.get(v as usize).cloned().unwrap_or(FULL) }
    pub fn eval(&self, e: Ex) -> u128 { eval(e, &|v| self.mv(v)) }
    /// Assert c (known satisfiable together with the rest; `m` is a model update proving it).
    fn add(&mut self, c: Ex) {
        if konst(c).is_some() { return; }
        let n = node(c);
        if n.op == Op::And && n.w == 1 { self.add(n.a); self.add(n.b); return; }
        if n.op == Op::Xor && konst(n.b) == Some(1) { let i = node(n.a); if i.op == Op::Or { let x = not(i.a); let y = not(i.b); self.add(x); self.add(y); return; } }
        if let Some(v) = single_var(c) {
            self.ensure(v);
            let d = band(self.domain(v), truth(c));
            Rc::make_mut(&mut self.dom)[v as usize] = d;
            return;
        }
        if self.cons.contains(&c) { return; }
        for v in support(c).iter() { self.ensure(*v); Rc::make_mut(&mut self.entangled)[*v as usize] = true; }
        Rc::make_mut(&mut self.cons).push(c);
    }
    fn set_model(&mut self, ups: &[(u32, u8)]) { for (v, x) in ups { self.ensure(*v); if self.mv(*v) != *x { Rc::make_mut(&mut self.model)[*v as usize] = *x; } } }
}
/// Decides a conjunction over few assignments by trying them all.
fn small(pc: &Pc, vars: &[u32], list: &[Ex]) -> Option<Vec<(u32, u8)>> {
    let doms: Vec<Vec<u8>> = vars.iter().map(|v| { let d = pc.domain(*v); (0..256).filter(|i| bhas(&d, *i as u8)).map(|i| i as u8).collect() }).collect();
    if doms.iter().any(|d| d.is_empty()) { return None; }
    let mut ix = vec![0usize; vars.len()];
    loop {
        let val = |v: u32| match vars.binary_search(&v) { Ok(p) => doms[p][ix[p]], Err(_) => 0 };
        if list.iter().all(|e| eval(*e, &val) != 0) { return Some(vars.iter().enumerate().map(|(p, v)| (*v, doms[p][ix[p]])).collect()); }
        let mut p = 0;
        loop { if p == ix.len() { return None; } ix[p] += 1; if ix[p] < doms[p].len() { break; } ix[p] = 0; p += 1; }
    }
}
/// Sets of the values an expression can take, from the sets of its operands: exact when the operands share no
/// variable and no variable occurs in another constraint, else a superset.
struct VSets<'a> { pc: &'a Pc, memo: HashMap<Ex, Option<Rc<(Vec<u128>, bool)>>>, left: u32 }
impl<'a> VSets<'a> {
    fn go(&mut self, e: Ex) -> Option<Rc<(Vec<u128>, bool)>> {
        if let Some(x) = konst(e) { return Some(Rc::new((vec![x], true))); }
        if let Some(r) = self.memo.get(&e) { return r.clone(); }
        if self.left == 0 { return None; }
        self.left -= 1;
        let r = self.make(e);
        self.memo.insert(e, r.clone());
        r
    }
    fn disjoint(a: Ex, b: Ex) -> bool { let (p, q) = (support(a), support(b)); p.iter().all(|v| q.binary_search(v).is_err()) }
    fn make(&mut self, e: Ex) -> Option<Rc<(Vec<u128>, bool)>> {
        if let Some(v) = single_var(e) {
            let t = table(e); let d = self.pc.domain(v);
            let mut out: Vec<u128> = (0..256).filter(|i| bhas(&d, *i as u8)).map(|i| t[i]).collect();
            out.sort(); out.dedup();
            return Some(Rc::new((out, !self.pc.entangled.get(v as usize).cloned().unwrap_or(false))));
        }
        let n = node(e);
        let mut out: Vec<u128> = vec![]; let exact;
        match n.op {
            Op::Const | Op::Var => return None,
            Op::Extract | Op::SExt => { let a = self.go(n.a)?; for x in a.0.iter() { out.push(eval1(&n, *x, 0, 0)); } exact = a.1; }
            Op::Ite => {
                let c = self.go(n.a)?;
                let (t, f) = (c.0.iter().any(|x| *x != 0), c.0.contains(&0));
                let ok = if t && f {
                    let (x, y) = (self.go(n.b)?, self.go(n.c)?); out.extend(x.0.iter()); out.extend(y.0.iter());
                    x.1 && y.1 && Self::disjoint(n.a, n.b) && Self::disjoint(n.a, n.c)
                } else { let x = self.go(if t { n.b } else { n.c })?; out.extend(x.0.iter()); x.1 };
                exact = c.1 && ok;
            }
            _ => {
                let (a, b) = (self.go(n.a)?, self.go(n.b)?);
                if a.0.len() * b.0.len() > 4096 { return None; }
                for x in a.0.iter() { for y in b.0.iter() { out.push(eval1(&n, *x, *y, 0)); } }
                exact = a.1 && b.1 && (a.0.len() == 1 || b.0.len() == 1 || Self::disjoint(n.a, n.b));
            }
        }
        out.sort(); out.dedup();
        if out.len() > 512 { return None; }
        Some(Rc::new((out, exact)))
    }
    /// Variables giving `e` that value (only for exact sets).
    fn witness(&mut self, e: Ex, val: u128, m: &mut Vec<(u32, u8)>) -> bool {
        if let Some(x) = konst(e) { return x == val; }
        if let Some(v) = single_var(e) {
            let t = table(e); let d = self.pc.domain(v);
            if let Some((_, x)) = m.iter().find(|p| p.0 == v) { return t[*x as usize] == val; }
            for i in 0..256 { if bhas(&d, i as u8) && t[i] == val { m.push((v, i as u8)); return true; } }
            return false;
        }
        let n = node(e);
        match n.op {
            Op::Const | Op::Var => false,
            Op::Extract | Op::SExt => { let a = match self.go(n.a) { Some(a) => a, None => return false }; for x in a.0.iter() { if eval1(&n, *x, 0, 0) == val { return self.witness(n.a, *x, m); } } false }
            Op::Ite => {
                let c = match self.go(n.a) { Some(c) => c, None => return false };
                for x in c.0.iter() { let b = if *x != 0 { n.b } else { n.c }; if let Some(s) = self.go(b) { if s.0.contains(&val) { return self.witness(n.a, *x, m) && self.witness(b, val, m); } } }
                false
            }
            _ => {
                let (a, b) = match (self.go(n.a), self.go(n.b)) { (Some(a), Some(b)) => (a, b), _ => return false };
                for x in a.0.iter() { for y in b.0.iter() { if eval1(&n, *x, *y, 0) == val { return self.witness(n.a, *x, m) && self.witness(n.b, *y, m); } } }
                false
            }
        }
    }
}
impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let l = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const c_char);
            let s = Z3_mk_solver_for_logic(ctx, l);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const c_char), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, tr: HashMap::new(), st: Stats::default(), cache: HashMap::new(), doms: HashMap::new(), force: false, trust: false }
        }
    }
    fn num(&self, v: u128, w: u16) -> Z { unsafe { let t = Z3_mk_bv_sort(self.ctx, w as c_uint); if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, v as u64, t) } else { let s = std::ffi::CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, s.as_ptr(), t) } } }
    fn tr(&mut self, e: Ex) -> Z {
        if let Some(z) = self.tr.get(&e) { return *z; }
        let n = node(e);
        let c = self.ctx;
        let z = unsafe { match n.op {
            Op::Const => self.num(n.k, n.w),
            Op::Var => { let s = std::ffi::CString::new(format!("v{}", n.k)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8)) }
            Op::Extract => { let a = self.tr(n.a); Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a) }
            Op::SExt => { let a = self.tr(n.a); Z3_mk_sign_ext(c, (n.w - width(n.a)) as c_uint, a) }
            Op::Ite => { let a = self.trb(n.a); let x = self.tr(n.b); let y = self.tr(n.c); Z3_mk_ite(c, a, x, y) }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let b = self.trb(e); let one = self.num(1, 1); let zero = self.num(0, 1); Z3_mk_ite(c, b, one, zero) }
            _ => {
                let a = self.tr(n.a); let b = self.tr(n.b);
                match n.op { Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b), Op::Concat => Z3_mk_concat(c, a, b), _ => unreachable!() }
            }
        } };
        self.tr.insert(e, z);
        z
    }
    fn trb(&mut self, e: Ex) -> Z { // as z3 Bool
        let n = node(e); let c = self.ctx;
        unsafe { match n.op {
            Op::Eq => { let a = self.tr(n.a); let b = self.tr(n.b); Z3_mk_eq(c, a, b) }
            Op::Ult => { let a = self.tr(n.a); let b = self.tr(n.b); Z3_mk_bvult(c, a, b) }
            Op::Ule => { let a = self.tr(n.a); let b = self.tr(n.b); Z3_mk_bvule(c, a, b) }
            Op::Slt => { let a = self.tr(n.a); let b = self.tr(n.b); Z3_mk_bvslt(c, a, b) }
            Op::Sle => { let a = self.tr(n.a); let b = self.tr(n.b); Z3_mk_bvsle(c, a, b) }
            Op::And => { let x = [self.trb(n.a), self.trb(n.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
            Op::Or => { let x = [self.trb(n.a), self.trb(n.b)]; Z3_mk_or(c, 2, x.as_ptr()) }
            Op::Xor if konst(n.b) == Some(1) => { let a = self.trb(n.a); Z3_mk_not(c, a) }
            _ => { let a = self.tr(e); let one = self.num(1, 1); Z3_mk_eq(c, a, one) }
        } }
    }
    fn dom_z(&mut self, v: u32, d: &[u64; 4]) -> Z {
        if let Some(z) = self.doms.get(&(v, *d)) { return *z; }
        let x = self.tr(var(v)); let c = self.ctx;
        let mut parts = vec![]; let mut i = 0usize;
        while i < 256 {
            if bhas(d, i as u8) { let s = i; while i + 1 < 256 && bhas(d, (i + 1) as u8) { i += 1; }
                unsafe { if s == i { parts.push(Z3_mk_eq(c, x, self.num(s as u128, 8))); } else { let r = [Z3_mk_bvule(c, self.num(s as u128, 8), x), Z3_mk_bvule(c, x, self.num(i as u128, 8))]; parts.push(Z3_mk_and(c, 2, r.as_ptr())); } } }
            i += 1;
        }
        let z = unsafe { Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr()) };
        self.doms.insert((v, *d), z); z
    }
    /// Is pc ∧ c satisfiable?  On success gives assignments for the variables of the slice.
    /// `force` sends even one-variable questions to Z3 (used for the final property assertions).
    pub fn sat(&mut self, pc: &Pc, c: Ex, force: bool) -> (Sat, Vec<(u32, u8)>) {
        if let Some(x) = konst(c) { return (if x != 0 { Sat::Yes } else { Sat::No }, vec![]); }
        if !force && !self.force {
            if let Some(v) = single_var(c) {
                let d = band(pc.domain(v), truth(c));
                if bempty(&d) { self.st.domain += 1; return (self.confirm(pc, vec![c]), vec![]); }
                if bhas(&d, pc.mv(v)) { self.st.domain += 1; return (Sat::Yes, vec![]); }
                if !pc.entangled.get(v as usize).cloned().unwrap_or(false) { self.st.domain += 1; return (Sat::Yes, vec![(v, bfirst(&d))]); }
            } else if pc.eval(c) != 0 { self.st.model_hits += 1; return (Sat::Yes, vec![]); }
            else {
                let mut vs = VSets { pc, memo: HashMap::new(), left: 400 };
                if let Some((s, exact)) = vs.go(c).map(|x| (x.0.clone(), x.1)) {
                    if !s.contains(&1) { self.st.domain += 1; return (self.confirm(pc, vec![c]), vec![]); }
                    if exact { let mut m = vec![]; if vs.witness(c, 1, &mut m) { self.st.domain += 1; return (Sat::Yes, m); } }
                }
            }
        }
        // slice: constraints transitively sharing variables with c
        let mut vars: Vec<u32> = support(c).to_vec();
        let mut seen: std::collections::HashSet<u32> = vars.iter().cloned().collect();
        let mut used = vec![false; pc.cons.len()];
        let mut list = vec![c];
        let mut i = 0;
        let mut vs = VSets { pc, memo: HashMap::new(), left: 1500 };
        while i < vars.len() {
            let v = vars[i]; i += 1;
            if !pc.entangled.get(v as usize).cloned().unwrap_or(false) { continue; }
            for (j, k) in pc.cons.iter().enumerate() {
                if used[j] { continue; }
                let s = support(*k);
                if s.binary_search(&v).is_ok() { used[j] = true;
                    // a constraint that the domains already imply links nothing
                    if let Some(r) = vs.go(*k) { if r.0.len() == 1 && r.0[0] != 0 { continue; } }
                    list.push(*k); for w in s.iter() { if seen.insert(*w) { vars.push(*w); } } }
            }
        }
        list[1..].sort();
        vars.sort();
        if list.len() == 1 && !force && !self.force {
            if let Some(v) = single_var(c) { let d = band(pc.domain(v), truth(c)); self.st.domain += 1; return (Sat::Yes, vec![(v, bfirst(&d))]); }
        }
        let doms: Vec<(u32, [u64; 4])> = vars.iter().map(|v| (*v, pc.domain(*v))).filter(|(_, d)| *d != FULL).collect();
        let key = (list, doms);
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return match r { None => (Sat::Unknown, vec![]), Some(None) => (Sat::No, vec![]), Some(Some(m)) => (Sat::Yes, m.clone()) };
        }
        if !force && !self.force {
            let mut n: u64 = 1;
            for v in &vars { let d = pc.domain(*v); n = n.saturating_mul(d.iter().map(|x| x.count_ones() as u64).sum()); if n > 1500 { break; } }
            if n <= 1500 {
                self.st.domain += 1;
                let r = small(pc, &vars, &key.0);
                return match r {
                    None => (self.ask_no(key), vec![]),
                    Some(m) => { self.cache.insert(key, Some(Some(m.clone()))); (Sat::Yes, m) }
                };
            }
        }
        let r = self.ask(&key);
        let res = match &r { None => (Sat::Unknown, vec![]), Some(None) => (Sat::No, vec![]), Some(Some(m)) => (Sat::Yes, m.clone()) };
        if self.cache.len() > 200000 { self.cache.clear(); }
        self.cache.insert(key, r);
        res
    }
    /// The domain reasoning says that `list` has no solution within the domains; Z3 has the last word.
    fn confirm(&mut self, pc: &Pc, mut list: Vec<Ex>) -> Sat {
        if self.trust { return Sat::No; }
        let mut vars: Vec<u32> = vec![];
        for e in &list { vars.extend(support(*e).iter()); }
        vars.sort(); vars.dedup();
        list.sort();
        let doms: Vec<(u32, [u64; 4])> = vars.iter().map(|v| (*v, pc.domain(*v))).filter(|(_, d)| *d != FULL).collect();
        self.ask_no((list, doms))
    }
    fn ask_no(&mut self, key: Key) -> Sat {
        if self.trust { self.cache.insert(key, Some(None)); return Sat::No; }
        let r = match self.cache.get(&key) { Some(r) => r.clone(), None => { let r = self.ask(&key); if self.cache.len() > 200000 { self.cache.clear(); } self.cache.insert(key.clone(), r.clone()); r } };
        match r {
            Some(None) => { self.st.confirmed += 1; Sat::No }
            None => Sat::Unknown,
            Some(Some(m)) => { eprintln!("engine: the domain reasoning and Z3 disagree: {} with {:?}", key.0.iter().map(|e| show(*e, 12)).collect::<Vec<_>>().join(" ; "), m); std::process::exit(3) }
        }
    }
    fn ask(&mut self, key: &Key) -> Answer {
        let mut vars: Vec<u32> = vec![]; for e in &key.0 { vars.extend(support(*e).iter()); } for (v, _) in &key.1 { vars.push(*v); }
        vars.sort(); vars.dedup();
        if std::env::var("ENG_DUMP").is_ok() { eprintln!("--- {} vars {} constraints", vars.len(), key.0.len()); for e in &key.0 { eprintln!("  {}", show(*e, 12)); } for (v, d) in &key.1 { eprintln!("  v{} {:x?}", v, d); } }
        let t0 = Instant::now();
        self.st.queries += 1;
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.s);
            for e in &key.0 { let z = self.trb(*e); Z3_solver_assert(self.ctx, self.s, z); }
            for (v, d) in &key.1 { let z = self.dom_z(*v, d); Z3_solver_assert(self.ctx, self.s, z); }
            match Z3_solver_check(self.ctx, self.s) {
                1 => {
                    self.st.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.s); Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in &vars { let x = self.tr(var(*v)); let mut o: Z = std::ptr::null_mut(); let mut n = 0u64; Z3_model_eval(self.ctx, m, x, true, &mut o); Z3_get_numeral_uint64(self.ctx, o, &mut n); out.push((*v, n as u8)); }
                    Z3_model_dec_ref(self.ctx, m);
                    Some(Some(out))
                }
                -1 => { self.st.unsat += 1; Some(None) }
                _ => { self.st.unknown += 1; None }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.z3_time += dt; if dt > self.st.max_query { self.st.max_query = dt; }
        r
    }
    /// Assume c; returns false if infeasible.
    pub fn assume(&mut self, pc: &mut Pc, c: Ex) -> Sat {
        let (s, m) = self.sat(pc, c, false);
        if s == Sat::Yes { pc.add(c); pc.set_model(&m); debug_assert!(pc.eval(c) != 0); }
        s
    }
    pub fn add_known(&mut self, pc: &mut Pc, c: Ex, m: &[(u32, u8)]) { pc.add(c); pc.set_model(m); }
    /// `out` has every value of e, says the domain reasoning; Z3 confirms that there is no other.
    fn only(&mut self, pc: &Pc, e: Ex, out: Vec<u128>) -> Option<Vec<u128>> {
        if self.trust { return Some(out); }
        let w = width(e);
        let mut o = out.clone(); o.sort(); o.dedup();
        // not in any of the runs of neighbouring values
        let mut list = vec![]; let mut i = 0;
        while i < o.len() {
            let s = i; while i + 1 < o.len() && o[i + 1] == o[i] + 1 { i += 1; }
            if s == i { list.push(not(bin(Op::Eq, e, k(o[s], w)))); } else { list.push(not(bin(Op::And, bin(Op::Ule, k(o[s], w), e), bin(Op::Ule, e, k(o[i], w))))); }
            i += 1;
        }
        if list.iter().any(|x| konst(*x) == Some(0)) { return Some(out); }
        match self.confirm(pc, list) { Sat::No => Some(out), _ => None }
    }
    /// All feasible values of e under pc (up to limit); None when more or undecided.
    pub fn values(&mut self, pc: &Pc, e: Ex, limit: usize) -> Option<Vec<u128>> {
        if let Some(x) = konst(e) { return Some(vec![x]); }
        if let Some(v) = single_var(e) {
            if !pc.entangled.get(v as usize).cloned().unwrap_or(false) {
                let t = table(e); let d = pc.domain(v);
                let mut out: Vec<u128> = (0..256).filter(|i| bhas(&d, *i as u8)).map(|i| t[i]).collect();
                out.sort(); out.dedup();
                if out.len() > limit { return None; } return self.only(pc, e, out);
            }
        }
        {
            let mut vs = VSets { pc, memo: HashMap::new(), left: 400 };
            if let Some(r) = vs.go(e) { if r.1 { if r.0.len() > limit { return None; } let o = r.0.clone(); return self.only(pc, e, o); } }
        }
        let mut out = vec![];
        let w = width(e);
        let mut p = pc.clone();
        loop {
            let v = p.eval(e);
            out.push(v);
            if out.len() > limit { return None; }
            let ne = not(bin(Op::Eq, e, k(v, w)));
            match self.assume(&mut p, ne) { Sat::Yes => {} Sat::No => break, Sat::Unknown => return None }
        }
        out.sort();
        Some(out)
    }
}
