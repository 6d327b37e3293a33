// Library builtins and LLVM intrinsics.
use crate::exec::*;
use crate::expr::{self, bin, concat, extract, ite, k, konst, not, zext, Ex, Op};
use crate::ir::*;
use crate::solver::Sat;
use std::rc::Rc;

macro_rules! builtins { ($($id:ident = $n:expr => $s:expr),* $(,)?) => {
    $(#[allow(dead_code)] pub const $id: u16 = $n;)*
    fn exact(n: &str) -> Option<u16> { $( { let l: &[&str] = &$s; if l.contains(&n) { return Some($n); } } )* None }
} }
builtins! {
    B_ALLOC = 1 => ["__rust_alloc"],
    B_ALLOCZ = 2 => ["__rust_alloc_zeroed"],
    B_DEALLOC = 3 => ["__rust_dealloc"],
    B_REALLOC = 4 => ["__rust_realloc"],
    B_NOSHIM = 5 => ["__rust_no_alloc_shim_is_unstable_v2", "__rust_no_alloc_shim_is_unstable"],
    B_MALLOC = 6 => ["malloc"],
    B_CALLOC = 7 => ["calloc"],
    B_FREE = 8 => ["free"],
    B_CREALLOC = 9 => ["realloc"],
    B_MEMALIGN = 10 => ["posix_memalign"],
    B_MEMCPY = 11 => ["memcpy", "memmove"],
    B_MEMSET = 12 => ["memset"],
    B_BCMP = 13 => ["bcmp"],
    B_MEMCMP = 14 => ["memcmp"],
    B_STRLEN = 15 => ["strlen"],
    B_RAISE = 16 => ["_Unwind_RaiseException"],
    B_ABORT = 17 => ["abort"],
    B_ERRNO = 18 => ["__errno_location"],
    B_HASH = 19 => ["stub_hash"],
    B_MEMCHR = 20 => ["memchr"],
    B_RZERO = 21 => ["stub_zero"],
    B_RMEMCHR = 22 => ["stub_memchr"],
    B_RMEMRCHR = 23 => ["stub_memrchr"],
    B_SYM = 30 => ["sym_make"],
    B_ASSUME = 31 => ["sym_assume"],
    B_ASSERT = 32 => ["sym_assert"],
    B_COVER = 33 => ["sym_cover"],
    B_CHOOSE = 34 => ["sym_choose"],
    B_NOTE = 35 => ["sym_note"],
    B_FAIL = 36 => ["sym_fail"],
    B_CONC = 37 => ["sym_concrete"],
    B_TNEW = 40 => ["__eng_thread_new"],
    B_TSWITCH = 41 => ["__eng_switch"],
    B_TSELF = 42 => ["__eng_self"],
    B_END = 43 => ["__eng_end"],
    B_NOP = 44 => ["_Unwind_DeleteException", "__eng_thread_exit_native"],
    B_EXIT = 45 => ["__eng_exit_path"],
    B_ISSYM = 46 => ["__eng_symbolic"],
    B_CXXFINAL = 47 => ["_Unwind_Backtrace", "_Unwind_GetIP", "_Unwind_GetCFA"],
}
/// Functions whose bodies are replaced before optimisation (by substring of the mangled name).
pub fn stub_for(n: &str) -> Option<&'static str> {
    if n.contains("hash_one") { return Some("stub_hash"); }
    if n.contains("memchr14memchr_aligned") || n.contains("memchr7memchr_") && n.contains("aligned") { return Some("stub_memchr"); }
    if n.contains("6memchr7memrchr") && n.contains("4core5slice") { return Some("stub_memrchr"); }
    None
}
pub fn lookup(n: &str) -> Option<u16> {
    if let Some(b) = exact(n) { return Some(b); }
    if let Some(r) = n.strip_prefix("stub_") { if let Some((base, _)) = r.split_once('$') { return exact(&format!("stub_{}", base)); } }
    None
}
type R<T> = Result<T, Stop>;

impl Engine {
    fn c64(&mut self, st: &mut State, v: &V) -> R<u64> { self.conc(st, v) }
    fn byte(&self, st: &State, a: u64) -> R<Ex> { let v = self.read_bytes_v(st, a, 1)?; Ok(self.ex(&v, 8)) }
    fn note(&self, st: &mut State, s: String) { let n = Rc::make_mut(&mut st.notes); n.push(s); if n.len() > 400 { n.remove(0); } }
    fn compare(&mut self, st: &State, a: u64, b: u64, n: u64, eq_only: bool) -> R<V> {
        // every byte must be in bounds on both sides (as in C)
        let mut r = k(0, 32);
        for i in (0..n).rev() {
            let x = self.byte(st, a + i)?; let y = self.byte(st, b + i)?;
            let e = bin(Op::Eq, x, y);
            if eq_only { r = ite(e, r, k(1, 32)); }
            else { let lt = bin(Op::Ult, x, y); let d = ite(lt, k(0xffff_ffff, 32), k(1, 32)); r = ite(e, r, d); }
        }
        Ok(self.val(r))
    }
    pub fn builtin_call(&mut self, st: &mut State, b: u16, a: &[V], c: &'static Call) -> R<Option<V>> {
        let one = |v: u64| Ok(Some(V::C(v)));
        match b {
            B_ALLOC | B_ALLOCZ | B_MALLOC => { let n = self.c64(st, &a[0])?; if n > self.cfg.max_alloc { return Err(Stop::Err(format!("allocation of {} bytes", n))); } let p = self.alloc(st, n); one(p) }
            B_CALLOC => { let n = self.c64(st, &a[0])?; let m = self.c64(st, &a[1])?; let p = self.alloc(st, n * m); one(p) }
            B_DEALLOC | B_FREE => { let p = self.c64(st, &a[0])?; self.free(st, p)?; one(0) }
            B_REALLOC | B_CREALLOC => {
                let p = self.c64(st, &a[0])?; let n = self.c64(st, &a[if b == B_REALLOC { 3 } else { 1 }])?;
                if n > self.cfg.max_alloc { return Err(Stop::Err(format!("allocation of {} bytes", n))); }
                let q = self.alloc(st, n);
                if p != 0 { let old = self.size_of(st, p); self.memcpy(st, q, p, old.min(n))?; self.free(st, p)?; }
                one(q)
            }
            B_MEMALIGN => { let pp = self.c64(st, &a[0])?; let n = self.c64(st, &a[2])?; let p = self.alloc(st, n); self.write_bytes_v(st, pp, 8, &V::C(p))?; one(0) }
            B_NOSHIM | B_NOP => one(0),
            B_RZERO => Ok(Some(match &*c.rty { Ty::Void => V::C(0), t => self.p.zero(t) })),
            B_MEMCPY => { let n = self.c64(st, &a[2])?; let d = self.c64(st, &a[0])?; let s = self.c64(st, &a[1])?; self.memcpy(st, d, s, n)?; one(d) }
            B_MEMSET => { let d = self.c64(st, &a[0])?; let n = self.c64(st, &a[2])?; self.memset(st, d, &a[1], n)?; one(d) }
            B_BCMP | B_MEMCMP => { let n = self.c64(st, &a[2])?; let p = self.c64(st, &a[0])?; let q = self.c64(st, &a[1])?; Ok(Some(self.compare(st, p, q, n, b == B_BCMP)?)) }
            B_STRLEN => { let p = self.c64(st, &a[0])?; let mut i = 0; loop { let x = self.byte(st, p + i)?; let z = bin(Op::Eq, x, k(0, 8)); if self.decide(st, z)? { break; } i += 1; } one(i) }
            B_MEMCHR => { let p = self.c64(st, &a[0])?; let n = self.c64(st, &a[2])?; let w = self.ex(&a[1], 32); let w = extract(w, 0, 8);
                let mut r = k(0, 64); for i in (0..n).rev() { let x = self.byte(st, p + i)?; let e = bin(Op::Eq, x, w); r = ite(e, k((p + i) as u128, 64), r); } Ok(Some(self.val(r))) }
            B_RMEMCHR | B_RMEMRCHR => {
                // core::slice::memchr::{memchr_aligned,memrchr}(x: u8, text: &[u8]) -> Option<usize>
                let w = self.ex(&a[0], 8); let p = self.c64(st, &a[1])?; let n = self.c64(st, &a[2])?;
                let mut found = k(0, 64); let mut idx = k(0, 64);
                let order: Vec<u64> = if b == B_RMEMCHR { (0..n).rev().collect() } else { (0..n).collect() };
                for i in order { let x = self.byte(st, p + i)?; let e = bin(Op::Eq, x, w); found = ite(e, k(1, 64), found); idx = ite(e, k(i as u128, 64), idx); }
                Ok(Some(V::agg(vec![self.val(found), self.val(idx)])))
            }
            B_RAISE => {
                let e = self.c64(st, &a[0])?; let h = self.here(st);
                self.note(st, format!("panic raised: {}", h));
                if self.raise(st, e) { Ok(None) } else { one(5) }
            }
            B_CXXFINAL => one(0),
            B_ABORT => Err(Stop::Err("abort".into())),
            B_ERRNO => {
                let cur = st.cur as u32;
                let id = match st.th[st.cur].tls.get(&(u32::MAX)) { Some(i) => *i, None => { let p = self.alloc(st, 8); let id = (p >> 32) as u32; st.th[cur as usize].tls.insert(u32::MAX, id); id } };
                one(addr(id, 0))
            }
            B_HASH => one(0x1234_5678_9abc_def0),
            B_SYM => {
                let p = self.c64(st, &a[0])?; let n = self.c64(st, &a[1])?; let np = self.c64(st, &a[2])?; let nm = self.cstr(st, np)?;
                let mut vs = vec![];
                for i in 0..n { let v = self.fresh(st); vs.push(v); let e = expr::var(v); self.write_bytes_v(st, p + i, 1, &V::E(e))?; }
                Rc::make_mut(&mut st.inputs).push((nm, vs));
                one(0)
            }
            B_ASSUME => {
                let e = self.boolean(&a[0], c.argw[0]);
                if let Some(x) = konst(e) { return if x != 0 { one(0) } else { Err(Stop::Silent) }; }
                match self.sv.assume(&mut st.pc, e) { Sat::Yes => one(0), Sat::No => Err(Stop::Silent), Sat::Unknown => { self.incomplete.push("solver gave up on an assumption".into()); Err(Stop::Silent) } }
            }
            B_ASSERT => {
                let e = self.boolean(&a[0], c.argw[0]);
                let p = self.c64(st, &a[1])?; let id = self.cstr(st, p)?;
                if self.cfg.foreign(&id) { return one(0); }
                self.asserts += 1; *self.assert_ids.entry(id.clone()).or_default() += 1;
                if let Some(x) = konst(e) {
                    if x != 0 { return one(0); }
                    let h = self.here(st); self.violation(st, &id, &h, None);
                    return Err(Stop::Silent);
                }
                self.assert_q += 1;
                let ne = not(e);
                match self.sv.sat(&st.pc, ne, true) {
                    (Sat::Yes, m) => {
                        let h = self.here(st);
                        let mut model = st.pc.model.to_vec();
                        for (v, x) in &m { if model.len() <= *v as usize { model.resize(*v as usize + 1, 0); } model[*v as usize] = *x; }
                        self.violation(st, &id, &h, Some(&model));
                        match self.sv.assume(&mut st.pc, e) { Sat::Yes => one(0), _ => Err(Stop::Silent) }
                    }
                    (Sat::No, _) => one(0),
                    _ => { self.incomplete.push(format!("solver gave up on assertion {}", id)); one(0) }
                }
            }
            B_COVER => { let p = self.c64(st, &a[0])?; let id = self.cstr(st, p)?; *self.covers.entry(id).or_default() += 1; one(0) }
            B_CHOOSE => {
                let n = self.c64(st, &a[0])?; let p = self.c64(st, &a[1])?; let nm = self.cstr(st, p)?;
                // the choice is a symbolic byte, made concrete by forking on its feasible values
                let key = (st.th[st.cur].frames.len(), st.th[st.cur].frames.last().unwrap().ip);
                let e = match st.pending { Some((kk, v)) if kk == key => v, _ => {
                    let v = self.fresh(st); let e = expr::var(v);
                    Rc::make_mut(&mut st.inputs).push((nm, vec![v]));
                    let lt = bin(Op::Ult, e, k(n as u128, 8));
                    if self.sv.assume(&mut st.pc, lt) != Sat::Yes { return Err(Stop::Silent); }
                    e
                } };
                st.pending = Some((key, e));
                let r = self.conc(st, &V::E(e))?;
                st.pending = None;
                one(r)
            }
            B_CONC => { let w = c.argw[0]; let e = self.ex(&a[0], w); let v = self.val(e); let r = self.conc(st, &v)?; one(r) }
            B_NOTE => { let p = self.c64(st, &a[0])?; let s = self.cstr(st, p)?; let x = if a.len() > 1 { match &a[1] { V::C(x) => format!(" {}", *x as i64), _ => " ?".into() } } else { String::new() }; let t = st.cur; self.note(st, format!("t{} {}{}", t, s, x)); one(0) }
            B_FAIL => { let p = self.c64(st, &a[0])?; let s = self.cstr(st, p)?; if self.cfg.foreign(&s) { return Err(Stop::Silent); } *self.assert_ids.entry(s.clone()).or_default() += 1; Err(Stop::Err(s)) }
            B_TNEW => {
                let f = self.c64(st, &a[0])?; let id = (f >> 32) as u32;
                if id < FUNC_BASE || (id - FUNC_BASE) as usize >= self.p.funcs.len() { return Err(Stop::Err("memory: thread start routine".into())); }
                let t = self.new_thread(st, id - FUNC_BASE, a[1].clone())?;
                one(t)
            }
            B_TSWITCH => {
                let t = self.c64(st, &a[0])? as usize;
                if t >= st.th.len() { return Err(Stop::Err("engine: switch".into())); }
                self.ret_to(st, V::C(0))?;
                self.switches += 1;
                st.cur = t;
                Ok(None)
            }
            B_TSELF => one(st.cur as u64),
            B_END => Err(Stop::End),
            B_EXIT => Err(Stop::Silent),
            B_ISSYM => one(1),
            _ => Err(Stop::Err(format!("engine: builtin {}", b))),
        }
    }
    pub fn boolean(&self, v: &V, w: u16) -> Ex { let e = self.ex(v, w); let z = bin(Op::Eq, e, k(0, w)); not(z) }
    pub fn fresh(&mut self, st: &mut State) -> u32 { let v = st.nvars; st.nvars += 1; st.pc.ensure(v); v }
    pub fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let b = match v { V::C(x) => V::C(x & 255), V::E(e) => { let w = expr::width(*e); self.val(if w > 8 { extract(*e, 0, 8) } else { *e }) } _ => V::C(0) };
        self.fill(st, d, n, &b)
    }
    pub fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], c: &'static Call) -> R<V> {
        let n = &n[5..];
        let w0 = c.argw.get(0).cloned().unwrap_or(0);
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let len = self.conc(st, &a[2])?; if len == 0 { return Ok(V::C(0)); }
            let d = self.conc(st, &a[0])?; let s = self.conc(st, &a[1])?; self.memcpy(st, d, s, len)?; return Ok(V::C(0));
        }
        if n.starts_with("memset") { let len = self.conc(st, &a[2])?; if len == 0 { return Ok(V::C(0)); } let d = self.conc(st, &a[0])?; self.memset(st, d, &a[1], len)?; return Ok(V::C(0)); }
        if n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("experimental.noalias") || n.starts_with("donothing") || n.starts_with("dbg") || n.starts_with("prefetch") || n.starts_with("x86.sse2.pause") || n.starts_with("stackrestore") || n.starts_with("invariant.end") { return Ok(V::C(0)); }
        if n.starts_with("invariant.start") || n.starts_with("stacksave") { return Ok(V::C(0)); }
        if n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip.invariant") || n.starts_with("ssa.copy") || n.starts_with("annotation") { return Ok(a[0].clone()); }
        if n.starts_with("is.constant") { return Ok(V::C(0)); }
        if n.starts_with("objectsize") { return Ok(V::C(if let V::C(1) = a[1] { 0 } else { !0 })); }
        if n.starts_with("trap") || n.starts_with("ubsantrap") || n.starts_with("debugtrap") { return Err(Stop::Err("trap".into())); }
        if n.starts_with("eh.typeid.for") { return Ok(V::C(1)); }
        if n.starts_with("vector.reduce.") {
            let w = w0; let l = match &a[0] { V::A(l) => l.clone(), _ => return Err(Stop::Err("engine: reduce".into())) };
            let kind = n["vector.reduce.".len()..].split('.').next().unwrap().to_string();
            let mut r = l[0].clone();
            for x in l[1..].iter() {
                r = match kind.as_str() { "add" => self.bin(B::Add, w, &r, x), "mul" => self.bin(B::Mul, w, &r, x), "or" => self.bin(B::Or, w, &r, x), "and" => self.bin(B::And, w, &r, x), "xor" => self.bin(B::Xor, w, &r, x),
                    "umax" | "umin" | "smax" | "smin" => self.minmax(&kind, w, &r, x), _ => return Err(Stop::Err(format!("unsupported: {}", n))) };
            }
            return Ok(r);
        }
        if n.starts_with("x86.sse2.pmovmskb") { let l = match &a[0] { V::A(l) => l.clone(), _ => return Err(Stop::Err("engine: pmovmskb".into())) }; let mut e = 0; for (i, x) in l.iter().enumerate() { let b = self.ex(x, 8); let b = extract(b, 7, 1); e = if i == 0 { b } else { concat(b, e) }; } let e = zext(e, 32); return Ok(self.val(e)); }
        if n.starts_with("is.fpclass") || n.starts_with("fabs") || n.starts_with("floor") || n.starts_with("ceil") { return Err(Stop::Err(format!("unsupported: {}", n))); }
        if n.starts_with("va_start") || n.starts_with("va_end") || n.starts_with("va_copy") { return Err(Stop::Err(format!("unsupported: {}", n))); }
        // element-wise on vectors
        if let Some(V::A(_)) = a.get(0) {
            if !n.contains("with.overflow") {
                let len = a.iter().find_map(|x| if let V::A(l) = x { Some(l.len()) } else { None }).unwrap();
                let mut o = vec![];
                let rw = c.rty.width();
                for i in 0..len { let xs: Vec<V> = a.iter().map(|x| if let V::A(l) = x { l[i].clone() } else { x.clone() }).collect(); o.push(self.scalar(st, n, &xs, w0, rw)?); }
                return Ok(V::agg(o));
            }
        }
        let rw = match &*c.rty { Ty::Struct(f, _) => f[0].1.width(), t => t.width() };
        self.scalar(st, n, a, w0, rw)
    }
    fn minmax(&self, kind: &str, w: u16, x: &V, y: &V) -> V {
        let p = match kind { "umax" => 34, "umin" => 36, "smax" => 38, _ => 40 };
        let c = self.cmp(p, w, x, y);
        match c { V::C(1) => x.clone(), V::C(_) => y.clone(), c => { let c = self.ex(&c, 1); let (p, q) = (self.ex(x, w), self.ex(y, w)); self.val(ite(c, p, q)) } }
    }
    fn scalar(&mut self, _st: &mut State, n: &str, a: &[V], w: u16, rw: u16) -> R<V> {
        let kind = n.split('.').next().unwrap();
        let m = expr::mask(w);
        let cv = |v: &V| -> Option<u128> { match v { V::C(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } };
        let (c0, c1) = (a.get(0).and_then(|x| cv(x)), a.get(1).and_then(|x| cv(x)));
        match kind {
            "ctpop" => { if let Some(x) = c0 { return Ok(V::big(x.count_ones() as u128, w)); } let e = self.ex(&a[0], w); let mut r = k(0, w); for i in 0..w { r = bin(Op::Add, r, zext(extract(e, i, 1), w)); } Ok(self.val(r)) }
            "ctlz" => { if let Some(x) = c0 { return Ok(V::big(if x == 0 { w as u128 } else { (x.leading_zeros() as u128) - (128 - w as u128) }, w)); } let e = self.ex(&a[0], w); let mut r = k(w as u128, w); for i in 0..w { let b = extract(e, i, 1); r = ite(b, k((w - 1 - i) as u128, w), r); } Ok(self.val(r)) }
            "cttz" => { if let Some(x) = c0 { return Ok(V::big(if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }, w)); } let e = self.ex(&a[0], w); let mut r = k(w as u128, w); for i in (0..w).rev() { let b = extract(e, i, 1); r = ite(b, k(i as u128, w), r); } Ok(self.val(r)) }
            "bswap" => { let e = self.ex(&a[0], w); let mut r = extract(e, 0, 8); for i in 1..w / 8 { r = concat(r, extract(e, i * 8, 8)); } Ok(self.val(r)) }
            "bitreverse" => { let e = self.ex(&a[0], w); let mut r = extract(e, 0, 1); for i in 1..w { r = concat(r, extract(e, i, 1)); } Ok(self.val(r)) }
            "fshl" | "fshr" => {
                let s = match cv(&a[2]) { Some(s) => (s % w as u128) as u16, None => return Err(Stop::Err("unsupported: symbolic rotate".into())) };
                let (hi, lo) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let s = if kind == "fshl" { s } else { w - s };
                let r = if s == 0 { hi } else if s == w { lo } else { concat(extract(hi, 0, w - s), extract(lo, w - s, s)) };
                Ok(self.val(r))
            }
            "umin" | "umax" | "smin" | "smax" => Ok(self.minmax(kind, w, &a[0], &a[1])),
            "abs" => { if let Some(x) = c0 { let s = expr::sext_to_i128(x, w); return Ok(V::big(s.unsigned_abs() & m, w)); } let e = self.ex(&a[0], w); let neg = bin(Op::Sub, k(0, w), e); let c = bin(Op::Slt, e, k(0, w)); Ok(self.val(ite(c, neg, e))) }
            "ucmp" | "scmp" => {
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let lt = bin(if kind == "ucmp" { Op::Ult } else { Op::Slt }, x, y); let eq = bin(Op::Eq, x, y);
                let r = ite(eq, k(0, rw), k(1, rw)); let r = ite(lt, k(expr::mask(rw), rw), r); Ok(self.val(r))
            }
            "usub" | "uadd" | "sadd" | "ssub" | "umul" | "smul" => {
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                if n.contains(".sat") {
                    let r = match kind {
                        "usub" => { let lt = bin(Op::Ult, x, y); let d = bin(Op::Sub, x, y); ite(lt, k(0, w), d) }
                        "uadd" => { let s = bin(Op::Add, x, y); let o = bin(Op::Ult, s, x); ite(o, k(m, w), s) }
                        "sadd" | "ssub" => {
                            let (r, o) = if kind == "sadd" { let s = bin(Op::Add, x, y); (s, bin(Op::And, bin(Op::Xor, x, s), bin(Op::Xor, y, s))) } else { let s = bin(Op::Sub, x, y); (s, bin(Op::And, bin(Op::Xor, x, y), bin(Op::Xor, x, s))) };
                            let end = ite(extract(x, w - 1, 1), k(1u128 << (w - 1), w), k(m >> 1, w));
                            ite(extract(o, w - 1, 1), end, r)
                        }
                        _ => return Err(Stop::Err(format!("unsupported: {}", n))),
                    };
                    return Ok(self.val(r));
                }
                let (r, o) = match kind {
                    "uadd" => { let s = bin(Op::Add, x, y); (s, bin(Op::Ult, s, x)) }
                    "usub" => (bin(Op::Sub, x, y), bin(Op::Ult, x, y)),
                    "umul" => match (c0, c1) {
                        (Some(p), Some(q)) => { let (lo, ov) = p.overflowing_mul(q); (k(lo & m, w), k((ov || lo > m) as u128, 1)) }
                        _ => {
                            let r = bin(Op::Mul, x, y);
                            let ov = match (c0, c1) { (_, Some(q)) if q != 0 => bin(Op::Ult, k(m / q, w), x), (Some(p), _) if p != 0 => bin(Op::Ult, k(m / p, w), y), (Some(_), _) | (_, Some(_)) => k(0, 1),
                                _ => if w * 2 <= 128 { let p = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w)); bin(Op::Ult, k(m, 2 * w), p) } else { return Err(Stop::Err("unsupported: wide multiply".into())) } };
                            (r, ov)
                        }
                    },
                    "sadd" => { let s = bin(Op::Add, x, y); let t = bin(Op::And, bin(Op::Xor, x, s), bin(Op::Xor, y, s)); (s, extract(t, w - 1, 1)) }
                    "ssub" => { let s = bin(Op::Sub, x, y); let t = bin(Op::And, bin(Op::Xor, x, y), bin(Op::Xor, x, s)); (s, extract(t, w - 1, 1)) }
                    _ => { let (p, q) = (expr::sext(x, 2 * w), expr::sext(y, 2 * w)); let r = bin(Op::Mul, p, q); let lo = extract(r, 0, w); let e = bin(Op::Eq, expr::sext(lo, 2 * w), r); (lo, not(e)) }
                };
                Ok(V::agg(vec![self.val(r), self.val(o)]))
            }
            "ptrmask" => Ok(self.bin(B::And, 64, &a[0], &a[1])),
            _ => Err(Stop::Err(format!("unsupported: intrinsic llvm.{}", n))),
        }
    }
}
