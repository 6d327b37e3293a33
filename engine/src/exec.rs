// The symbolic interpreter.
use crate::expr::{self, bin, concat, extract, ite, k, konst, not, sext, zext, Ex, Op};
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<Ex>>, pub freed: bool, pub ro: bool }
impl Obj { fn new(n: u64) -> Obj { Obj { data: vec![0; n as usize], sym: None, freed: false, ro: false } } }
const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;
#[derive(Clone)]
pub struct Mem { top: Rc<Vec<Rc<Vec<Chunk>>>> }
impl Mem {
    fn new() -> Mem { Mem { top: Rc::new(vec![]) } }
    #[inline] fn get(&self, i: usize) -> Option<&Rc<Obj>> { self.top.get(i / (CH * CH))?.get(i / CH % CH)?.get(i % CH)?.as_ref() }
    fn slot(&mut self, i: usize) -> &mut Option<Rc<Obj>> {
        let t = Rc::make_mut(&mut self.top);
        while t.len() <= i / (CH * CH) { t.push(Rc::new(vec![])); }
        let g = Rc::make_mut(&mut t[i / (CH * CH)]);
        while g.len() <= i / CH % CH { g.push(Rc::new(vec![])); }
        let c = Rc::make_mut(&mut g[i / CH % CH]);
        if c.len() <= i % CH { c.resize(CH, None); }
        &mut c[i % CH]
    }
}
#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub regs: Vec<V>, pub ip: u32, pub block: u32, pub sbase: u32, pub varargs: Vec<V> }
#[derive(Clone)]
pub struct Thread { pub frames: Vec<Rc<Frame>>, pub stack: Vec<Rc<Obj>>, pub tls: HashMap<u32, u32>, pub exc: u64, pub ended: bool }
#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>, pub cur: usize, pub mem: Mem, pub next: u32, pub globs: Mem,
    pub pc: Pc, pub insts: u64, pub inputs: Rc<Vec<(String, Vec<u32>)>>, pub depth: u32, pub notes: Rc<Vec<String>>, pub nvars: u32, pub pending: Option<((usize, u32), Ex)>,
}
pub enum Stop { End, Err(String), Silent }
type R<T> = Result<T, Stop>;
pub struct Cfg { pub max_insts: u64, pub time_limit: f64, pub max_paths: u64, pub verbose: bool, pub outdir: String, pub harness: String, pub args: Vec<i64>, pub trace: bool, pub known: Vec<String>, pub all: bool, pub max_alloc: u64, pub own: String, pub skip: Vec<String> }
impl Cfg {
    /// an assertion of another property, which another check decides
    pub fn foreign(&self, id: &str) -> bool {
        !self.own.is_empty() && { let named: Vec<&str> = id.split('.').take_while(|w| { let w = w.as_bytes(); w.len() == 3 && w[0] == b'P' && w[1].is_ascii_digit() && w[2].is_ascii_digit() }).collect(); !named.is_empty() && !named.contains(&self.own.as_str()) } || self.skip.iter().any(|x| id.starts_with(x.as_str()))
    }
}
pub struct Engine {
    pub p: Prog, pub cfg: Cfg, pub sv: Solver, pub work: Vec<State>, pub covers: BTreeMap<String, u64>,
    pub viols: BTreeMap<String, (String, u64)>, pub called: HashSet<u32>, pub unsupported: BTreeMap<String, u64>,
    pub paths: u64, pub ended: u64, pub insts: u64, pub forks: u64, pub incomplete: Vec<String>, pub asserts: u64, pub assert_q: u64, pub externs: BTreeSet<String>, pub samples: Vec<String>,
    pub builtin: HashMap<u32, Option<u16>>, pub start: Instant, pub profile: HashMap<u32, u64>,
    pub assert_ids: BTreeMap<String, u64>, pub max_depth: u32, pub switches: u64,
}
pub fn is_builtin(n: &str) -> bool { crate::intr::lookup(n).is_some() }
const STACK_BASE: u32 = 0x4000_0000;

impl Engine {
    // ---- values -------------------------------------------------------
    pub fn ex(&self, v: &V, w: u16) -> Ex { match v { V::C(x) => k(*x as u128, w), V::W(x) => k(**x, w), V::E(e) => *e, V::A(_) => panic!("aggregate as int") } }
    pub fn val(&self, e: Ex) -> V { let n = expr::node(e); if n.op == Op::Const { V::big(n.k, n.w) } else { V::E(e) } }
    #[inline] fn op(&self, st: &State, o: &O) -> V { match o { O::K(v) => v.clone(), O::R(r) => st.th[st.cur].frames.last().unwrap().regs[*r as usize].clone() } }
    #[inline] fn fr<'a>(&self, st: &'a mut State) -> &'a mut Frame { let t = &mut st.th[st.cur]; Rc::make_mut(t.frames.last_mut().unwrap()) }
    #[inline] fn set(&self, st: &mut State, dst: u32, v: V) { self.fr(st).regs[dst as usize] = v; }
    pub fn here(&self, st: &State) -> String { let mut s = String::new(); let t = &st.th[st.cur]; for f in t.frames.iter().rev().take(14) { s.push_str(&f.f.name); s.push_str(" < "); } s }
    // ---- decisions ----------------------------------------------------
    fn check(&mut self, st: &State, c: Ex) -> (Sat, Vec<(u32, u8)>) {
        let r = self.sv.sat(&st.pc, c, false);
        if r.0 == Sat::Unknown { self.incomplete.push(format!("solver gave up in {}", self.here(st))); }
        r
    }
    /// Decide a condition; when both outcomes are possible the other one is queued as a
    /// state that re-executes the current instruction.
    pub fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(x) = konst(c) { return Ok(x != 0); }
        let nc = not(c);
        let (t, mt) = self.check(st, c);
        let (f, mf) = if t == Sat::No { (Sat::Yes, vec![]) } else { self.check(st, nc) };
        match (t, f) {
            (Sat::Yes, Sat::Yes) => {
                self.forks += 1;
                let mut o = st.clone(); o.depth += 1;
                self.sv.add_known(&mut o.pc, nc, &mf);
                self.work.push(o);
                st.depth += 1; if st.depth > self.max_depth { self.max_depth = st.depth; }
                self.sv.add_known(&mut st.pc, c, &mt);
                Ok(true)
            }
            (Sat::Yes, _) => { if f == Sat::Unknown { self.sv.add_known(&mut st.pc, c, &mt); } Ok(true) }
            (_, Sat::Yes) => { if t == Sat::Unknown { self.sv.add_known(&mut st.pc, nc, &mf); } Ok(false) }
            _ => Err(Stop::Silent),
        }
    }
    /// Make a value concrete, exploring every feasible value.
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::E(e) => {
                let w = expr::width(*e);
                match self.sv.values(&st.pc, *e, 600) {
                    Some(vs) => {
                        if vs.is_empty() { return Err(Stop::Silent); }
                        for x in vs[1..].iter().rev() {
                            let c = bin(Op::Eq, *e, k(*x, w));
                            let mut o = st.clone(); o.depth += 1;
                            if self.sv.assume(&mut o.pc, c) == Sat::Yes { self.forks += 1; self.work.push(o); }
                        }
                        if vs.len() > 1 { let c = bin(Op::Eq, *e, k(vs[0], w)); if self.sv.assume(&mut st.pc, c) != Sat::Yes { return Err(Stop::Silent); } }
                        Ok(vs[0] as u64)
                    }
                    None => { self.incomplete.push(format!("too many values for a concrete-only operand in {}", self.here(st))); let m = st.pc.eval(*e); let c = bin(Op::Eq, *e, k(m, w)); let _ = self.sv.assume(&mut st.pc, c); Ok(m as u64) }
                }
            }
            V::A(_) => Err(Stop::Err("engine: aggregate used as integer".into())),
        }
    }
    // ---- memory -------------------------------------------------------
    pub fn alloc(&mut self, st: &mut State, n: u64) -> u64 { let id = st.next; st.next += 1; *st.mem.slot(id as usize) = Some(Rc::new(Obj::new(n))); addr(id, 0) }
    fn obj<'a>(&self, st: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        if id >= GLOB_BASE { if id >= FUNC_BASE { return None; } return st.globs.get((id - GLOB_BASE) as usize); }
        if id >= STACK_BASE { let t = ((id - STACK_BASE) >> 20) as usize; return st.th.get(t)?.stack.get((id & 0xfffff) as usize); }
        st.mem.get(id as usize)
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= GLOB_BASE { if id >= FUNC_BASE { return None; } return st.globs.slot((id - GLOB_BASE) as usize).as_mut().map(Rc::make_mut); }
        if id >= STACK_BASE { let t = ((id - STACK_BASE) >> 20) as usize; return st.th.get_mut(t)?.stack.get_mut((id & 0xfffff) as usize).map(Rc::make_mut); }
        st.mem.slot(id as usize).as_mut().map(Rc::make_mut)
    }
    fn locate(&self, st: &State, a: u64, n: u64, write: bool) -> R<(u32, usize)> {
        let id = (a >> 32) as u32; let off = (a & 0xffff_ffff).wrapping_sub(OFF);
        match self.obj(st, id) {
            Some(o) => {
                if o.freed { return Err(Stop::Err(format!("memory: use after free ({} bytes at {:#x})", n, a))); }
                if off > o.data.len() as u64 || off + n > o.data.len() as u64 { return Err(Stop::Err(format!("memory: out of bounds ({} bytes at offset {} of {})", n, off as i64, o.data.len()))); }
                if write && o.ro { return Err(Stop::Err("memory: write to read-only data".into())); }
                Ok((id, off as usize))
            }
            None => Err(Stop::Err(format!("memory: invalid pointer {:#x} ({} bytes)", a, n))),
        }
    }
    pub fn read_bytes_v(&self, st: &State, a: u64, n: u64) -> R<V> {
        let (id, off) = self.locate(st, a, n, false)?;
        let o = self.obj(st, id).unwrap();
        let n = n as usize;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|x| *x != 0) {
                let byte = |i: usize| -> Ex { let e = s[off + i]; if e != 0 { e } else { k(o.data[off + i] as u128, 8) } };
                let mut e = byte(0);
                for i in 1..n { e = concat(byte(i), e); }
                return Ok(self.val(e));
            }
        }
        if n <= 8 { let mut x = 0u64; for i in (0..n).rev() { x = x << 8 | o.data[off + i] as u64; } Ok(V::C(x)) }
        else { let mut x = 0u128; for i in (0..n).rev() { x = x << 8 | o.data[off + i] as u128; } Ok(V::W(Rc::new(x))) }
    }
    pub fn write_bytes_v(&self, st: &mut State, a: u64, n: u64, v: &V) -> R<()> {
        let (id, off) = self.locate(st, a, n, true)?;
        let o = self.obj_mut(st, id).unwrap();
        let n = n as usize;
        match v {
            V::C(x) => { for i in 0..n { o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 }; } if let Some(s) = o.sym.as_mut() { for i in 0..n { s[off + i] = 0; } } }
            V::W(x) => { for i in 0..n { o.data[off + i] = (**x >> (8 * i)) as u8; } if let Some(s) = o.sym.as_mut() { for i in 0..n { s[off + i] = 0; } } }
            V::E(e) => {
                let w = expr::width(*e);
                let e = if (w as usize) < n * 8 { zext(*e, n as u16 * 8) } else { *e };
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..n { let b = extract(e, 8 * i as u16, 8); match konst(b) { Some(x) => { o.data[off + i] = x as u8; s[off + i] = 0; } None => { s[off + i] = b; } } }
            }
            V::A(_) => return Err(Stop::Err("engine: aggregate store".into())),
        }
        Ok(())
    }
    pub fn read_ty(&self, st: &State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(f, _) => { let mut o = vec![]; for (off, t) in f { o.push(self.read_ty(st, a + off, t)?); } Ok(V::agg(o)) }
            Ty::Array(t, n, s) => { let mut o = vec![]; for i in 0..*n { o.push(self.read_ty(st, a + i * s, t)?); } Ok(V::agg(o)) }
            Ty::Vect(t, n) => {
                let w = t.width() as u64;
                if w % 8 != 0 { let x = self.read_bytes_v(st, a, (w * n + 7) / 8)?; let e = self.ex(&x, ((w * n + 7) / 8 * 8) as u16); return Ok(V::agg((0..*n).map(|i| self.val(extract(e, (i * w) as u16, w as u16))).collect())); }
                let mut o = vec![]; for i in 0..*n { o.push(self.read_bytes_v(st, a + i * w / 8, w / 8)?); } Ok(V::agg(o))
            }
            _ => {
                let w = ty.width(); let n = ty.bytes();
                if n == 0 { return Ok(V::C(0)); }
                let v = self.read_bytes_v(st, a, n)?;
                if w as u64 == n * 8 { Ok(v) } else { match v { V::C(x) => Ok(V::C(x & expr::mask(w) as u64)), V::W(x) => Ok(V::big(*x & expr::mask(w), w)), V::E(e) => Ok(self.val(extract(e, 0, w))), v => Ok(v) } }
            }
        }
    }
    pub fn write_ty(&self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Struct(f, _), V::A(x)) => { for (i, (off, t)) in f.iter().enumerate() { self.write_ty(st, a + off, t, &x[i])?; } Ok(()) }
            (Ty::Array(t, n, s), V::A(x)) => { for i in 0..*n { self.write_ty(st, a + i * s, t, &x[i as usize])?; } Ok(()) }
            (Ty::Vect(t, n), V::A(x)) => {
                let w = t.width() as u64;
                if w % 8 != 0 { let mut e = self.ex(&x[0], w as u16); for i in 1..*n as usize { e = concat(self.ex(&x[i], w as u16), e); } let v = self.val(e); return self.write_bytes_v(st, a, (w * n + 7) / 8, &v); }
                for i in 0..*n { self.write_bytes_v(st, a + i * w / 8, w / 8, &x[i as usize])?; } Ok(())
            }
            _ => { let n = ty.bytes(); if n == 0 { return Ok(()); } self.write_bytes_v(st, a, n, v) }
        }
    }
    fn load(&mut self, st: &mut State, p: &V, ty: &Rc<Ty>) -> R<V> {
        match p {
            V::C(a) => self.read_ty(st, *a, ty),
            V::E(e) => {
                let scalar = matches!(**ty, Ty::Int(_) | Ty::Ptr);
                if scalar { if let Some(vs) = self.sv.values(&st.pc, *e, 1024) {
                    // ite over all feasible addresses, grouped by loaded value
                    let w = ty.width();
                    let mut groups: Vec<(Ex, Vec<u128>)> = vec![];
                    let mut ok = true;
                    for a in &vs {
                        match self.read_ty(st, *a as u64, ty) {
                            Ok(v) => { let x = self.ex(&v, w); if let Some(g) = groups.iter_mut().find(|g| g.0 == x) { g.1.push(*a); } else { groups.push((x, vec![*a])); } }
                            Err(_) => { ok = false; break; }
                        }
                    }
                    if ok && !groups.is_empty() {
                        groups.sort_by_key(|g| g.1.len());
                        let (last, _) = groups.pop().unwrap();
                        let mut r = last;
                        for (x, al) in groups.iter().rev() {
                            let mut c = k(0, 1);
                            for a in al { let q = bin(Op::Eq, *e, k(*a, 64)); c = bin(Op::Or, c, q); }
                            r = ite(c, *x, r);
                        }
                        return Ok(self.val(r));
                    }
                } }
                let a = self.conc(st, p)?; self.read_ty(st, a, ty)
            }
            _ => { let a = self.conc(st, p)?; self.read_ty(st, a, ty) }
        }
    }
    pub fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let (id, off) = self.locate(st, a, 0, false)?;
        if off != 0 || id >= STACK_BASE { return Err(Stop::Err("memory: free of a non-heap pointer".into())); }
        let o = self.obj_mut(st, id).unwrap();
        o.freed = true; o.data = vec![]; o.sym = None;
        Ok(())
    }
    pub fn size_of(&self, st: &State, a: u64) -> u64 { self.obj(st, (a >> 32) as u32).map(|o| o.data.len() as u64).unwrap_or(0) }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sid, so) = self.locate(st, s, n, false)?;
        let (did, dof) = self.locate(st, d, n, true)?;
        let n = n as usize;
        let so_obj = self.obj(st, sid).unwrap().clone();
        let dst = self.obj_mut(st, did).unwrap();
        dst.data[dof..dof + n].copy_from_slice(&so_obj.data[so..so + n]);
        match &so_obj.sym {
            Some(ss) => { let any = ss[so..so + n].iter().any(|x| *x != 0); if any || dst.sym.is_some() { let len = dst.data.len(); let ds = dst.sym.get_or_insert_with(|| vec![0; len]); ds[dof..dof + n].copy_from_slice(&ss[so..so + n]); } }
            None => if let Some(ds) = dst.sym.as_mut() { for x in &mut ds[dof..dof + n] { *x = 0; } },
        }
        Ok(())
    }
    pub fn fill(&mut self, st: &mut State, d: u64, n: u64, b: &V) -> R<()> {
        let (id, off) = self.locate(st, d, n, true)?;
        let o = self.obj_mut(st, id).unwrap();
        let (off, n) = (off, n as usize);
        match b {
            V::C(x) => { for y in &mut o.data[off..off + n] { *y = *x as u8; } if let Some(s) = o.sym.as_mut() { for y in &mut s[off..off + n] { *y = 0; } } }
            V::E(e) => { let len = o.data.len(); let s = o.sym.get_or_insert_with(|| vec![0; len]); for y in &mut s[off..off + n] { *y = *e; } }
            _ => {}
        }
        Ok(())
    }
    pub fn cstr(&self, st: &State, mut a: u64) -> R<String> {
        let mut s = vec![];
        loop { match self.read_bytes_v(st, a, 1)? { V::C(0) => break, V::C(x) => s.push(x as u8), _ => return Err(Stop::Err("engine: symbolic C string".into())) } a += 1; }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    // ---- control ------------------------------------------------------
    fn jump(&self, st: &mut State, to: u32) {
        let f = self.fr(st);
        let from = f.block;
        let b = &f.f.blocks[to as usize];
        if !b.phis.is_empty() {
            if let Some((_, l)) = b.phis.iter().find(|x| x.0 == from) {
                if l.len() == 1 { let v = match &l[0].1 { O::K(v) => v.clone(), O::R(r) => f.regs[*r as usize].clone() }; f.regs[l[0].0 as usize] = v; }
                else {
                    let vals: Vec<V> = l.iter().map(|(_, o)| match o { O::K(v) => v.clone(), O::R(r) => f.regs[*r as usize].clone() }).collect();
                    for ((d, _), v) in l.iter().zip(vals) { f.regs[*d as usize] = v; }
                }
            }
        }
        f.block = to; f.ip = b.start;
    }
    pub fn push(&mut self, st: &mut State, fid: u32, args: Vec<V>) -> R<()> {
        let d = &self.p.funcs[fid as usize];
        if d.decl { let n = d.name.clone(); self.externs.insert(n.clone()); return Err(Stop::Err(format!("unsupported: external function {}", n))); }
        self.called.insert(fid);
        let f = self.p.func(fid);
        let mut regs = Vec::with_capacity(f.nregs as usize);
        let np = f.nparams as usize;
        let mut it = args.into_iter();
        for _ in 0..np { regs.push(it.next().unwrap_or(V::C(0))); }
        let varargs: Vec<V> = it.collect();
        regs.resize(f.nregs as usize, V::C(0));
        let t = &mut st.th[st.cur];
        if t.frames.len() > 3000 { return Err(Stop::Err("stack overflow".into())); }
        let sbase = t.stack.len() as u32;
        t.frames.push(Rc::new(Frame { f, regs, ip: 0, block: 0, sbase, varargs }));
        Ok(())
    }
    fn pop(&self, st: &mut State) { let t = &mut st.th[st.cur]; let f = t.frames.pop().unwrap(); t.stack.truncate(f.sbase as usize); }
    /// Finish the call instruction the top frame stands at.
    pub fn ret_to(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = st.th[st.cur].frames.last().unwrap();
        let (dst, inv) = match &fr.f.code[fr.ip as usize] { I::Call(c) => (c.dst, c.invoke), _ => return Err(Stop::Err("engine: return to non-call".into())) };
        self.set(st, dst, v);
        match inv { Some((n, _)) => self.jump(st, n), None => self.fr(st).ip += 1 }
        Ok(())
    }
    /// Start unwinding with an exception object; returns false if no handler exists.
    pub fn raise(&mut self, st: &mut State, exc: u64) -> bool {
        let t = &st.th[st.cur];
        let mut found = false;
        for f in t.frames.iter().rev() {
            if let I::Call(c) = &f.f.code[f.ip as usize] { if let Some((_, u)) = c.invoke { let b = &f.f.blocks[u as usize]; if let I::LandingPad { catches: true, .. } = f.f.code[b.start as usize] { found = true; break; } } }
        }
        if !found { return false; }
        st.th[st.cur].exc = exc;
        self.unwind(st);
        true
    }
    fn unwind(&mut self, st: &mut State) {
        loop {
            let f = st.th[st.cur].frames.last().unwrap();
            if let I::Call(c) = &f.f.code[f.ip as usize] { if let Some((_, u)) = c.invoke { self.jump(st, u); return; } }
            self.pop(st);
            if st.th[st.cur].frames.is_empty() { panic!("unwound off the stack"); }
        }
    }
    pub fn new_state(&mut self) -> State {
        let mut st = State { th: vec![Thread { frames: vec![], stack: vec![], tls: HashMap::new(), exc: 0, ended: false }], cur: 0, mem: Mem::new(), next: 16, globs: Mem::new(), pc: Pc::new(), insts: 0, inputs: Rc::new(vec![]), depth: 0, notes: Rc::new(vec![]), nvars: 0, pending: None };
        for (i, g) in self.p.globals.iter().enumerate() { *st.globs.slot(i) = Some(Rc::new(Obj { data: g.init.clone(), sym: None, freed: false, ro: g.constant })); }
        st
    }
    pub fn new_thread(&mut self, st: &mut State, fid: u32, arg: V) -> R<u64> {
        let cur = st.cur;
        st.th.push(Thread { frames: vec![], stack: vec![], tls: HashMap::new(), exc: 0, ended: false });
        st.cur = st.th.len() - 1;
        let r = self.push(st, fid, vec![arg]);
        let id = st.cur as u64; st.cur = cur; r?;
        Ok(id)
    }
    // ---- one path -----------------------------------------------------
    pub fn run(&mut self, st: State) {
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.cfg.time_limit { self.incomplete.push(format!("time limit; {} states left", self.work.len() + 1)); break; }
            if self.paths >= self.cfg.max_paths { self.incomplete.push(format!("path limit; {} states left", self.work.len() + 1)); break; }
            let mut st = st;
            self.paths += 1;
            let r = self.path(&mut st);
            match r {
                Stop::End => {
                    self.ended += 1;
                    // the 1st, 2nd, 4th, 8th, ... path that ends is written out for native replay
                    if self.ended.is_power_of_two() && self.samples.len() < 16 {
                        let s = self.sample(&st); self.samples.push(s);
                        let _ = std::fs::create_dir_all(&self.cfg.outdir);
                        let _ = std::fs::write(format!("{}/ok{}.txt", self.cfg.outdir, self.samples.len()), self.inputs_text(&st, "ended", "", None));
                    }
                }
                Stop::Silent => {}
                Stop::Err(e) => {
                    if e.starts_with("unsupported") || e.starts_with("engine") { let key = format!("{} in {}", e, self.here(&st)); *self.unsupported.entry(key).or_default() += 1; if self.cfg.verbose { eprintln!("{} @ {}", e, self.here(&st)); } }
                    else if self.cfg.foreign(&e) {}
                    else { let h = self.here(&st); self.violation(&mut st, &e, &h, None); }
                }
            }
            if !self.cfg.all && self.viols.keys().any(|v| !self.cfg.known.contains(v)) { self.incomplete.push("stopped at the first violation".into()); break; }
        }
    }
    pub fn sample(&self, st: &State) -> String {
        let mut s = String::new();
        for (n, vs) in st.inputs.iter() { let b: Vec<u8> = vs.iter().map(|v| st.pc.model.get(*v as usize).cloned().unwrap_or(0)).collect(); s.push_str(&format!("{}={} ", n, b.iter().map(|x| if (0x21..0x7f).contains(x) && *x != b'\\' { (*x as char).to_string() } else { format!("\\x{:02x}", x) }).collect::<String>())); if s.len() > 400 { break; } }
        s
    }
    fn inputs_text(&self, st: &State, id: &str, wher: &str, model: Option<&[u8]>) -> String {
        let mut s = format!("harness {}\nargs {}\nkind {}\nwhere {}\n", self.cfg.harness, self.cfg.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), id, wher);
        for (n, vs) in st.inputs.iter() {
            s.push_str(&format!("sym {} {} ", n, vs.len()));
            for v in vs { let b = match model { Some(m) => m[*v as usize], None => st.pc.model.get(*v as usize).cloned().unwrap_or(0) }; s.push_str(&format!("{:02x}", b)); }
            s.push('\n');
        }
        for x in st.notes.iter() { s.push_str(&format!("note {}\n", x)); }
        s
    }
    pub fn violation(&mut self, st: &mut State, id: &str, wher: &str, model: Option<&[u8]>) {
        let e = self.viols.entry(id.to_string()).or_insert((String::new(), 0));
        e.1 += 1;
        if e.1 > 1 { return; }
        let n = self.viols.len();
        let path = format!("{}/cex{}.txt", self.cfg.outdir, n);
        let s = self.inputs_text(st, id, wher, model);
        let _ = std::fs::create_dir_all(&self.cfg.outdir);
        let _ = std::fs::write(&path, s);
        self.viols.get_mut(id).unwrap().0 = path;
    }
    fn path(&mut self, st: &mut State) -> Stop {
        let mut local = 0u64;
        loop {
            local += 1;
            if local & 0xfff == 0 {
                self.insts += 0x1000; st.insts += 0x1000;
                if self.cfg.trace { *self.profile.entry(st.th[st.cur].frames.last().unwrap().f.id).or_default() += 1; }
                if st.insts > self.cfg.max_insts { return Stop::Err(format!("nontermination: more than {} instructions", self.cfg.max_insts)); }
                if local & 0xfffff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.time_limit { self.incomplete.push(format!("time limit; {} states left", self.work.len() + 1)); return Stop::Silent; }
            }
            if let Err(s) = self.step(st) { self.insts += local & 0xfff; return s; }
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, ip) = { let fr = st.th[st.cur].frames.last().unwrap(); (fr.f, fr.ip) };
        let ins = &f.code[ip as usize];
        match ins {
            I::Bin { op, w, dst, a, b } => {
                let x = self.op(st, a); let y = self.op(st, b);
                let r = self.bin(*op, *w, &x, &y);
                let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1;
            }
            I::Cmp { pred, w, dst, a, b } => {
                let x = self.op(st, a); let y = self.op(st, b);
                let r = self.cmp(*pred, *w, &x, &y);
                let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1;
            }
            I::Load { dst, ty, p } => {
                let p = self.op(st, p);
                let v = self.load(st, &p, ty)?;
                let fr = self.fr(st); fr.regs[*dst as usize] = v; fr.ip += 1;
            }
            I::Store { ty, v, p } => {
                let p = self.op(st, p); let v = self.op(st, v);
                let a = self.conc(st, &p)?;
                self.write_ty(st, a, ty, &v)?;
                self.fr(st).ip += 1;
            }
            I::Gep { dst, base, off, terms } => {
                let b = self.op(st, base);
                let mut r = match b { V::C(x) => V::C(x.wrapping_add(*off)), V::E(e) => self.val(bin(Op::Add, e, k(*off as u128, 64))), V::A(_) | V::W(_) => return Err(Stop::Err("engine: vector gep".into())) };
                for (o, w, s) in terms {
                    let v = self.op(st, o);
                    r = match (r, v) {
                        (V::C(x), V::C(i)) => V::C(x.wrapping_add((expr::sext_to_i128(i as u128, *w) as u64).wrapping_mul(*s))),
                        (r, v) => { let e = self.ex(&v, *w); let e = if *w < 64 { sext(e, 64) } else { extract(e, 0, 64) }; let m = bin(Op::Mul, e, k(*s as u128, 64)); let b = self.ex(&r, 64); self.val(bin(Op::Add, b, m)) }
                    };
                }
                let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1;
            }
            I::Br(t) => self.jump(st, *t),
            I::CondBr { c, t, f } => {
                let c = self.op(st, c);
                let b = match c { V::C(x) => x & 1 != 0, V::E(e) => self.decide(st, e)?, _ => return Err(Stop::Err("engine: br".into())) };
                self.jump(st, if b { *t } else { *f });
            }
            I::Call(c) => return self.call(st, c),
            I::Select { dst, ty, c, a, b } => {
                let cv = self.op(st, c); let x = self.op(st, a); let y = self.op(st, b);
                let r = match cv {
                    V::C(q) => if q & 1 != 0 { x } else { y },
                    V::E(e) => match (&**ty, &x, &y) {
                        (_, V::C(p), V::C(q)) if p == q => x,
                        (Ty::Int(w), _, _) => { let (p, q) = (self.ex(&x, *w), self.ex(&y, *w)); self.val(ite(e, p, q)) }
                        (Ty::Vect(t, n), V::A(p), V::A(q)) => { let w = t.width(); V::agg((0..*n as usize).map(|i| { let (p, q) = (self.ex(&p[i], w), self.ex(&q[i], w)); self.val(ite(e, p, q)) }).collect()) }
                        _ => if self.decide(st, e)? { x } else { y },
                    },
                    V::A(cs) => match (&**ty, &x, &y) {
                        (Ty::Vect(t, n), V::A(p), V::A(q)) => { let w = t.width(); V::agg((0..*n as usize).map(|i| match &cs[i] { V::C(z) => if z & 1 != 0 { p[i].clone() } else { q[i].clone() }, V::E(e) => { let (p, q) = (self.ex(&p[i], w), self.ex(&q[i], w)); self.val(ite(*e, p, q)) } _ => V::C(0) }).collect()) }
                        _ => return Err(Stop::Err("engine: select".into())),
                    },
                    _ => return Err(Stop::Err("engine: select".into())),
                };
                let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1;
            }
            I::Cast { k, from, to, dst, a } => {
                let x = self.op(st, a);
                let r = self.cast(*k, from, to, &x)?;
                let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1;
            }
            I::Alloca { dst, size, n } => {
                let n = self.op(st, n); let n = self.conc(st, &n)?;
                let cur = st.cur;
                let t = &mut st.th[cur];
                let id = STACK_BASE + ((cur as u32) << 20) + t.stack.len() as u32;
                t.stack.push(Rc::new(Obj::new(size * n)));
                let fr = self.fr(st); fr.regs[*dst as usize] = V::C(addr(id, 0)); fr.ip += 1;
            }
            I::Switch { w, v, default, groups, map } => {
                let x = self.op(st, v);
                let to = match x {
                    V::C(x) => *map.get(&(x as u128)).unwrap_or(default),
                    V::W(x) => *map.get(&*x).unwrap_or(default),
                    V::E(e) => {
                        let mut to = *default;
                        for (vals, d) in groups {
                            let mut c = k(0, 1);
                            for x in vals { let q = bin(Op::Eq, e, k(*x, *w)); c = bin(Op::Or, c, q); }
                            if self.decide(st, c)? { to = *d; break; }
                        }
                        to
                    }
                    _ => return Err(Stop::Err("engine: switch".into())),
                };
                self.jump(st, to);
            }
            I::Ret(o) => {
                let v = match o { Some(o) => self.op(st, o), None => V::C(0) };
                self.pop(st);
                if st.th[st.cur].frames.is_empty() {
                    if st.cur == 0 { return Err(Stop::End); }
                    return Err(Stop::Err("engine: thread function returned".into()));
                }
                self.ret_to(st, v)?;
            }
            I::Unreachable => return Err(Stop::Err("reached unreachable code".into())),
            I::ExtractValue { dst, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Err("engine: extractvalue".into())) }; }
                let fr = self.fr(st); fr.regs[*dst as usize] = v; fr.ip += 1;
            }
            I::InsertValue { dst, a, v, idx } => {
                let x = self.op(st, a); let v = self.op(st, v);
                fn put(x: &V, idx: &[u32], v: V) -> V { if idx.is_empty() { return v; } match x { V::A(l) => { let mut l = (**l).clone(); l[idx[0] as usize] = put(&l[idx[0] as usize], &idx[1..], v); V::agg(l) } _ => V::C(0) } }
                let r = put(&x, idx, v);
                let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1;
            }
            I::ExtractElem { dst, a, i } => { let x = self.op(st, a); let i = self.op(st, i); let i = self.conc(st, &i)?; let r = match x { V::A(l) => l[i as usize].clone(), _ => return Err(Stop::Err("engine: extractelement".into())) }; let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1; }
            I::InsertElem { dst, a, v, i } => { let x = self.op(st, a); let v = self.op(st, v); let i = self.op(st, i); let i = self.conc(st, &i)?; let r = match x { V::A(l) => { let mut l = (*l).clone(); l[i as usize] = v; V::agg(l) } _ => return Err(Stop::Err("engine: insertelement".into())) }; let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1; }
            I::Shuffle { dst, a, b, n, mask } => {
                let x = self.op(st, a); let y = self.op(st, b);
                let r = match (&x, &y) { (V::A(p), V::A(q)) => V::agg(mask.iter().map(|m| if *m < 0 { match &p[0] { V::W(_) => V::W(Rc::new(0)), _ => V::C(0) } } else if (*m as u64) < *n { p[*m as usize].clone() } else { q[*m as usize - *n as usize].clone() }).collect()), _ => return Err(Stop::Err("engine: shuffle".into())) };
                let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1;
            }
            I::Freeze { dst, a } => { let x = self.op(st, a); let fr = self.fr(st); fr.regs[*dst as usize] = x; fr.ip += 1; }
            I::Rmw { op, w, dst, p, v } => {
                let p = self.op(st, p); let v = self.op(st, v);
                let a = self.conc(st, &p)?;
                let n = (*w as u64 + 7) / 8;
                let old = self.read_bytes_v(st, a, n)?;
                let new = match op {
                    Rmw::Xchg => v, Rmw::Add => self.bin(B::Add, *w, &old, &v), Rmw::Sub => self.bin(B::Sub, *w, &old, &v), Rmw::And => self.bin(B::And, *w, &old, &v), Rmw::Or => self.bin(B::Or, *w, &old, &v), Rmw::Xor => self.bin(B::Xor, *w, &old, &v),
                    Rmw::Nand => { let x = self.bin(B::And, *w, &old, &v); self.bin(B::Xor, *w, &x, &V::big(expr::mask(*w), *w)) }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => { let pr = match op { Rmw::Max => 38, Rmw::Min => 40, Rmw::UMax => 34, _ => 36 }; let c = self.cmp(pr, *w, &old, &v); let (x, y) = (self.ex(&old, *w), self.ex(&v, *w)); let c = self.ex(&c, 1); self.val(ite(c, x, y)) }
                };
                self.write_bytes_v(st, a, n, &new)?;
                let fr = self.fr(st); fr.regs[*dst as usize] = old; fr.ip += 1;
            }
            I::CmpXchg { w, dst, p, cmp, new } => {
                let p = self.op(st, p); let c = self.op(st, cmp); let nv = self.op(st, new);
                let a = self.conc(st, &p)?;
                let n = (*w as u64 + 7) / 8;
                let old = self.read_bytes_v(st, a, n)?;
                let eq = self.cmp(32, *w, &old, &c);
                let ok = match eq { V::C(x) => x != 0, V::E(e) => self.decide(st, e)?, _ => false };
                if ok { self.write_bytes_v(st, a, n, &nv)?; }
                let fr = self.fr(st); fr.regs[*dst as usize] = V::agg(vec![old, V::C(ok as u64)]); fr.ip += 1;
            }
            I::Fence => self.fr(st).ip += 1,
            I::LandingPad { dst, .. } => { let e = st.th[st.cur].exc; let fr = self.fr(st); fr.regs[*dst as usize] = V::agg(vec![V::C(e), V::C(1)]); fr.ip += 1; }
            I::Resume(o) => { let v = self.op(st, o); if let V::A(l) = &v { if let V::C(x) = l[0] { st.th[st.cur].exc = x; } } self.pop(st); self.unwind(st); }
            I::FNeg { w, dst, a } => { let x = self.op(st, a); let r = match x { V::C(b) => V::C(b ^ (1u64 << (w - 1))), _ => return Err(Stop::Err("unsupported: symbolic float".into())) }; let fr = self.fr(st); fr.regs[*dst as usize] = r; fr.ip += 1; }
            I::FCmp { pred, w, dst, a, b } => {
                let x = self.op(st, a); let y = self.op(st, b);
                let g = |v: &V| -> Option<f64> { match v { V::C(b) => Some(if *w == 32 { f32::from_bits(*b as u32) as f64 } else { f64::from_bits(*b) }), _ => None } };
                let (p, q) = match (g(&x), g(&y)) { (Some(p), Some(q)) => (p, q), _ => return Err(Stop::Err("unsupported: symbolic float".into())) };
                let un = p.is_nan() || q.is_nan();
                let r = match pred { 0 => false, 1 => p == q, 2 => p > q, 3 => p >= q, 4 => p < q, 5 => p <= q, 6 => !un && p != q, 7 => !un, 8 => un, 9 => un || p == q, 10 => un || p > q, 11 => un || p >= q, 12 => un || p < q, 13 => un || p <= q, 14 => un || p != q, _ => true };
                let fr = self.fr(st); fr.regs[*dst as usize] = V::C(r as u64); fr.ip += 1;
            }
            I::Bad(s) => return Err(Stop::Err(format!("unsupported: instruction {}", s))),
        }
        Ok(())
    }
    pub fn bin(&self, op: B, w: u16, x: &V, y: &V) -> V {
        match (x, y) {
            (V::C(a), V::C(b)) if w <= 64 => {
                let (a, b) = (*a, *b);
                let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    B::Add => a.wrapping_add(b), B::Sub => a.wrapping_sub(b), B::Mul => a.wrapping_mul(b),
                    B::UDiv => if b == 0 { 0 } else { a / b }, B::URem => if b == 0 { 0 } else { a % b },
                    B::SDiv => if b == 0 { 0 } else { sx(a).wrapping_div(sx(b)) as u64 }, B::SRem => if b == 0 { 0 } else { sx(a).wrapping_rem(sx(b)) as u64 },
                    B::Shl => if b >= w as u64 { 0 } else { a << b }, B::LShr => if b >= w as u64 { 0 } else { a >> b }, B::AShr => (sx(a) >> b.min(w as u64 - 1)) as u64,
                    B::And => a & b, B::Or => a | b, B::Xor => a ^ b,
                    B::FAdd | B::FSub | B::FMul | B::FDiv => {
                        let f = |p: f64, q: f64| match op { B::FAdd => p + q, B::FSub => p - q, B::FMul => p * q, _ => p / q };
                        return if w == 32 { let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32)); V::C((match op { B::FAdd => p + q, B::FSub => p - q, B::FMul => p * q, _ => p / q }).to_bits() as u64) } else { V::C(f(f64::from_bits(a), f64::from_bits(b)).to_bits()) };
                    }
                };
                V::C(r & m)
            }
            (V::A(p), V::A(q)) => V::agg(p.iter().zip(q.iter()).map(|(a, b)| self.bin(op, w, a, b)).collect()),
            _ => {
                let o = match op { B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr, B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, _ => return V::C(0) };
                let a = self.ex(x, w); let b = self.ex(y, w);
                self.val(bin(o, a, b))
            }
        }
    }
    pub fn cmp(&self, pred: u8, w: u16, x: &V, y: &V) -> V {
        match (x, y) {
            (V::C(a), V::C(b)) if w <= 64 => {
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let (a, b) = (*a, *b);
                V::C((match pred { 32 => a == b, 33 => a != b, 34 => a > b, 35 => a >= b, 36 => a < b, 37 => a <= b, 38 => sx(a) > sx(b), 39 => sx(a) >= sx(b), 40 => sx(a) < sx(b), _ => sx(a) <= sx(b) }) as u64)
            }
            (V::A(p), V::A(q)) => V::agg(p.iter().zip(q.iter()).map(|(a, b)| self.cmp(pred, w, a, b)).collect()),
            _ => {
                let a = self.ex(x, w); let b = self.ex(y, w);
                let e = match pred { 32 => bin(Op::Eq, a, b), 33 => { let e = bin(Op::Eq, a, b); not(e) } 34 => bin(Op::Ult, b, a), 35 => bin(Op::Ule, b, a), 36 => bin(Op::Ult, a, b), 37 => bin(Op::Ule, a, b), 38 => bin(Op::Slt, b, a), 39 => bin(Op::Sle, b, a), 40 => bin(Op::Slt, a, b), _ => bin(Op::Sle, a, b) };
                self.val(e)
            }
        }
    }
    fn cast(&self, kd: C, from: &Rc<Ty>, to: &Rc<Ty>, x: &V) -> R<V> {
        let (fw, tw) = (from.width(), to.width());
        if let V::A(l) = x {
            if let (Ty::Vect(fe, _), Ty::Vect(te, _)) = (&**from, &**to) { if kd != C::Bit { let mut o = vec![]; for v in l.iter() { o.push(self.cast(kd, fe, te, v)?); } return Ok(V::agg(o)); } }
        }
        match kd {
            C::Trunc => Ok(match x { V::C(v) => V::C(v & expr::mask(tw) as u64), V::W(v) => V::big(**v & expr::mask(tw), tw), V::E(e) => self.val(extract(*e, 0, tw)), _ => return Err(Stop::Err("engine: cast".into())) }),
            C::ZExt => Ok(match x { V::C(v) => V::big(*v as u128, tw), V::W(v) => V::W(v.clone()), V::E(e) => self.val(zext(*e, tw)), _ => return Err(Stop::Err("engine: cast".into())) }),
            C::SExt => Ok(match x { V::C(v) => V::big(expr::sext_to_i128(*v as u128, fw) as u128 & expr::mask(tw), tw), V::W(v) => V::big(expr::sext_to_i128(**v, fw) as u128 & expr::mask(tw), tw), V::E(e) => self.val(sext(*e, tw)), _ => return Err(Stop::Err("engine: cast".into())) }),
            C::Bit => {
                let flat = |x: &V, t: &Ty| -> (Ex, u16) { match (x, t) { (V::A(l), Ty::Vect(e, n)) => { let w = e.width(); let mut r = self.ex(&l[0], w); for i in 1..*n as usize { r = concat(self.ex(&l[i], w), r); } (r, w * *n as u16) } _ => (self.ex(x, t.width()), t.width()) } };
                match (&**from, &**to) {
                    (Ty::Vect(..), _) | (_, Ty::Vect(..)) => {
                        let (e, _) = flat(x, from);
                        match &**to { Ty::Vect(te, n) => { let w = te.width(); Ok(V::agg((0..*n).map(|i| self.val(extract(e, i as u16 * w, w))).collect())) } _ => Ok(self.val(e)) }
                    }
                    _ => Ok(x.clone()),
                }
            }
            _ => {
                let c = match x { V::C(v) => *v, V::W(v) => **v as u64, _ => return Err(Stop::Err("unsupported: symbolic float".into())) };
                let f = if fw == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let outf = |d: f64| V::C(if tw == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() });
                Ok(match kd { C::FPToUI => V::big(f as u128 & expr::mask(tw), tw), C::FPToSI => V::big((f as i128) as u128 & expr::mask(tw), tw), C::UIToFP => outf(c as f64), C::SIToFP => outf(expr::sext_to_i128(c as u128, fw) as f64), _ => outf(f) })
            }
        }
    }
    fn call(&mut self, st: &mut State, c: &'static Call) -> R<()> {
        let fid = match &c.callee {
            Callee::Func(f) => *f,
            Callee::Intr(n) => { let args: Vec<V> = c.args.iter().map(|o| self.op(st, o)).collect(); let n = n.clone(); let v = self.intrinsic(st, &n, &args, c)?; return self.ret_to(st, v); }
            Callee::Tls(g) => {
                let cur = st.cur;
                let id = match st.th[cur].tls.get(g) { Some(i) => *i, None => { let init = self.p.globals[*g as usize].init.clone(); let a = self.alloc(st, init.len() as u64); let id = (a >> 32) as u32; self.obj_mut(st, id).unwrap().data = init; st.th[cur].tls.insert(*g, id); id } };
                return self.ret_to(st, V::C(addr(id, 0)));
            }
            Callee::Ind(o) => {
                let v = self.op(st, o); let a = self.conc(st, &v)?;
                let id = (a >> 32) as u32;
                if id < FUNC_BASE || (id - FUNC_BASE) as usize >= self.p.funcs.len() { return Err(Stop::Err(format!("memory: call through a bad pointer {:#x}", a))); }
                id - FUNC_BASE
            }
            Callee::Asm => return self.ret_to(st, V::C(0)),
        };
        let args: Vec<V> = c.args.iter().map(|o| self.op(st, o)).collect();
        let b = match self.builtin.get(&fid) { Some(b) => *b, None => { let b = crate::intr::lookup(&self.p.funcs[fid as usize].name); self.builtin.insert(fid, b); b } };
        if let Some(b) = b {
            self.called.insert(fid);
            match self.builtin_call(st, b, &args, c)? { Some(v) => return self.ret_to(st, v), None => return Ok(()) }
        }
        self.push(st, fid, args)
    }
}
