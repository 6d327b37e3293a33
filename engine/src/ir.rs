// Compact IR built from LLVM modules through the LLVM-C API.
use crate::llvm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { C(u64), W(Rc<u128>), E(u32), A(Rc<Vec<V>>) }
impl V {
    pub fn big(v: u128, w: u16) -> V { if w <= 64 { V::C(v as u64) } else { V::W(Rc::new(v)) } }
    pub fn agg(v: Vec<V>) -> V { V::A(Rc::new(v)) }
}
#[derive(Debug)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Struct(Vec<(u64, Rc<Ty>)>, u64), Array(Rc<Ty>, u64, u64), Vect(Rc<Ty>, u64), Other }
impl Ty {
    pub fn width(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, Ty::Vect(e, _) => e.width(), _ => 0 } }
    pub fn bytes(&self) -> u64 {
        match self { Ty::Int(w) => ((*w as u64) + 7) / 8, Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Struct(_, n) => *n, Ty::Array(_, n, s) => n * s, Ty::Vect(e, n) => (e.width() as u64 * n + 7) / 8, _ => 0 }
    }
}
#[derive(Clone, Debug)]
pub enum O { R(u32), K(V) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C { Trunc, ZExt, SExt, Bit, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }
#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Intr(Rc<str>), Tls(u32), Ind(O), Asm }
pub struct Call { pub dst: u32, pub callee: Callee, pub args: Vec<O>, pub argw: Vec<u16>, pub rty: Rc<Ty>, pub invoke: Option<(u32, u32)> }
pub enum I {
    Bin { op: B, w: u16, dst: u32, a: O, b: O },
    Cmp { pred: u8, w: u16, dst: u32, a: O, b: O },
    FCmp { pred: u8, w: u16, dst: u32, a: O, b: O },
    Select { dst: u32, ty: Rc<Ty>, c: O, a: O, b: O },
    Cast { k: C, from: Rc<Ty>, to: Rc<Ty>, dst: u32, a: O },
    Load { dst: u32, ty: Rc<Ty>, p: O },
    Store { ty: Rc<Ty>, v: O, p: O },
    Gep { dst: u32, base: O, off: u64, terms: Vec<(O, u16, u64)> },
    Alloca { dst: u32, size: u64, n: O },
    Call(Box<Call>),
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { w: u16, v: O, default: u32, groups: Vec<(Vec<u128>, u32)>, map: HashMap<u128, u32> },
    Ret(Option<O>),
    Unreachable,
    ExtractValue { dst: u32, a: O, idx: Vec<u32> },
    InsertValue { dst: u32, a: O, v: O, idx: Vec<u32> },
    ExtractElem { dst: u32, a: O, i: O },
    InsertElem { dst: u32, a: O, v: O, i: O },
    Shuffle { dst: u32, a: O, b: O, n: u64, mask: Vec<i32> },
    Freeze { dst: u32, a: O },
    Rmw { op: Rmw, w: u16, dst: u32, p: O, v: O },
    CmpXchg { w: u16, dst: u32, p: O, cmp: O, new: O },
    Fence,
    LandingPad { dst: u32, catches: bool },
    Resume(O),
    FNeg { w: u16, dst: u32, a: O },
    Bad(String),
}
pub struct Block { pub start: u32, pub phis: Vec<(u32, Vec<(u32, O)>)> }
pub struct Func { pub name: String, pub nregs: u32, pub nparams: u32, pub code: Vec<I>, pub blocks: Vec<Block>, pub id: u32 }
pub struct FuncDecl { pub name: String, pub val: Value, pub decl: bool, pub weak: bool, pub body: Option<&'static Func> }
pub struct Global { pub name: String, pub size: u64, pub init: Vec<u8>, pub tls: bool, pub constant: bool, pub id: u32 }
pub struct Prog { pub m: Module, pub td: P, pub funcs: Vec<FuncDecl>, pub fmap: HashMap<usize, u32>, pub fname: HashMap<String, u32>, pub globals: Vec<Global>, pub gmap: HashMap<usize, u32>, tys: HashMap<usize, Rc<Ty>> }
pub const FUNC_BASE: u32 = 0x7000_0000;
pub const GLOB_BASE: u32 = 0x6000_0000;
pub const OFF: u64 = 0x10000;
pub fn addr(id: u32, off: u64) -> u64 { ((id as u64) << 32) + OFF + off }

impl Prog {
    pub fn load(m: Module) -> Prog {
        let td = unsafe { LLVMGetModuleDataLayout(m) };
        let mut p = Prog { m, td, funcs: vec![], fmap: HashMap::new(), fname: HashMap::new(), globals: vec![], gmap: HashMap::new(), tys: HashMap::new() };
        unsafe {
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let n = name(f); let id = p.funcs.len() as u32;
                p.fmap.insert(f as usize, id); p.fname.insert(n.clone(), id);
                let l = LLVMGetLinkage(f);
                p.funcs.push(FuncDecl { name: n, val: f, decl: LLVMIsDeclaration(f) != 0, weak: l == 12, body: None });
                f = LLVMGetNextFunction(f);
            }
            let mut g = LLVMGetFirstGlobal(m);
            let mut vals = vec![];
            while !g.is_null() {
                let id = p.globals.len() as u32;
                let ty = LLVMGlobalGetValueType(g);
                let size = if LLVMIsDeclaration(g) != 0 { 8 } else { LLVMABISizeOfType(td, ty) };
                p.gmap.insert(g as usize, id);
                p.globals.push(Global { name: name(g), size, init: vec![], tls: LLVMIsThreadLocal(g) != 0, constant: LLVMIsGlobalConstant(g) != 0, id: GLOB_BASE + id });
                vals.push(g);
                g = LLVMGetNextGlobal(g);
            }
            for (i, g) in vals.iter().enumerate() {
                let mut b = vec![0u8; p.globals[i].size as usize];
                if LLVMIsDeclaration(*g) == 0 { let init = LLVMGetInitializer(*g); if !init.is_null() { p.write_const(init, &mut b, 0); } }
                p.globals[i].init = b;
            }
        }
        p
    }
    pub fn ty(&mut self, t: Type) -> Rc<Ty> {
        if let Some(x) = self.tys.get(&(t as usize)) { return x.clone(); }
        let r = unsafe { match kind(t) {
            0 => Ty::Void, 2 => Ty::F32, 3 => Ty::F64, 8 => Ty::Int(int_width(t)), 12 => Ty::Ptr,
            10 => { let n = LLVMCountStructElementTypes(t); let mut v = vec![]; for i in 0..n { let e = self.ty(LLVMStructGetTypeAtIndex(t, i)); v.push((LLVMOffsetOfElement(self.td, t, i), e)); } Ty::Struct(v, LLVMABISizeOfType(self.td, t)) }
            11 => { let et = LLVMGetElementType(t); let e = self.ty(et); Ty::Array(e, LLVMGetArrayLength2(t), LLVMABISizeOfType(self.td, et)) }
            13 => { let e = self.ty(LLVMGetElementType(t)); Ty::Vect(e, LLVMGetVectorSize(t) as u64) }
            _ => Ty::Other,
        } };
        let r = Rc::new(r); self.tys.insert(t as usize, r.clone()); r
    }
    fn write_const(&mut self, v: Value, b: &mut Vec<u8>, off: usize) {
        unsafe {
            if LLVMIsNull(v) != 0 || LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 { return; }
            if !LLVMIsAConstantDataSequential(v).is_null() { let mut n = 0usize; let p = LLVMGetRawDataValues(v, &mut n) as *const u8; b[off..off + n].copy_from_slice(std::slice::from_raw_parts(p, n)); return; }
            let t = LLVMTypeOf(v);
            match kind(t) {
                10 => { for i in 0..LLVMCountStructElementTypes(t) { let o = LLVMOffsetOfElement(self.td, t, i) as usize; let e = LLVMGetAggregateElement(v, i); self.write_const(e, b, off + o); } }
                11 => { let s = LLVMABISizeOfType(self.td, LLVMGetElementType(t)) as usize; for i in 0..LLVMGetArrayLength2(t) { let e = LLVMGetAggregateElement(v, i as u32); self.write_const(e, b, off + s * i as usize); } }
                13 => { let s = LLVMABISizeOfType(self.td, LLVMGetElementType(t)) as usize; for i in 0..LLVMGetVectorSize(t) { let e = LLVMGetAggregateElement(v, i); self.write_const(e, b, off + s * i as usize); } }
                _ => {
                    let n = LLVMStoreSizeOfType(self.td, t) as usize;
                    match self.konst(v) { V::C(x) => { for i in 0..n.min(8) { b[off + i] = (x >> (8 * i)) as u8; } } V::W(x) => { for i in 0..n { b[off + i] = (*x >> (8 * i)) as u8; } } _ => {} }
                }
            }
        }
    }
    /// Evaluate a constant.
    pub fn konst(&mut self, v: Value) -> V {
        unsafe {
            if let Some(f) = self.fmap.get(&(v as usize)) { let fd = &self.funcs[*f as usize]; return if fd.weak && fd.decl && !crate::exec::is_builtin(&fd.name) { V::C(0) } else { V::C(addr(FUNC_BASE + f, 0)) }; }
            if let Some(g) = self.gmap.get(&(v as usize)) { return V::C(addr(GLOB_BASE + g, 0)); }
            if !LLVMIsAGlobalAlias(v).is_null() { let a = LLVMAliasGetAliasee(v); return self.konst(a); }
            let t = LLVMTypeOf(v);
            let ty = self.ty(t);
            if !LLVMIsAConstantInt(v).is_null() {
                if ty.width() <= 64 { return V::C(LLVMConstIntGetZExtValue(v) & crate::expr::mask(ty.width()) as u64); }
                let s = show(v); let s = s.trim().rsplit(' ').next().unwrap().to_string();
                let x: u128 = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse().unwrap() };
                return V::W(Rc::new(x & crate::expr::mask(ty.width())));
            }
            if !LLVMIsAConstantFP(v).is_null() { let mut l = 0; let d = LLVMConstRealGetDouble(v, &mut l); return match *ty { Ty::F32 => V::C((d as f32).to_bits() as u64), _ => V::C(d.to_bits()) }; }
            if byte_width(t).is_some() { if let Ok(x) = show(v).trim().rsplit(' ').next().unwrap().parse::<i128>() { return V::big(x as u128 & crate::expr::mask(ty.width()), ty.width()); } }
            if LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 || LLVMIsNull(v) != 0 { return self.zero(&ty); }
            match &*ty {
                Ty::Struct(f, _) => { let n = f.len(); let mut o = vec![]; for i in 0..n { let e = LLVMGetAggregateElement(v, i as u32); o.push(self.konst(e)); } return V::agg(o); }
                Ty::Array(_, n, _) | Ty::Vect(_, n) => { let mut o = vec![]; for i in 0..*n { let e = LLVMGetAggregateElement(v, i as u32); o.push(self.konst(e)); } return V::agg(o); }
                _ => {}
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                match op {
                    29 => { let (b, off, terms) = self.gep(v); let mut r = match b { V::C(x) => x, _ => panic!() }; r = r.wrapping_add(off); for (o, w, s) in terms { if let V::C(x) = self.konst(o) { let x = crate::expr::sext_to_i128(x as u128, w) as u64; r = r.wrapping_add(x.wrapping_mul(s)); } } return V::C(r); }
                    39 | 40 | 41 | 60 | 69 => { let o = LLVMGetOperand(v, 0); let x = self.konst(o); return match (x, ty.width()) { (V::C(x), w) if w < 64 => V::C(x & crate::expr::mask(w) as u64), (x, _) => x }; }
                    30 => { let o = LLVMGetOperand(v, 0); if let V::C(x) = self.konst(o) { return V::C(x & crate::expr::mask(ty.width()) as u64); } }
                    8 | 10 | 25 => { let (a, b) = (LLVMGetOperand(v, 0), LLVMGetOperand(v, 1)); if let (V::C(a), V::C(b)) = (self.konst(a), self.konst(b)) { let r = match op { 8 => a.wrapping_add(b), 10 => a.wrapping_sub(b), _ => a ^ b }; return V::C(r & crate::expr::mask(ty.width()) as u64); } }
                    _ => {}
                }
            }
            panic!("constant {}", show(v));
        }
    }
    pub fn zero(&self, t: &Ty) -> V { match t { Ty::Struct(f, _) => V::agg(f.iter().map(|x| self.zero(&x.1)).collect()), Ty::Array(e, n, _) | Ty::Vect(e, n) => V::agg((0..*n).map(|_| self.zero(e)).collect()), Ty::Int(w) if *w > 64 => V::W(Rc::new(0)), _ => V::C(0) } }
    fn gep(&mut self, v: Value) -> (V, u64, Vec<(Value, u16, u64)>) {
        unsafe {
            let b = LLVMGetOperand(v, 0);
            let base = if LLVMIsConstant(b) != 0 { self.konst(b) } else { V::C(0) };
            let mut t = LLVMGetGEPSourceElementType(v);
            let mut off = 0u64; let mut terms = vec![];
            let n = LLVMGetNumOperands(v);
            for i in 1..n as u32 {
                let o = LLVMGetOperand(v, i);
                let w = int_width(LLVMTypeOf(o));
                let scale;
                if i == 1 { scale = LLVMABISizeOfType(self.td, t); }
                else {
                    match kind(t) {
                        10 => { let k = LLVMConstIntGetZExtValue(o) as u32; off = off.wrapping_add(LLVMOffsetOfElement(self.td, t, k)); t = LLVMStructGetTypeAtIndex(t, k); continue; }
                        _ => { t = LLVMGetElementType(t); scale = LLVMABISizeOfType(self.td, t); }
                    }
                }
                if !LLVMIsAConstantInt(o).is_null() { let x = LLVMConstIntGetZExtValue(o); let x = crate::expr::sext_to_i128(x as u128, w) as u64; off = off.wrapping_add(x.wrapping_mul(scale)); }
                else { terms.push((o, w, scale)); }
            }
            (base, off, terms)
        }
    }
    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize].body { return f; }
        let f = self.convert(id);
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize].body = Some(f);
        f
    }
    fn convert(&mut self, id: u32) -> Func {
        unsafe {
            let f = self.funcs[id as usize].val;
            let mut regs: HashMap<usize, u32> = HashMap::new();
            let np = LLVMCountParams(f);
            for i in 0..np { regs.insert(LLVMGetParam(f, i) as usize, i); }
            let mut n = np;
            let mut bbs: HashMap<usize, u32> = HashMap::new();
            let mut order = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bbs.insert(b as usize, order.len() as u32); order.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() { regs.insert(i as usize, n); n += 1; i = LLVMGetNextInstruction(i); }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut code = vec![]; let mut blocks = vec![];
            for b in order.iter() {
                let start = code.len() as u32;
                let mut phis: HashMap<u32, Vec<(u32, O)>> = HashMap::new();
                let mut i = LLVMGetFirstInstruction(*b);
                while !i.is_null() {
                    let dst = regs[&(i as usize)];
                    if LLVMGetInstructionOpcode(i) == 44 {
                        for k in 0..LLVMCountIncoming(i) {
                            let v = LLVMGetIncomingValue(i, k); let pb = bbs[&(LLVMGetIncomingBlock(i, k) as usize)];
                            let o = self.opnd(v, &regs);
                            let l = phis.entry(pb).or_default();
                            if !l.iter().any(|x| x.0 == dst) { l.push((dst, o)); }
                        }
                    } else { let x = self.inst(i, dst, &regs, &bbs); code.push(x); }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(Block { start, phis: phis.into_iter().collect() });
            }
            Func { name: self.funcs[id as usize].name.clone(), nregs: n, nparams: np, code, blocks, id }
        }
    }
    fn opnd(&mut self, v: Value, regs: &HashMap<usize, u32>) -> O {
        if let Some(r) = regs.get(&(v as usize)) { return O::R(*r); }
        unsafe { if LLVMIsConstant(v) == 0 { return O::K(V::C(0)); } } // metadata etc.
        O::K(self.konst(v))
    }
    fn inst(&mut self, i: Value, dst: u32, regs: &HashMap<usize, u32>, bbs: &HashMap<usize, u32>) -> I {
        unsafe {
            let op = LLVMGetInstructionOpcode(i);
            let ty = { let t = LLVMTypeOf(i); self.ty(t) };
            macro_rules! opv { ($k:expr) => {{ let v = LLVMGetOperand(i, $k); self.opnd(v, regs) }}; }
            macro_rules! opt { ($k:expr) => {{ let v = LLVMGetOperand(i, $k); let t = LLVMTypeOf(v); self.ty(t) }}; }
            let bb = |b: BB| bbs[&(b as usize)];
            let isbr = !LLVMIsABranchInst2(i);
            if isbr {
                let n = LLVMGetNumSuccessors(i);
                if n == 1 { return I::Br(bb(LLVMGetSuccessor(i, 0))); }
                let c = LLVMGetCondition(i); let c = self.opnd(c, regs);
                return I::CondBr { c, t: bb(LLVMGetSuccessor(i, 0)), f: bb(LLVMGetSuccessor(i, 1)) };
            }
            match op {
                1 => I::Ret(if LLVMGetNumOperands(i) == 0 { None } else { Some(opv!(0)) }),
                3 => {
                    let c = LLVMGetOperand(i, 0); let w = { let t = LLVMTypeOf(c); self.ty(t).width() };
                    let v = self.opnd(c, regs);
                    let default = bb(LLVMGetSwitchDefaultDest(i));
                    let n = LLVMGetNumSuccessors(i);
                    let mut groups: Vec<(Vec<u128>, u32)> = vec![]; let mut map = HashMap::new();
                    for k in 1..n {
                        let cv = LLVMGetSwitchCaseValue(i, k);
                        let x = match self.konst(cv) { V::C(x) => x as u128, V::W(x) => *x, _ => 0 };
                        let d = bb(LLVMGetSuccessor(i, k));
                        map.insert(x, d);
                        if d == default { continue; }
                        if let Some(g) = groups.iter_mut().find(|g| g.1 == d) { g.0.push(x); } else { groups.push((vec![x], d)); }
                    }
                    I::Switch { w, v, default, groups, map }
                }
                5 => { let nd = bb(LLVMGetNormalDest(i)); let ud = bb(LLVMGetUnwindDest(i)); self.call(i, dst, ty, Some((nd, ud)), regs) }
                45 => self.call(i, dst, ty, None, regs),
                7 => I::Unreachable,
                8 | 10 | 12 | 14 | 15 | 17 | 18 | 20 | 21 | 22 | 23 | 24 | 25 | 9 | 11 | 13 | 16 => {
                    let o = match op { 8 => B::Add, 10 => B::Sub, 12 => B::Mul, 14 => B::UDiv, 15 => B::SDiv, 17 => B::URem, 18 => B::SRem, 20 => B::Shl, 21 => B::LShr, 22 => B::AShr, 23 => B::And, 24 => B::Or, 25 => B::Xor, 9 => B::FAdd, 11 => B::FSub, 13 => B::FMul, _ => B::FDiv };
                    I::Bin { op: o, w: ty.width(), dst, a: opv!(0), b: opv!(1) }
                }
                66 => I::FNeg { w: ty.width(), dst, a: opv!(0) },
                26 => { let t = LLVMGetAllocatedType(i); let size = LLVMABISizeOfType(self.td, t); I::Alloca { dst, size, n: opv!(0) } }
                27 => I::Load { dst, ty, p: opv!(0) },
                28 => I::Store { ty: opt!(0), v: opv!(0), p: opv!(1) },
                29 => {
                    if let Ty::Vect(..) = *ty { return I::Bad(show(i)); }
                    let (_, off, terms) = self.gep(i);
                    let base = opv!(0);
                    let terms = terms.into_iter().map(|(v, w, s)| (self.opnd(v, regs), w, s)).collect();
                    I::Gep { dst, base, off, terms }
                }
                30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 | 39 | 40 | 41 | 60 | 69 => {
                    let from = opt!(0);
                    let k = match op { 30 => C::Trunc, 31 => C::ZExt, 32 => C::SExt, 33 => C::FPToUI, 34 => C::FPToSI, 35 => C::UIToFP, 36 => C::SIToFP, 37 => C::FPTrunc, 38 => C::FPExt,
                        39 | 69 => if ty.width() < 64 { C::Trunc } else { C::Bit }, 40 => if from.width() < 64 { C::ZExt } else if from.width() > 64 { C::Trunc } else { C::Bit }, _ => C::Bit };
                    I::Cast { k, from, to: ty, dst, a: opv!(0) }
                }
                42 => I::Cmp { pred: LLVMGetICmpPredicate(i) as u8, w: opt!(0).width(), dst, a: opv!(0), b: opv!(1) },
                43 => I::FCmp { pred: LLVMGetFCmpPredicate(i) as u8, w: opt!(0).width(), dst, a: opv!(0), b: opv!(1) },
                46 => I::Select { dst, ty, c: opv!(0), a: opv!(1), b: opv!(2) },
                50 => I::ExtractElem { dst, a: opv!(0), i: opv!(1) },
                51 => I::InsertElem { dst, a: opv!(0), v: opv!(1), i: opv!(2) },
                52 => { let n = match &*opt!(0) { Ty::Vect(_, n) => *n, _ => 0 }; let m = LLVMGetNumMaskElements(i); I::Shuffle { dst, a: opv!(0), b: opv!(1), n, mask: (0..m).map(|k| LLVMGetMaskValue(i, k)).collect() } }
                53 | 54 => {
                    let n = LLVMGetNumIndices(i); let p = LLVMGetIndices(i);
                    let idx: Vec<u32> = (0..n as usize).map(|k| *p.add(k)).collect();
                    if op == 53 { I::ExtractValue { dst, a: opv!(0), idx } } else { I::InsertValue { dst, a: opv!(0), v: opv!(1), idx } }
                }
                68 => I::Freeze { dst, a: opv!(0) },
                55 => I::Fence,
                56 => I::CmpXchg { w: opt!(1).width(), dst, p: opv!(0), cmp: opv!(1), new: opv!(2) },
                57 => {
                    let o = match LLVMGetAtomicRMWBinOp(i) { 0 => Rmw::Xchg, 1 => Rmw::Add, 2 => Rmw::Sub, 3 => Rmw::And, 4 => Rmw::Nand, 5 => Rmw::Or, 6 => Rmw::Xor, 7 => Rmw::Max, 8 => Rmw::Min, 9 => Rmw::UMax, 10 => Rmw::UMin, _ => return I::Bad(show(i)) };
                    I::Rmw { op: o, w: opt!(1).width(), dst, p: opv!(0), v: opv!(1) }
                }
                58 => I::Resume(opv!(0)),
                59 => I::LandingPad { dst, catches: LLVMGetNumClauses(i) > 0 },
                _ => I::Bad(show(i)),
            }
        }
    }
    fn call(&mut self, i: Value, dst: u32, rty: Rc<Ty>, invoke: Option<(u32, u32)>, regs: &HashMap<usize, u32>) -> I {
        unsafe {
            let cv = LLVMGetCalledValue(i);
            let n = LLVMGetNumArgOperands(i);
            let mut args = vec![]; let mut argw = vec![];
            let fname = if !LLVMIsAFunction(cv).is_null() { name(cv) } else { String::new() };
            if fname.starts_with("llvm.threadlocal.address") {
                let g = LLVMGetOperand(i, 0);
                return I::Call(Box::new(Call { dst, callee: Callee::Tls(self.gmap[&(g as usize)]), args, argw, rty, invoke }));
            }
            for k in 0..n {
                let a = LLVMGetOperand(i, k);
                let t = LLVMTypeOf(a);
                if kind(t) == 14 { args.push(O::K(V::C(0))); argw.push(0); continue; }
                argw.push(self.ty(t).width());
                args.push(self.opnd(a, regs));
            }
            let callee = if !LLVMIsAInlineAsm(cv).is_null() { Callee::Asm }
                else if fname.starts_with("llvm.") { Callee::Intr(fname.into()) }
                else if let Some(f) = self.fmap.get(&(cv as usize)) { Callee::Func(*f) }
                else if !LLVMIsAGlobalAlias(cv).is_null() { let a = LLVMAliasGetAliasee(cv); match self.fmap.get(&(a as usize)) { Some(f) => Callee::Func(*f), None => Callee::Ind(O::K(self.konst(cv))) } }
                else { Callee::Ind(self.opnd(cv, regs)) };
            I::Call(Box::new(Call { dst, callee, args, argw, rty, invoke }))
        }
    }
}
#[allow(non_snake_case)]
unsafe fn LLVMIsABranchInst2(i: Value) -> bool {
    // "not a branch": both the split (LLVM >= 23) and the old form are recognised
    extern "C" { fn LLVMIsACondBrInst(v: Value) -> Value; fn LLVMIsAUncondBrInst(v: Value) -> Value; }
    LLVMIsACondBrInst(i).is_null() && LLVMIsAUncondBrInst(i).is_null()
}

/// LLVM 23 has byte types (b8, b64, ...), which the C API's kinds do not know.
fn byte_width(t: Type) -> Option<u16> {
    thread_local! { static C: std::cell::RefCell<HashMap<usize, Option<u16>>> = Default::default(); }
    C.with(|c| *c.borrow_mut().entry(t as usize).or_insert_with(|| { let s = show_ty(t); s.strip_prefix('b').and_then(|x| x.parse().ok()) }))
}
fn kind(t: Type) -> u32 { if byte_width(t).is_some() { 8 } else { unsafe { LLVMGetTypeKind(t) } } }
fn int_width(t: Type) -> u16 { byte_width(t).unwrap_or_else(|| unsafe { LLVMGetIntTypeWidth(t) as u16 }) }
