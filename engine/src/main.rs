// engine prep IN.bc OUT.bc [--keep NAME]... [--points] [--native]
// engine run FINAL.bc HARNESS [--args a,b] [--out DIR] [--time S] [--insts N] [--paths N] [--known ID]... [--all]
mod exec; mod expr; mod intr; mod ir; mod llvm; mod solver;
use llvm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::time::Instant;

fn main() {
    // deep recursion in expression handling: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("prep") => prep(&a[2..]),
        Some("run") => run(&a[2..]),
        Some("list") => { unsafe { let m = load(LLVMContextCreate(), &a[2]); let mut f = LLVMGetFirstFunction(m); while !f.is_null() { println!("{} {}", if LLVMIsDeclaration(f) != 0 { "D" } else { "F" }, name(f)); f = LLVMGetNextFunction(f); } } 0 }
        _ => { eprintln!("usage"); 2 }
    }
}
fn each_fn(m: Module, mut g: impl FnMut(Value)) { unsafe { let mut l = vec![]; let mut f = LLVMGetFirstFunction(m); while !f.is_null() { l.push(f); f = LLVMGetNextFunction(f); } for f in l { g(f); } } }
fn passes(m: Module, p: &str) {
    unsafe {
        let o = LLVMCreatePassBuilderOptions();
        LLVMPassBuilderOptionsSetLoopVectorization(o, 0); LLVMPassBuilderOptionsSetSLPVectorization(o, 0); LLVMPassBuilderOptionsSetLoopUnrolling(o, 0); LLVMPassBuilderOptionsSetMergeFunctions(o, 0); LLVMPassBuilderOptionsSetLoopInterleaving(o, 0);
        let c = cs(p);
        let e = LLVMRunPasses(m, c.as_ptr(), std::ptr::null_mut(), o);
        if !e.is_null() { let s = std::ffi::CStr::from_ptr(LLVMGetErrorMessage(e)); panic!("passes: {:?}", s); }
    }
}
fn rename(f: Value, n: &str) { unsafe { LLVMSetValueName2(f, n.as_ptr() as *const _, n.len()); } }
fn prep(a: &[String]) -> i32 {
    unsafe {
        let ctx = LLVMContextCreate();
        let m = load(ctx, &a[0]);
        let mut keep: Vec<String> = vec![]; let mut points = false; let mut native = false; let mut opt = true; let mut only: Vec<String> = vec![]; let mut dropped: Vec<String> = vec![];
        let mut i = 2; while i < a.len() { match a[i].as_str() { "--keep" => { i += 1; keep.push(a[i].clone()); } "--only" => { i += 1; only.push(a[i].clone()); } "--drop" => { i += 1; dropped.push(a[i].clone()); } "--points" => points = true, "--native" => native = true, "--noopt" => opt = false, _ => {} } i += 1; }
        LLVMStripModuleDebugInfo(m);
        // allocator shims -> plain names
        each_fn(m, |f| {
            let n = name(f);
            for s in ["___rust_alloc_zeroed", "___rust_alloc", "___rust_dealloc", "___rust_realloc", "___rust_no_alloc_shim_is_unstable_v2", "___rust_alloc_error_handler"] {
                if n.starts_with("_R") && n.ends_with(s) && LLVMIsDeclaration(f) != 0 { let c = cs(&s[1..]); let o = LLVMGetNamedFunction(m, c.as_ptr()); if o.is_null() { rename(f, &s[1..]); } else { LLVMReplaceAllUsesWith(f, o); } break; }
            }
        });
        // external functions that the OS model defines
        let mut defs: HashMap<String, Value> = HashMap::new();
        each_fn(m, |f| { let n = name(f); if LLVMIsDeclaration(f) == 0 { if let Some(r) = n.strip_prefix("m_") { defs.insert(r.to_string(), f); } } });
        // (variadic ones only after optimisation: their call sites have another type)
        let mut late: Vec<String> = vec![];
        each_fn(m, |f| { if LLVMIsDeclaration(f) != 0 { if let Some(d) = defs.get(&name(f)) { if LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f)) != 0 { late.push(name(f)); } else { LLVMReplaceAllUsesWith(f, *d); } } } });
        for l in late.iter() { keep.push(format!("m_{}", l)); }
        // stubs
        {
            let mut k = 0;
            each_fn(m, |f| {
                if LLVMIsDeclaration(f) != 0 { return; }
                if let Some(s) = intr::stub_for(&name(f)) {
                    if native && s != "stub_hash" { return; }
                    let t = LLVMGlobalGetValueType(f);
                    let nm = if native { cs(&format!("stub_hash_native_{}", k)) } else { cs(&format!("{}${}", s, k)) }; k += 1;
                    let d = LLVMAddFunction(m, nm.as_ptr(), t);
                    LLVMReplaceAllUsesWith(f, d);
                    LLVMSetLinkage(f, 8);
                }
            });
        }
        // internalize everything but the harness entry points
        let is_keep = |n: &str| n.starts_with("h_") && !dropped.iter().any(|p| n.starts_with(p.as_str())) && (only.is_empty() || only.iter().any(|p| n.starts_with(p.as_str()))) || n == "m_point" || keep.iter().any(|k| k == n);
        each_fn(m, |f| { if LLVMIsDeclaration(f) == 0 && !is_keep(&name(f)) { LLVMSetLinkage(f, 8); LLVMSetVisibility(f, 0); } });
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() { if LLVMIsDeclaration(g) == 0 && !name(g).starts_with("llvm.") { LLVMSetLinkage(g, 8); LLVMSetVisibility(g, 0); } else if name(g) == "llvm.used" || name(g) == "llvm.compiler.used" { LLVMSetLinkage(g, 7); } g = LLVMGetNextGlobal(g); }
        passes(m, "globaldce");
        // explicit relaxed and release operations of the crates under test, which the pass after optimisation leaves out
        // (there they could not be told from the reference counting and locks of the standard library)
        if points {
            let p = LLVMGetNamedFunction(m, cs("m_point").as_ptr());
            let b = LLVMCreateBuilderInContext(ctx);
            let t = if p.is_null() { p } else { LLVMGlobalGetValueType(p) };
            each_fn(m, |f| {
                if p.is_null() || LLVMIsDeclaration(f) != 0 || !ours(&name(f)) { return; }
                let mut at = vec![];
                let mut bb = LLVMGetFirstBasicBlock(f);
                while !bb.is_null() {
                    let mut i = LLVMGetFirstInstruction(bb);
                    while !i.is_null() {
                        let op = LLVMGetInstructionOpcode(i);
                        let weak = |o: u32| o == 2 || o == 5;
                        let global = |v: Value| !LLVMIsAGlobalVariable(v).is_null();
                        if op == 45 || op == 5 {
                            let c = name(LLVMGetCalledValue(i)); let n = LLVMGetNumArgOperands(i);
                            if c.contains("6atomic") && c.contains("atomic_") && n >= 2 && !global(LLVMGetOperand(i, 0)) {
                                let k = if c.contains("atomic_compare") { n - 2 } else { n - 1 };
                                let o = LLVMGetOperand(i, k);
                                if LLVMIsAConstantInt(o).is_null() || LLVMConstIntGetZExtValue(o) < 2 { at.push((i, op == 45 && c.contains("atomic_load"))); }
                            }
                        }
                        else if op == 27 && weak(LLVMGetOrdering(i)) && !global(LLVMGetOperand(i, 0)) { at.push((i, true)); }
                        else if op == 28 && weak(LLVMGetOrdering(i)) && !global(LLVMGetOperand(i, 1)) { at.push((i, false)); }
                        // (adding and taking one without order is how references are counted)
                        else if op == 57 && weak(LLVMGetOrdering(i)) && LLVMGetAtomicRMWBinOp(i) > 2 { at.push((i, false)); }
                        i = LLVMGetNextInstruction(i);
                    }
                    bb = LLVMGetNextBasicBlock(bb);
                }
                for (i, after) in at {
                    LLVMPositionBuilderBefore(b, i); LLVMBuildCall2(b, t, p, std::ptr::null_mut(), 0, cs("").as_ptr());
                    if after { LLVMPositionBuilderBefore(b, LLVMGetNextInstruction(i)); LLVMBuildCall2(b, t, p, std::ptr::null_mut(), 0, cs("").as_ptr()); }
                }
            });
        }
        if opt { passes(m, "default<O1>"); }
        for l in late.iter() { let (f, d) = (LLVMGetNamedFunction(m, cs(l).as_ptr()), LLVMGetNamedFunction(m, cs(&format!("m_{}", l)).as_ptr())); if !f.is_null() && !d.is_null() { LLVMReplaceAllUsesWith(f, d); } }
        if points {
            let p = LLVMGetNamedFunction(m, cs("m_point").as_ptr());
            if !p.is_null() {
                let b = LLVMCreateBuilderInContext(ctx);
                let t = LLVMGlobalGetValueType(p);
                each_fn(m, |f| {
                    let n = name(f);
                    if n.starts_with("m_") || n.starts_with("os_") || LLVMIsDeclaration(f) != 0 { return; }
                    let mut at = vec![];
                    let mut bb = LLVMGetFirstBasicBlock(f);
                    while !bb.is_null() {
                        let mut i = LLVMGetFirstInstruction(bb);
                        while !i.is_null() {
                            let op = LLVMGetInstructionOpcode(i);
                            // acquire-side operations only: releases commute to the left
                            let acq = |o: u32| o == 4 || o == 6 || o == 7;
                            if op == 57 && acq(LLVMGetOrdering(i)) || op == 56 && acq(LLVMGetCmpXchgSuccessOrdering(i)) || (op == 27 || op == 28) && LLVMGetOrdering(i) == 7 { at.push(i); }
                            i = LLVMGetNextInstruction(i);
                        }
                        bb = LLVMGetNextBasicBlock(bb);
                    }
                    for i in at { LLVMPositionBuilderBefore(b, i); LLVMBuildCall2(b, t, p, std::ptr::null_mut(), 0, cs("").as_ptr()); }
                });
            }
        }
        let out = cs(&a[1]);
        LLVMWriteBitcodeToFile(m, out.as_ptr())
    }
}
/// Whether a (v0-mangled) function is one of the crates under test.
fn ours(n: &str) -> bool {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return false; }
    let mut i = 2;
    while i + 1 < b.len() {
        if b[i] == b'C' && b[i + 1] == b's' {
            let mut j = i + 2; while j < b.len() && b[j] != b'_' { j += 1; }
            j += 1; let k = j; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let l: usize = n[k..j].parse().unwrap_or(0);
            if j < b.len() && b[j] == b'_' { j += 1; }
            return n.get(j..j + l).map_or(false, |c| c.starts_with("wrus") || c == "harness" || c == "dummy");
        }
        i += 1;
    }
    false
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }
fn run(a: &[String]) -> i32 {
    expr::init();
    let t0 = Instant::now();
    let mut cfg = exec::Cfg { max_insts: 40_000_000, time_limit: 600.0, max_paths: 10_000_000, verbose: false, outdir: ".".into(), harness: a[1].clone(), args: vec![], trace: false, known: vec![], all: false, own: String::new(), skip: vec![], max_alloc: 1 << 26 };
    let mut force = false; let mut trust = false;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--args" => { i += 1; cfg.args = a[i].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); }
            "--out" => { i += 1; cfg.outdir = a[i].clone(); }
            "--time" => { i += 1; cfg.time_limit = a[i].parse().unwrap(); }
            "--insts" => { i += 1; cfg.max_insts = a[i].parse().unwrap(); }
            "--paths" => { i += 1; cfg.max_paths = a[i].parse().unwrap(); }
            "--known" => { i += 1; cfg.known.push(a[i].clone()); }
            "--own" => { i += 1; cfg.own = a[i].clone(); }
            "--skip" => { i += 1; cfg.skip.push(a[i].clone()); }
            "--all" => cfg.all = true,
            "--force" => force = true,
            "--trust" => trust = true,
            "-v" => cfg.verbose = true,
            "--trace" => cfg.trace = true,
            x => { eprintln!("bad option {}", x); return 2; }
        }
        i += 1;
    }
    let m = unsafe { load(LLVMContextCreate(), &a[0]) };
    let p = ir::Prog::load(m);
    let mut sv = solver::Solver::new(20000); sv.force = force; sv.trust = trust;
    let load_t = t0.elapsed().as_secs_f64();
    let mut e = exec::Engine { p, cfg, sv, work: vec![], covers: BTreeMap::new(), viols: BTreeMap::new(), called: HashSet::new(), unsupported: BTreeMap::new(), paths: 0, ended: 0, insts: 0, forks: 0, incomplete: vec![], asserts: 0, assert_q: 0, externs: BTreeSet::new(), samples: vec![], builtin: HashMap::new(), start: Instant::now(), profile: HashMap::new(), assert_ids: BTreeMap::new(), max_depth: 0, switches: 0 };
    let mut st = e.new_state();
    let f = match e.p.fname.get(&e.cfg.harness) { Some(f) => *f, None => { eprintln!("no harness {}", e.cfg.harness); return 2; } };
    let args: Vec<ir::V> = e.cfg.args.iter().map(|x| ir::V::C(*x as u64)).collect();
    if e.push(&mut st, f, args).is_err() { return 2; }
    e.run(st);
    let el = e.start.elapsed().as_secs_f64();
    if e.cfg.trace { let mut l: Vec<_> = e.profile.iter().collect(); l.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (f, n) in l.iter().take(25) { eprintln!("{:8} {}", n, e.p.funcs[**f as usize].name); } }
    let mut fns: Vec<String> = e.called.iter().map(|f| e.p.funcs[*f as usize].name.clone()).collect(); fns.sort();
    let s = &e.sv.st;
    let list = |v: &[String]| v.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",");
    let mut inc: Vec<String> = e.incomplete.clone(); inc.sort(); inc.dedup();
    let unsup: Vec<String> = e.unsupported.keys().cloned().collect();
    println!("{{\"harness\":\"{}\",\"args\":{:?},\"paths\":{},\"ended\":{},\"forks\":{},\"max_depth\":{},\"instructions\":{},\"asserts\":{},\"assert_queries\":{},\"thread_switches\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"domain_decisions\":{},\"cached\":{},\"confirmed\":{},\"model_hits\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"time\":{:.3},\"load_time\":{:.3},\"covers\":{{{}}},\"assert_ids\":{{{}}},\"violations\":[{}],\"incomplete\":[{}],\"unsupported\":[{}],\"samples\":[{}],\"functions\":[{}]}}",
        e.cfg.harness, e.cfg.args, e.paths, e.ended, e.forks, e.max_depth, e.insts, e.asserts, e.assert_q, e.switches, s.queries, s.sat, s.unsat, s.unknown, s.domain, s.cached, s.confirmed, s.model_hits, s.z3_time, s.max_query, el, load_t,
        e.covers.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","),
        e.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","),
        e.viols.iter().map(|(k, v)| format!("{{\"id\":\"{}\",\"file\":\"{}\",\"count\":{}}}", esc(k), esc(&v.0), v.1)).collect::<Vec<_>>().join(","),
        list(&inc), list(&unsup), list(&e.samples), list(&fns));
    0
}
