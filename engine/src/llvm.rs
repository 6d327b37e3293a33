#![allow(non_snake_case, non_camel_case_types, dead_code)]
// Minimal declarations of the stable LLVM-C API.
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong, c_void, c_double};
pub type P = *mut c_void;
pub type Ctx = P;
pub type Module = P;
pub type Value = P;
pub type Type = P;
pub type BB = P;
extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseIRInContext(ctx: Ctx, buf: P, out: *mut Module, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMWriteBitcodeToFile(m: Module, path: *const c_char) -> c_int;
    pub fn LLVMLinkModules2(dest: Module, src: Module) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Module) -> P;
    pub fn LLVMGetFirstFunction(m: Module) -> Value;
    pub fn LLVMGetNextFunction(f: Value) -> Value;
    pub fn LLVMGetFirstGlobal(m: Module) -> Value;
    pub fn LLVMGetNextGlobal(g: Value) -> Value;
    pub fn LLVMGetFirstGlobalAlias(m: Module) -> Value;
    pub fn LLVMGetNextGlobalAlias(g: Value) -> Value;
    pub fn LLVMAliasGetAliasee(a: Value) -> Value;
    pub fn LLVMGetNamedFunction(m: Module, n: *const c_char) -> Value;
    pub fn LLVMGetValueName2(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMSetValueName2(v: Value, n: *const c_char, len: usize);
    pub fn LLVMIsDeclaration(v: Value) -> c_int;
    pub fn LLVMGetLinkage(v: Value) -> c_uint;
    pub fn LLVMSetLinkage(v: Value, l: c_uint);
    pub fn LLVMSetVisibility(v: Value, l: c_uint);
    pub fn LLVMGetInitializer(v: Value) -> Value;
    pub fn LLVMIsThreadLocal(v: Value) -> c_int;
    pub fn LLVMIsGlobalConstant(v: Value) -> c_int;
    pub fn LLVMGlobalGetValueType(v: Value) -> Type;
    pub fn LLVMGetAlignment(v: Value) -> c_uint;
    pub fn LLVMSetSection(v: Value, s: *const c_char);
    pub fn LLVMCountParams(f: Value) -> c_uint;
    pub fn LLVMGetParam(f: Value, i: c_uint) -> Value;
    pub fn LLVMGetFirstBasicBlock(f: Value) -> BB;
    pub fn LLVMGetNextBasicBlock(b: BB) -> BB;
    pub fn LLVMBasicBlockAsValue(b: BB) -> Value;
    pub fn LLVMGetFirstInstruction(b: BB) -> Value;
    pub fn LLVMGetNextInstruction(i: Value) -> Value;
    pub fn LLVMGetBasicBlockTerminator(b: BB) -> Value;
    pub fn LLVMGetInstructionOpcode(i: Value) -> c_uint;
    pub fn LLVMGetNumOperands(v: Value) -> c_int;
    pub fn LLVMGetOperand(v: Value, i: c_uint) -> Value;
    pub fn LLVMTypeOf(v: Value) -> Type;
    pub fn LLVMGetTypeKind(t: Type) -> c_uint;
    pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
    pub fn LLVMGetElementType(t: Type) -> Type;
    pub fn LLVMGetArrayLength2(t: Type) -> u64;
    pub fn LLVMGetVectorSize(t: Type) -> c_uint;
    pub fn LLVMABISizeOfType(td: P, t: Type) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: P, t: Type) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: P, t: Type) -> c_uint;
    pub fn LLVMOffsetOfElement(td: P, t: Type, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetICmpPredicate(i: Value) -> c_uint;
    pub fn LLVMGetFCmpPredicate(i: Value) -> c_uint;
    pub fn LLVMGetGEPSourceElementType(i: Value) -> Type;
    pub fn LLVMGetAllocatedType(i: Value) -> Type;
    pub fn LLVMGetNumSuccessors(i: Value) -> c_uint;
    pub fn LLVMGetSuccessor(i: Value, n: c_uint) -> BB;
    pub fn LLVMGetSwitchDefaultDest(i: Value) -> BB;
    pub fn LLVMGetSwitchCaseValue(i: Value, n: c_uint) -> Value;
    pub fn LLVMGetCondition(i: Value) -> Value;
    pub fn LLVMCountIncoming(i: Value) -> c_uint;
    pub fn LLVMGetIncomingValue(i: Value, n: c_uint) -> Value;
    pub fn LLVMGetIncomingBlock(i: Value, n: c_uint) -> BB;
    pub fn LLVMGetCalledValue(i: Value) -> Value;
    pub fn LLVMGetNumArgOperands(i: Value) -> c_uint;
    pub fn LLVMGetNormalDest(i: Value) -> BB;
    pub fn LLVMGetUnwindDest(i: Value) -> BB;
    pub fn LLVMGetNumIndices(i: Value) -> c_uint;
    pub fn LLVMGetIndices(i: Value) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(i: Value) -> c_uint;
    pub fn LLVMGetMaskValue(i: Value, n: c_uint) -> c_int;
    pub fn LLVMGetNumClauses(i: Value) -> c_uint;
    pub fn LLVMIsCleanup(i: Value) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(i: Value) -> c_uint;
    pub fn LLVMGetOrdering(i: Value) -> c_uint;
    pub fn LLVMGetCmpXchgSuccessOrdering(i: Value) -> c_uint;
    pub fn LLVMGetConstOpcode(i: Value) -> c_uint;
    pub fn LLVMConstIntGetZExtValue(i: Value) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(i: Value, l: *mut c_int) -> c_double;
    pub fn LLVMGetAggregateElement(i: Value, n: c_uint) -> Value;
    pub fn LLVMGetAsString(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMGetRawDataValues(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMIsConstantString(v: Value) -> c_int;
    pub fn LLVMIsNull(v: Value) -> c_int;
    pub fn LLVMIsUndef(v: Value) -> c_int;
    pub fn LLVMIsPoison(v: Value) -> c_int;
    pub fn LLVMIsConstant(v: Value) -> c_int;
    pub fn LLVMIsAConstantInt(v: Value) -> Value;
    pub fn LLVMIsAConstantFP(v: Value) -> Value;
    pub fn LLVMIsAConstantExpr(v: Value) -> Value;
    pub fn LLVMIsAConstantPointerNull(v: Value) -> Value;
    pub fn LLVMIsAConstantAggregateZero(v: Value) -> Value;
    pub fn LLVMIsAConstantDataSequential(v: Value) -> Value;
    pub fn LLVMIsAConstantArray(v: Value) -> Value;
    pub fn LLVMIsAConstantStruct(v: Value) -> Value;
    pub fn LLVMIsAConstantVector(v: Value) -> Value;
    pub fn LLVMIsAFunction(v: Value) -> Value;
    pub fn LLVMIsAGlobalVariable(v: Value) -> Value;
    pub fn LLVMIsAGlobalAlias(v: Value) -> Value;
    pub fn LLVMIsAInlineAsm(v: Value) -> Value;
    pub fn LLVMIsAInstruction(v: Value) -> Value;
    pub fn LLVMIsAArgument(v: Value) -> Value;
    pub fn LLVMIsAUndefValue(v: Value) -> Value;
    pub fn LLVMPrintValueToString(v: Value) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Type) -> *mut c_char;
    pub fn LLVMCreatePassBuilderOptions() -> P;
    pub fn LLVMPassBuilderOptionsSetLoopVectorization(o: P, v: c_int);
    pub fn LLVMPassBuilderOptionsSetLoopInterleaving(o: P, v: c_int);
    pub fn LLVMPassBuilderOptionsSetSLPVectorization(o: P, v: c_int);
    pub fn LLVMPassBuilderOptionsSetLoopUnrolling(o: P, v: c_int);
    pub fn LLVMPassBuilderOptionsSetInlinerThreshold(o: P, v: c_int);
    pub fn LLVMPassBuilderOptionsSetMergeFunctions(o: P, v: c_int);
    pub fn LLVMRunPasses(m: Module, passes: *const c_char, tm: P, o: P) -> P;
    pub fn LLVMGetErrorMessage(e: P) -> *mut c_char;
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, len: usize) -> c_uint;
    pub fn LLVMCreateEnumAttribute(c: Ctx, k: c_uint, v: u64) -> P;
    pub fn LLVMAddAttributeAtIndex(f: Value, i: c_uint, a: P);
    pub fn LLVMRemoveEnumAttributeAtIndex(f: Value, i: c_uint, k: c_uint);
    pub fn LLVMCreateBuilderInContext(c: Ctx) -> P;
    pub fn LLVMPositionBuilderBefore(b: P, i: Value);
    pub fn LLVMBuildCall2(b: P, t: Type, f: Value, args: *mut Value, n: c_uint, name: *const c_char) -> Value;
    pub fn LLVMIsFunctionVarArg(t: Type) -> c_int;
    pub fn LLVMFunctionType(r: Type, p: *mut Type, n: c_uint, va: c_int) -> Type;
    pub fn LLVMVoidTypeInContext(c: Ctx) -> Type;
    pub fn LLVMInt32TypeInContext(c: Ctx) -> Type;
    pub fn LLVMConstInt(t: Type, v: u64, s: c_int) -> Value;
    pub fn LLVMAddFunction(m: Module, n: *const c_char, t: Type) -> Value;
    pub fn LLVMReplaceAllUsesWith(a: Value, b: Value);
    pub fn LLVMDeleteFunction(f: Value);
    pub fn LLVMStripModuleDebugInfo(m: Module) -> c_int;
    pub fn LLVMGetInlineAsmAsmString(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMHasPersonalityFn(f: Value) -> c_int;
    pub fn LLVMVerifyModule(m: Module, a: c_uint, msg: *mut *mut c_char) -> c_int;
}
pub fn name(v: Value) -> String {
    unsafe { let mut n = 0usize; let p = LLVMGetValueName2(v, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() }
}
pub fn show(v: Value) -> String { unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned() } }
pub fn show_ty(v: Type) -> String { unsafe { CStr::from_ptr(LLVMPrintTypeToString(v)).to_string_lossy().into_owned() } }
pub fn load(ctx: Ctx, path: &str) -> Module {
    unsafe {
        let c = CString::new(path).unwrap();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(c.as_ptr(), &mut buf, &mut msg) != 0 { panic!("{}: {:?}", path, CStr::from_ptr(msg)); }
        let mut m: Module = std::ptr::null_mut();
        if LLVMParseIRInContext(ctx, buf, &mut m, &mut msg) != 0 { panic!("{}: {:?}", path, CStr::from_ptr(msg)); }
        m
    }
}
pub fn cs(s: &str) -> CString { CString::new(s).unwrap() }
