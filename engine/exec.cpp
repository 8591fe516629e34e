// Symbolic executor over LLVM IR.
#include "ir.h"
#include <llvm-c/BitReader.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Target.h>
#include <unordered_set>
#include <set>
#include <algorithm>
#include <chrono>
#include <functional>
#include <list>
#include <array>
#include <unistd.h>
using std::string; using std::vector;
static LLVMModuleRef M; static LLVMTargetDataRef TD;
static std::unordered_map<LLVMValueRef, Func *> funcs; static std::unordered_map<u64, Func *> funcByAddr; static vector<Func *> funcList;
static std::unordered_map<LLVMValueRef, u64> globalAddr; static u64 tlsSize = 0; struct TlsG { u64 off; LLVMValueRef g; u64 size; }; static std::unordered_map<u64, TlsG> tlsByToken; 
static const u64 GLOBAL_BASE = 0x10000000ull, CODE_BASE = 0x20000000ull, STACK_BASE = 0x7ff000000000ull, STACK_SZ = 0x200000, TLS_BASE = 0x7fe000000000ull, TLS_TOKEN = 0x30000000ull, ERRNO_BASE = 0x31000000ull;
static const int MAXT = 5;
[[noreturn]] static void die(const string &s) { fprintf(stderr, "engine error: %s\n", s.c_str()); printf("{\"status\":\"error\",\"error\":\"%s\"}\n", s.c_str()); fflush(stdout); _exit(3); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------- options
static double optTimeout = 600; static u64 optMaxSteps = 200000000ull; static int optPreempt = 3; static bool optTrace = false; static int optMaxViol = 12; static u64 optMaxPaths = 1000000000ull; static bool optPrintf = false; static u64 optMemMB = 6000;

// ---------------- types
static void flat(LLVMTypeRef t, vector<u8> &w, vector<u64> &off, u64 base) {
  switch(LLVMGetTypeKind(t)) {
  case LLVMIntegerTypeKind: w.push_back(LLVMGetIntTypeWidth(t)); off.push_back(base); return;
  case LLVMPointerTypeKind: w.push_back(64); off.push_back(base); return;
  case LLVMFloatTypeKind: w.push_back(32); off.push_back(base); return;
  case LLVMDoubleTypeKind: w.push_back(64); off.push_back(base); return;
  case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for(unsigned i = 0; i < n; i++) flat(LLVMStructGetTypeAtIndex(t, i), w, off, base + LLVMOffsetOfElement(TD, t, i)); return; }
  case LLVMArrayTypeKind: { LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), s = LLVMABISizeOfType(TD, et); for(u64 i = 0; i < n; i++) flat(et, w, off, base + i * s); return; }
  case LLVMVoidTypeKind: return;
  default: w.push_back(0); off.push_back(base); return; }
}
static unsigned nelts(LLVMTypeRef t) { vector<u8> w; vector<u64> o; flat(t, w, o, 0); return w.size(); }

static u64 constPtr(LLVMValueRef v, bool &ok);
static u128 bigInt(LLVMValueRef v, unsigned w) { if(w <= 64) return LLVMConstIntGetZExtValue(v) & maskw(w); char *s = LLVMPrintValueToString(v); char *p = strchr(s, ' '); bool neg = false; u128 r = 0; p++; if(*p == '-') { neg = true; p++; } if(!strncmp(p, "true", 4)) r = 1; else while(*p >= '0' && *p <= '9') r = r * 10 + (*p++ - '0'); LLVMDisposeMessage(s); if(neg) r = -r; return r & maskw(w); }
static V constScalar(LLVMValueRef v) {
  LLVMTypeRef t = LLVMTypeOf(v);
  if(LLVMIsAConstantInt(v)) { unsigned w = LLVMGetIntTypeWidth(t); u128 x = bigInt(v, w); if(w <= 64) return V((u64)x); return V(0, mkConst(x, w)); }
  if(LLVMIsAConstantFP(v)) { LLVMBool li; double d = LLVMConstRealGetDouble(v, &li); if(LLVMGetTypeKind(t) == LLVMFloatTypeKind) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return V(x); } u64 x; memcpy(&x, &d, 8); return V(x); }
  if(LLVMIsAUndefValue(v) || LLVMIsAConstantPointerNull(v) || LLVMIsAConstantAggregateZero(v)) { if(LLVMGetTypeKind(t) == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(t) > 64) return V(0, mkConst(0, LLVMGetIntTypeWidth(t))); return V(0); }
  bool ok = true; u64 x = constPtr(v, ok); if(!ok) { char *s = LLVMPrintValueToString(v); die(string("unsupported constant ") + s); } return V(x);
}
static u64 constPtr(LLVMValueRef v, bool &ok) {
  if(LLVMIsAGlobalVariable(v)) { auto it = globalAddr.find(v); if(it == globalAddr.end()) { ok = false; return 0; } return it->second; }
  if(LLVMIsAFunction(v)) return funcs[v]->addr;
  if(LLVMIsAGlobalAlias(v)) return constPtr(LLVMAliasGetAliasee(v), ok);
  if(LLVMIsAConstantInt(v)) return LLVMConstIntGetZExtValue(v);
  if(LLVMIsAUndefValue(v) || LLVMIsAConstantPointerNull(v)) return 0;
  if(LLVMIsAConstantExpr(v)) {
    switch(LLVMGetConstOpcode(v)) {
    case LLVMBitCast: case LLVMIntToPtr: case LLVMPtrToInt: case LLVMTrunc: { u64 x = constPtr(LLVMGetOperand(v, 0), ok); LLVMTypeRef t = LLVMTypeOf(v); if(LLVMGetTypeKind(t) == LLVMIntegerTypeKind) x &= (u64)maskw(LLVMGetIntTypeWidth(t)); return x; }
    case LLVMAdd: return constPtr(LLVMGetOperand(v, 0), ok) + constPtr(LLVMGetOperand(v, 1), ok);
    case LLVMSub: return constPtr(LLVMGetOperand(v, 0), ok) - constPtr(LLVMGetOperand(v, 1), ok);
    case LLVMGetElementPtr: {
      u64 b = constPtr(LLVMGetOperand(v, 0), ok); LLVMTypeRef t = LLVMGetGEPSourceElementType(v); int n = LLVMGetNumOperands(v);
      for(int i = 1; i < n; i++) { s64 idx = LLVMConstIntGetSExtValue(LLVMGetOperand(v, i)); if(i == 1) { b += idx * LLVMABISizeOfType(TD, t); continue; }
        if(LLVMGetTypeKind(t) == LLVMStructTypeKind) { b += LLVMOffsetOfElement(TD, t, idx); t = LLVMStructGetTypeAtIndex(t, idx); } else { t = LLVMGetElementType(t); b += idx * LLVMABISizeOfType(TD, t); } }
      return b; }
    default: ok = false; return 0; } }
  ok = false; return 0;
}

// ---------------- intrinsics
enum Intr { I_NONE = 0, I_NOP, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_EXPECT, I_ASSUME, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_BSWAP, I_CTPOP, I_CTLZ, I_CTTZ, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_FSHL, I_FSHR, I_USUBSAT, I_UADDSAT,
  I_VASTART, I_VACOPY, I_RETADDR, I_FRAMEADDR, I_TLS, I_OBJSIZE, I_ISCONST, I_TRAP, I_STACKSAVE, I_STACKRESTORE, I_RET0, I_RET1, I_STRLEN, I_MEMCMP, I_STRNCPY, I_ERRNO,
  I_ABORT, I_ASSERTFAIL, SX_VAR, SX_BYTES, SX_ASSUME, SX_ASSERT, SX_REACH, SX_ABORTOK, SX_FAULTOK, SX_STOP, SX_CONCRETE, SX_CHOOSE, SX_MAP, SX_UNMAP, SX_PROTECT, SX_ZERO, SX_PROT, SX_FORKR, SX_SNAP, SX_SNAP8, SX_SNAP64, SX_SAME,
  SX_LOCK, SX_UNLOCK, SX_HELD, SX_LOCKHELD, SX_YIELD, SX_SPAWN, SX_JOIN, SX_RACES, SX_TID, SX_PRINT, SX_MUSTNOT, SX_ENDTHREAD };
static const std::pair<const char *, int> exactIntr[] = { {"memcpy", I_MEMCPY}, {"memmove", I_MEMMOVE}, {"memset", I_MEMSET}, {"strlen", I_STRLEN}, {"memcmp", I_MEMCMP}, {"bcmp", I_MEMCMP}, {"strncpy", I_STRNCPY}, {"__errno_location", I_ERRNO},
  {"sx_abort", I_ABORT}, {"abort", I_ABORT}, {"__assert_fail", I_ASSERTFAIL}, {"sx_bytes", SX_BYTES}, {"sx_assume", SX_ASSUME}, {"sx_assert", SX_ASSERT}, {"sx_reach", SX_REACH}, {"sx_abort_allowed", SX_ABORTOK}, {"sx_fault_allowed", SX_FAULTOK}, {"sx_stop", SX_STOP}, {"sx_concrete", SX_CONCRETE}, {"sx_choose", SX_CHOOSE},
  {"sx_u64", SX_VAR}, {"sx_u32", SX_VAR}, {"sx_u16", SX_VAR}, {"sx_u8", SX_VAR}, {"sx_map", SX_MAP}, {"sx_unmap", SX_UNMAP}, {"sx_protect", SX_PROTECT}, {"sx_zero", SX_ZERO}, {"sx_prot", SX_PROT}, {"sx_fork_region", SX_FORKR}, {"sx_snap", SX_SNAP}, {"sx_snap_u8", SX_SNAP8}, {"sx_snap_u64", SX_SNAP64}, {"sx_same", SX_SAME},
  {"sx_lock", SX_LOCK}, {"sx_unlock", SX_UNLOCK}, {"sx_locks_held", SX_HELD}, {"sx_lock_held", SX_LOCKHELD}, {"sx_yield", SX_YIELD}, {"sx_spawn", SX_SPAWN}, {"sx_join", SX_JOIN}, {"sx_races", SX_RACES}, {"sx_tid", SX_TID}, {"sx_print", SX_PRINT}, {"sx_must_not_return", SX_MUSTNOT}, {"sx_end_thread", SX_ENDTHREAD} };
static const std::pair<const char *, int> prefIntr[] = { {"llvm.memcpy.", I_MEMCPY}, {"llvm.memmove.", I_MEMMOVE}, {"llvm.memset.", I_MEMSET}, {"llvm.lifetime.", I_NOP}, {"llvm.dbg.", I_NOP}, {"llvm.expect.", I_EXPECT}, {"llvm.assume", I_ASSUME}, {"llvm.uadd.with.overflow", I_UADDO}, {"llvm.usub.with.overflow", I_USUBO}, {"llvm.umul.with.overflow", I_UMULO}, {"llvm.sadd.with.overflow", I_SADDO}, {"llvm.ssub.with.overflow", I_SSUBO}, {"llvm.smul.with.overflow", I_SMULO},
  {"llvm.bswap.", I_BSWAP}, {"llvm.ctpop.", I_CTPOP}, {"llvm.ctlz.", I_CTLZ}, {"llvm.cttz.", I_CTTZ}, {"llvm.umin.", I_UMIN}, {"llvm.umax.", I_UMAX}, {"llvm.smin.", I_SMIN}, {"llvm.smax.", I_SMAX}, {"llvm.abs.", I_ABS}, {"llvm.fshl.", I_FSHL}, {"llvm.fshr.", I_FSHR}, {"llvm.usub.sat", I_USUBSAT}, {"llvm.uadd.sat", I_UADDSAT},
  {"llvm.va_start", I_VASTART}, {"llvm.va_end", I_NOP}, {"llvm.va_copy", I_VACOPY}, {"llvm.returnaddress", I_RETADDR}, {"llvm.frameaddress", I_FRAMEADDR}, {"llvm.threadlocal.address", I_TLS}, {"llvm.objectsize", I_OBJSIZE}, {"llvm.is.constant", I_ISCONST}, {"llvm.trap", I_TRAP}, {"llvm.ubsantrap", I_TRAP}, {"llvm.stacksave", I_STACKSAVE}, {"llvm.stackrestore", I_STACKRESTORE}, {"llvm.prefetch", I_NOP}, {"llvm.donothing", I_NOP}, {"llvm.experimental.noalias", I_NOP}, {"llvm.var.annotation", I_NOP} };

// ---------------- decode
struct DecCtx { Func *f; std::unordered_map<LLVMValueRef, s32> slot; std::unordered_map<LLVMBasicBlockRef, s32> blk; u32 n = 0; };
static Op mkOp(DecCtx &d, LLVMValueRef v) { Op o; if(LLVMIsAConstant(v)) { o.slot = -1; if(nelts(LLVMTypeOf(v)) > 1) { o.c = V(0); return o; } o.c = constScalar(v); return o; } if(LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMMetadataTypeKind || LLVMIsAInlineAsm(v)) return o; auto it = d.slot.find(v); if(it == d.slot.end()) die("operand without slot"); o.slot = it->second; return o; }
static u8 tw(LLVMTypeRef t) { switch(LLVMGetTypeKind(t)) { case LLVMIntegerTypeKind: { unsigned w = LLVMGetIntTypeWidth(t); return w <= 128 ? w : 0; } case LLVMPointerTypeKind: return 64; case LLVMFloatTypeKind: return 32; case LLVMDoubleTypeKind: return 64; default: return 0; } }
static void mkEdge(DecCtx &d, Edge &e, LLVMBasicBlockRef from, LLVMBasicBlockRef to) {
  e.blk = d.blk[to];
  for(LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMIsAPHINode(i); i = LLVMGetNextInstruction(i)) {
    unsigned n = LLVMCountIncoming(i); unsigned ne = nelts(LLVMTypeOf(i));
    for(unsigned k = 0; k < n; k++) if(LLVMGetIncomingBlock(i, k) == from) { LLVMValueRef iv = LLVMGetIncomingValue(i, k); Op o = mkOp(d, iv); for(unsigned q = 0; q < ne; q++) { Op oq = o; if(o.slot >= 0) oq.slot += q; e.moves.push_back({d.slot[i] + (s32)q, oq}); } break; } }
}
static void decode(Func *f) {
  if(f->decoded || f->decl) return; f->decoded = true; DecCtx d; d.f = f;
  for(unsigned i = 0; i < LLVMCountParams(f->v); i++) { LLVMValueRef p = LLVMGetParam(f->v, i); unsigned n = nelts(LLVMTypeOf(p)); d.slot[p] = d.n; f->params.push_back({(s32)d.n, (u16)n}); d.n += n; }
  s32 bi = 0; for(LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) { d.blk[b] = bi++; for(LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { unsigned n = nelts(LLVMTypeOf(i)); if(n) { d.slot[i] = d.n; d.n += n; } } }
  f->nslots = d.n; f->blocks.resize(bi); bi = 0;
  for(LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b), bi++) {
    auto &out = f->blocks[bi].in;
    for(LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode oc = LLVMGetInstructionOpcode(i); if(oc == LLVMPHI) continue;
      Inst x; x.line = LLVMGetDebugLocLine(i); LLVMTypeRef t = LLVMTypeOf(i); x.w = tw(t); x.nelt = nelts(t); if(x.nelt) x.dst = d.slot[i];
      auto bin = [&](Kind k) { x.op = O_BIN; x.kind = k; x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1))}; if(!x.w) { x.op = O_BAD; x.s = "vector op"; } };
      auto fbin = [&](char k) { x.op = O_FBIN; x.kind = k; x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1))}; };
      auto cast = [&](OpC o) { x.op = o; x.a = {mkOp(d, LLVMGetOperand(i, 0))}; x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); if(!x.w || !x.w2) { x.op = O_BAD; x.s = "vector cast"; } };
      auto fcast = [&](char k) { x.op = O_FCAST; x.kind = k; x.a = {mkOp(d, LLVMGetOperand(i, 0))}; x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); };
      auto memTy = [&](LLVMTypeRef mt) { vector<u8> w; flat(mt, w, x.eo, 0); x.aw = w; };
      switch(oc) {
      case LLVMAdd: bin(K_ADD); break; case LLVMSub: bin((Kind)200); break; case LLVMMul: bin(K_MUL); break; case LLVMUDiv: bin(K_UDIV); break; case LLVMSDiv: bin(K_SDIV); break; case LLVMURem: bin(K_UREM); break; case LLVMSRem: bin(K_SREM); break;
      case LLVMShl: bin(K_SHL); break; case LLVMLShr: bin(K_LSHR); break; case LLVMAShr: bin(K_ASHR); break; case LLVMAnd: bin(K_AND); break; case LLVMOr: bin(K_OR); break; case LLVMXor: bin(K_XOR); break;
      case LLVMFAdd: fbin('+'); break; case LLVMFSub: fbin('-'); break; case LLVMFMul: fbin('*'); break; case LLVMFDiv: fbin('/'); break; case LLVMFRem: fbin('%'); break; case LLVMFNeg: fcast('n'); break;
      case LLVMTrunc: cast(O_TRUNC); break; case LLVMZExt: cast(O_ZEXT); break; case LLVMSExt: cast(O_SEXT); break;
      case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: cast(O_MOVE); if(x.w < x.w2) x.op = O_TRUNC; else if(x.w > x.w2) x.op = O_ZEXT; break;
      case LLVMFreeze: x.op = O_MOVE; x.a = {mkOp(d, LLVMGetOperand(i, 0))}; break;
      case LLVMFPToUI: fcast('u'); break; case LLVMFPToSI: fcast('s'); break; case LLVMUIToFP: fcast('U'); break; case LLVMSIToFP: fcast('S'); break; case LLVMFPTrunc: fcast('t'); break; case LLVMFPExt: fcast('e'); break;
      case LLVMICmp: x.op = O_ICMP; x.pred = LLVMGetICmpPredicate(i); x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1))}; if(!x.w2) { x.op = O_BAD; x.s = "vector icmp"; } break;
      case LLVMFCmp: x.op = O_FCMP; x.pred = LLVMGetFCmpPredicate(i); x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1))}; break;
      case LLVMSelect: x.op = O_SELECT; x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1)), mkOp(d, LLVMGetOperand(i, 2))}; if(!x.w) { x.op = O_BAD; x.s = "agg select"; } break;
      case LLVMLoad: x.op = O_LOAD; x.a = {mkOp(d, LLVMGetOperand(i, 0))}; memTy(t); x.atomic = LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic; break;
      case LLVMStore: x.op = O_STORE; x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1))}; memTy(LLVMTypeOf(LLVMGetOperand(i, 0))); x.atomic = LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic; break;
      case LLVMGetElementPtr: { x.op = O_GEP; x.a = {mkOp(d, LLVMGetOperand(i, 0))}; LLVMTypeRef gt = LLVMGetGEPSourceElementType(i); int n = LLVMGetNumOperands(i); u64 off = 0;
        for(int q = 1; q < n; q++) { LLVMValueRef ix = LLVMGetOperand(i, q); u64 sc; if(q == 1) sc = LLVMABISizeOfType(TD, gt); else if(LLVMGetTypeKind(gt) == LLVMStructTypeKind) { u64 c = LLVMConstIntGetZExtValue(ix); off += LLVMOffsetOfElement(TD, gt, c); gt = LLVMStructGetTypeAtIndex(gt, c); continue; } else { gt = LLVMGetElementType(gt); sc = LLVMABISizeOfType(TD, gt); }
          if(LLVMIsAConstantInt(ix)) off += LLVMConstIntGetSExtValue(ix) * sc; else { Op o = mkOp(d, ix); if(o.slot < 0) off += o.c.c * sc; else x.g.push_back({o.slot, sc, tw(LLVMTypeOf(ix))}); } }
        x.k = off; break; }
      case LLVMAlloca: { x.op = O_ALLOCA; x.a = {mkOp(d, LLVMGetOperand(i, 0))}; x.k = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)); x.w2 = std::min<unsigned>(LLVMGetAlignment(i), 128); break; }
      case LLVMCall: { x.op = O_CALL; LLVMValueRef cv = LLVMGetCalledValue(i); if(LLVMIsAInlineAsm(cv)) { x.op = O_BAD; x.s = "inline asm"; char *sa = LLVMPrintValueToString(cv); if(strstr(sa, "\"\"")) { x.op = O_MOVE; x.a = {Op()}; if(x.dst < 0) x.op = O_FENCE; } LLVMDisposeMessage(sa); break; }
        unsigned n = LLVMGetNumArgOperands(i); 
        if(LLVMIsAFunction(cv)) { x.callee = funcs[cv]; if(!strncmp(x.callee->name.c_str(), "llvm.dbg.", 9)) continue; }
        else if(LLVMIsAGlobalAlias(cv)) { LLVMValueRef al = LLVMAliasGetAliasee(cv); x.callee = funcs[al]; }
        x.a.push_back(x.callee ? Op() : mkOp(d, cv));
        for(unsigned q = 0; q < n; q++) { LLVMValueRef av = LLVMGetOperand(i, q); LLVMTypeRef at = LLVMTypeOf(av); if(LLVMGetTypeKind(at) == LLVMMetadataTypeKind) continue; unsigned ne = nelts(at); Op o = mkOp(d, av); vector<u8> w; vector<u64> oo; flat(at, w, oo, 0); for(unsigned z = 0; z < ne; z++) { Op oz = o; if(o.slot >= 0) oz.slot += z; x.a.push_back(oz); x.aw.push_back(w[z]); } }
        break; }
      case LLVMRet: x.op = O_RET; if(LLVMGetNumOperands(i)) { LLVMValueRef rv = LLVMGetOperand(i, 0); unsigned ne = nelts(LLVMTypeOf(rv)); Op o = mkOp(d, rv); for(unsigned z = 0; z < ne; z++) { Op oz = o; if(o.slot >= 0) oz.slot += z; x.a.push_back(oz); } } break;
      case LLVMBr: if(LLVMIsConditional(i)) { x.op = O_CBR; x.a = {mkOp(d, LLVMGetCondition(i))}; x.edges.resize(2); mkEdge(d, x.edges[0], b, LLVMGetSuccessor(i, 0)); mkEdge(d, x.edges[1], b, LLVMGetSuccessor(i, 1)); } else { x.op = O_BR; x.edges.resize(1); mkEdge(d, x.edges[0], b, LLVMGetSuccessor(i, 0)); } break;
      case LLVMSwitch: { x.op = O_SWITCH; x.a = {mkOp(d, LLVMGetOperand(i, 0))}; x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); unsigned n = LLVMGetNumSuccessors(i); x.edges.resize(n); mkEdge(d, x.edges[0], b, LLVMGetSuccessor(i, 0)); for(unsigned q = 1; q < n; q++) { x.cases.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(i, 2 * q))); mkEdge(d, x.edges[q], b, LLVMGetSuccessor(i, q)); } break; }
      case LLVMUnreachable: x.op = O_UNREACH; break;
      case LLVMExtractValue: { x.op = O_MOVE; LLVMValueRef av = LLVMGetOperand(i, 0); Op o = mkOp(d, av); LLVMTypeRef at = LLVMTypeOf(av); const unsigned *ix = LLVMGetIndices(i); unsigned ni = LLVMGetNumIndices(i); unsigned base = 0; for(unsigned q = 0; q < ni; q++) { if(LLVMGetTypeKind(at) == LLVMStructTypeKind) { for(unsigned z = 0; z < ix[q]; z++) base += nelts(LLVMStructGetTypeAtIndex(at, z)); at = LLVMStructGetTypeAtIndex(at, ix[q]); } else { at = LLVMGetElementType(at); base += ix[q] * nelts(at); } } if(o.slot >= 0) o.slot += base; x.a = {o}; break; }
      case LLVMInsertValue: { x.op = O_MOVE; x.kind = 1; LLVMValueRef av = LLVMGetOperand(i, 0), iv = LLVMGetOperand(i, 1); Op o = mkOp(d, av); LLVMTypeRef at = LLVMTypeOf(av); const unsigned *ix = LLVMGetIndices(i); unsigned ni = LLVMGetNumIndices(i); unsigned base = 0; for(unsigned q = 0; q < ni; q++) { if(LLVMGetTypeKind(at) == LLVMStructTypeKind) { for(unsigned z = 0; z < ix[q]; z++) base += nelts(LLVMStructGetTypeAtIndex(at, z)); at = LLVMStructGetTypeAtIndex(at, ix[q]); } else { at = LLVMGetElementType(at); base += ix[q] * nelts(at); } } x.a = {o, mkOp(d, iv)}; x.k = base; x.w2 = nelts(LLVMTypeOf(iv)); break; }
      case LLVMAtomicRMW: x.op = O_RMW; x.kind = LLVMGetAtomicRMWBinOp(i); x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1))}; x.atomic = true; break;
      case LLVMAtomicCmpXchg: x.op = O_CMPXCHG; x.a = {mkOp(d, LLVMGetOperand(i, 0)), mkOp(d, LLVMGetOperand(i, 1)), mkOp(d, LLVMGetOperand(i, 2))}; x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 1))); x.atomic = true; break;
      case LLVMFence: x.op = O_FENCE; break;
      default: { x.op = O_BAD; char *s = LLVMPrintValueToString(i); x.s = s; LLVMDisposeMessage(s); } }
      out.push_back(std::move(x));
    } }
}

// ---------------- state
struct Input { string name; E var; };
struct Frame { Func *f; s32 blk = 0, ip = 0; vector<V> r; u64 sp; s32 dst = -1; vector<V> va; u64 ra = 0; };
typedef std::array<u32, MAXT> VC;
struct Thread { vector<Frame> st; u64 sp = 0; int status = 0; /*0 run 1 blocked 2 done 3 join*/ u64 wait = 0; VC vc{}; bool sched = false; int nheld = 0; };
struct Shadow { int wt = -1; u32 wc = 0; bool watomic = false; u32 wline = 0; Func *wf = nullptr; u32 rc[MAXT] = {0}; u32 rline[MAXT] = {0}; bool ratomic[MAXT] = {0}; };
struct Snap { Ref<Region> r; u64 addr, len; };
struct LockSt { int owner = -1; VC vc{}; };
struct State {
  Mem mem; vector<Thread> th; int cur = 0; vector<E> cons; std::unordered_map<E, bool> decided; std::unordered_map<E, u64> eqs; std::unordered_map<E, u8> align; std::shared_ptr<ModelMap> model = std::make_shared<ModelMap>();
  E abortOk, faultOk; vector<Input> inputs; std::map<string, int> names; vector<int> sched; int preempts = 0; std::map<u64, LockSt> locks; vector<Snap> snaps; bool races = false; std::shared_ptr<std::unordered_map<u64, Shadow>> shadow; u64 steps = 0; u64 id = 0; std::set<string> dummy;
};
static u64 nextState = 1; static vector<State *> work; 
static struct { u64 paths = 0, ends = 0, aborts = 0, faults = 0, killed = 0, forks = 0, instrs = 0, asserts = 0, assertSolver = 0, assumesCut = 0, incomplete = 0, schedPoints = 0, maxcons = 0; std::map<string, u64> reached, assertIds; vector<string> errors; } st;
struct Viol { string id, loc, stack; vector<std::pair<string, string>> inputs; vector<int> sched; string kind; };
static vector<Viol> viols; static std::set<string> violSites; static std::map<string, Viol> witness;
struct Done {}; // thrown when the current path ends
struct Again {}; // re-execute the current instruction (address forked etc.)

static ModelMap *evModel = nullptr;
static std::shared_ptr<ModelMap> evHold;
static u128 evalS(State &s, E e) { if(e->isConst()) return e->val; if(evModel != s.model.get()) { evHold = s.model; evModel = s.model.get(); evalBegin(); } return evalCached(e, *evModel); }

static const bool slowLog = getenv("SX_SLOW") != nullptr; static const double slowMin = slowLog ? atof(getenv("SX_SLOW")) : 0; static string curStack(State &s);
static Res check(State &s, E extra, std::shared_ptr<ModelMap> *out) {
  static vector<u32> mark; static u32 epoch = 0; if(mark.size() < varCount()) mark.resize(varCount() + 64, 0); epoch++;
  vector<E> q; q.push_back(extra); for(u32 v : *extra->vars) mark[v] = epoch;
  vector<bool> in(s.cons.size(), false); bool ch = true;
  while(ch) { ch = false; for(size_t i = 0; i < s.cons.size(); i++) if(!in[i]) { bool hit = false; for(u32 v : *s.cons[i]->vars) if(mark[v] == epoch) { hit = true; break; } if(hit) { in[i] = true; ch = true; q.push_back(s.cons[i]); for(u32 v : *s.cons[i]->vars) mark[v] = epoch; } } }
  ModelMap m; double tq = slowLog ? gSolver.secs : 0; Res r = solverCheck(q, out ? &m : nullptr); if(slowLog && gSolver.secs - tq > slowMin) fprintf(stderr, "SLOW %.1fs res %d %s\n", gSolver.secs - tq, (int)r, curStack(s).c_str());
  if(r == R_SAT && out) { auto nm = std::make_shared<ModelMap>(*s.model); for(auto &kv : m) (*nm)[kv.first] = kv.second; *out = nm; }
  if(r == R_UNKNOWN) st.incomplete++;
  return r;
}
static E norm(State &s, E e) {
  for(int i = 0; i < 64; i++) { if(e->isConst()) return e; auto it = s.eqs.find(e); if(it != s.eqs.end()) return mkConst(it->second, e->w); if(e->w == 1) { auto d = s.decided.find(e); if(d != s.decided.end()) return mkBool(d->second); E n = mkNot(e); d = s.decided.find(n); if(d != s.decided.end()) return mkBool(!d->second); }
    if(e->k == K_ITE) { E c = norm(s, e->a); if(c->isConst()) { e = c->val ? e->b : e->c; continue; } } 
    if(e->k == K_ADD && e->b && (e->a->isConst() || e->b->isConst())) { E t = e->a->isConst() ? e->b : e->a, k = e->a->isConst() ? e->a : e->b; auto it2 = s.eqs.find(t); if(it2 != s.eqs.end()) return mkConst((it2->second + k->val) & maskw(e->w), e->w); }
    if(e->k == K_ZEXT || e->k == K_EXTRACT) { E a = norm(s, e->a); if(a != e->a) { e = e->k == K_ZEXT ? mkZExt(a, e->w) : mkExtract(a, e->lo, e->w); continue; } }
    break; }
  return e;
}
static void learn(State &s, E c, bool val) {
  s.decided[c] = val; if(!val) { E n = mkNot(c); if(n != c) { s.decided[n] = true; if(n->k == K_EQ && n->b->isConst()) { if(n->b->w <= 64) s.eqs[n->a] = (u64)n->b->val; } else if(n->k == K_EQ && n->a->isConst()) { if(n->a->w <= 64) s.eqs[n->b] = (u64)n->a->val; } } return; }
  if(c->k == K_EQ) { if(c->b->isConst() && c->b->w <= 64) s.eqs[c->a] = (u64)c->b->val; else if(c->a->isConst() && c->a->w <= 64) s.eqs[c->b] = (u64)c->a->val; }
}
static void addCons(State &s, E c) { if(c->isConst()) return; if(c->k == K_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); s.decided[c] = true; return; } s.cons.push_back(c); learn(s, c, true); if(s.cons.size() > st.maxcons) st.maxcons = s.cons.size(); }
static bool branchOn(State &s, E cond) {
  cond = norm(s, cond); if(cond->isConst()) return cond->val;
  bool mv = evalS(s, cond); E taken = mv ? cond : mkNot(cond), other = mkNot(taken);
  std::shared_ptr<ModelMap> m2; Res r = check(s, other, &m2);
  if(r == R_SAT) { State *c = new State(s); c->id = nextState++; c->model = m2; addCons(*c, other); work.push_back(c); st.forks++; addCons(s, taken); }
  else { learn(s, taken, true); if(r == R_UNKNOWN) s.cons.push_back(taken); }
  return mv;
}
static string u128s(u128 v) { char b[64]; if(v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 64, "0x%llx", (unsigned long long)v); return b; }
static string curLoc(State &s) { auto &t = s.th[s.cur]; if(t.st.empty()) return "?"; Frame &f = t.st.back(); u32 ln = 0; if(f.blk < (s32)f.f->blocks.size() && f.ip < (s32)f.f->blocks[f.blk].in.size()) ln = f.f->blocks[f.blk].in[f.ip].line; return f.f->name + ":" + std::to_string(ln); }
static string curStack(State &s) { string r; auto &t = s.th[s.cur]; for(size_t i = t.st.size(); i-- > 0;) { Frame &f = t.st[i]; u32 ln = 0; s32 ip = f.ip - (i + 1 < t.st.size() ? 1 : 0); if(ip >= 0 && f.blk < (s32)f.f->blocks.size() && ip < (s32)f.f->blocks[f.blk].in.size()) ln = f.f->blocks[f.blk].in[ip].line; r += f.f->name + ":" + std::to_string(ln) + (i ? " < " : ""); } return r; }
static void report(State &s, const string &id, const string &kind, const std::shared_ptr<ModelMap> &m) {
  string loc = curLoc(s); string site = id + "|" + kind + "|" + loc; if(violSites.count(site)) return; violSites.insert(site);
  Viol v; v.id = id; v.kind = kind; v.loc = loc; v.stack = curStack(s); v.sched = s.sched; evalBegin(); evModel = nullptr; for(auto &in : s.inputs) v.inputs.push_back({in.name, u128s(evalCached(in.var, *m))}); viols.push_back(v);
  fprintf(stderr, "VIOL %s [%s] at %s\n   stack %s\n", id.c_str(), kind.c_str(), loc.c_str(), v.stack.c_str());
  if((int)viols.size() >= optMaxViol) { for(auto *w : work) delete w; work.clear(); }
}
// a bad event happens on this path unless `ok` holds
static void badEvent(State &s, E ok, const string &id, const string &kind) {
  ok = norm(s, ok); if(ok->isConst() && ok->val) return; if(ok->isConst()) { report(s, id, kind, s.model); return; }
  std::shared_ptr<ModelMap> m; Res r = check(s, mkNot(ok), &m); if(r == R_SAT) report(s, id, kind, m);
}
static void err(State &s, const string &e) { string x = e + " at " + curStack(s); if(st.errors.size() < 20) { st.errors.push_back(x); fprintf(stderr, "ENGINE-ERR %s\n", x.c_str()); } st.killed++; throw Done(); }

// ---------------- memory access
static V rdPage(Region *R, u64 off, unsigned n) { // no log, inside bounds
  u64 pi = off / PG, po = off % PG;
  if(po + n <= PG) { Page *p = R->pages[pi].get(); if(!p) return n > 8 ? V(0, mkConst(0, n * 8)) : V(0); bool sym = false; if(p->sym) for(unsigned i = 0; i < n; i++) if(p->sym[po + i]) { sym = true; break; }
    if(!sym) { if(n <= 8) { u64 v = 0; memcpy(&v, p->d + po, n); return V(v); } u128 v = 0; memcpy(&v, p->d + po, n); return V(0, mkConst(v, n * 8)); }
    E b0 = p->sym[po]; if(n == 1) return V(0, b0);
    if(b0 && b0->k == K_EXTRACT && b0->lo == 0 && b0->a->w == 8 * n) { bool all = true; for(unsigned i = 1; i < n; i++) { E b = p->sym[po + i]; if(!b || b->k != K_EXTRACT || b->a != b0->a || b->lo != 8 * i) { all = false; break; } } if(all) return V(0, b0->a); }
    E r = nullptr; for(unsigned i = 0; i < n; i++) { E b = p->sym[po + i]; if(!b) b = mkConst(p->d[po + i], 8); r = r ? mkConcat(b, r) : b; } return fromE(r); }
  E r = nullptr; for(unsigned i = 0; i < n; i++) { E b = toE(rdPage(R, off + i, 1), 8); r = r ? mkConcat(b, r) : b; } return fromE(r);
}
static void wrPage(Region *R, u64 off, unsigned n, const V &v) {
  u64 pi = off / PG, po = off % PG;
  if(po + n <= PG && (!v.e || v.e->isConst())) { Page *p = R->wpage(pi); if(!v.e) memcpy(p->d + po, &v.c, n); else { u128 x = v.e->val; memcpy(p->d + po, &x, n); } if(p->sym) memset(p->sym + po, 0, n * sizeof(E)); return; }
  for(unsigned i = 0; i < n; i++) { u64 o = off + i; Page *p = R->wpage(o / PG); E b = mkExtract(toE(v, n * 8), 8 * i, 8); if(b->isConst()) { p->d[o % PG] = (u8)b->val; if(p->sym) p->sym[o % PG] = nullptr; } else { p->mkSym(); p->sym[o % PG] = b; } }
}
static int knownLow(E e) { u128 k = e->kz | e->ko; int t = 0; while(t < 64 && ((k >> t) & 1)) t++; return t; }
// number of low bits of e that are fixed under the path condition
static int alignBits(State &s, E e, int want) {
  int t = knownLow(e); if(t >= want) return t; auto it = s.align.find(e); if(it != s.align.end()) return it->second;
  u64 mv = evalS(s, e); int cand = 16; for(int i = 0; i < 18 && cand > t; i++) { E q = mkNot(mkEq(mkExtract(e, 0, cand), mkConst(mv & maskw(cand), cand))); std::shared_ptr<ModelMap> m; Res r = check(s, q, &m); if(r == R_UNSAT) break; if(r == R_UNKNOWN) { cand = t; break; } evalBegin(); evModel = nullptr; u64 v2 = evalCached(e, *m); cand = std::min(cand - 1, __builtin_ctzll(v2 ^ mv)); }
  if(cand < t) cand = t; s.align[e] = cand; return cand;
}
static V iteV(E c, const V &a, const V &b, unsigned w) { return fromE(mkIte(c, toE(a, w), toE(b, w))); }
static V ldBase(State &s, Region *R, u64 lo, u64 hi, E e, unsigned n) { // symbolic address in [base+lo, base+hi-n]
  u64 a0 = R->base + lo, a1 = R->base + hi - n; if((u64)e->umin > a0) a0 = e->umin; if((u64)e->umax < a1) a1 = e->umax;
  int want = 3; while((1u << want) < n) want++; int t = alignBits(s, e, want); u64 mv = evalS(s, e); u64 stride = 1ull << t; if(t > 40) stride = 1ull << 40;
  u64 first = a0 + ((mv - a0) & (stride - 1)); if(first > a1) first = mv;
  struct Run { u64 a; V v; }; vector<Run> runs; V z = n > 8 ? V(0, mkConst(0, n * 8)) : V(0);
  for(u64 a = first; a <= a1;) { u64 off = a - R->base; V v; u64 nx = a + stride; if(!R->pages[off / PG] && off % PG + n <= PG) { v = z; u64 pe = R->base + (off / PG + 1) * PG; // skip the rest of this page
        u64 k = (pe - a) / stride; if(k > 1) nx = a + (k - (n > stride ? (n + stride - 1) / stride : 0)) * stride; if(nx <= a) nx = a + stride; } else v = rdPage(R, off, n);
    if(runs.empty() || runs.back().v.c != v.c || runs.back().v.e != v.e) runs.push_back({a, v}); a = nx; if(a < first) break; }
  if(runs.size() > 60000) err(s, "symbolic load over too many distinct slots");
  std::function<V(size_t, size_t)> build = [&](size_t i, size_t j) -> V { if(j - i == 1) return runs[i].v; if(j - i == 3 && runs[i].v.c == runs[i + 2].v.c && runs[i].v.e == runs[i + 2].v.e && runs[i + 2].a == runs[i + 1].a + stride) return iteV(mkEq(e, mkConst(runs[i + 1].a, 64)), runs[i + 1].v, runs[i].v, n * 8); size_t m = (i + j) / 2; if(j - i > 3 && (j - i) % 2 == 1 && m > i + 1 && (m - i) % 2 == 0) m++; if(m >= j) m = j - 1; return iteV(mkUlt(e, mkConst(runs[m].a, 64)), build(i, m), build(m, j), n * 8); };
  return build(0, runs.size());
}
static V ldRegion(State &s, Region *R, u64 lo, u64 hi, V a, unsigned n) { if(!a.e) return rdPage(R, a.c - R->base, n); return ldBase(s, R, lo, hi, a.e, n); }
static void hull(const V &a, u64 &lo, u64 &hi) { if(a.e) { lo = a.e->umin; hi = a.e->umax; } else lo = hi = a.c; }
static E addrE(const V &a, u64 k) { return mkAdd(toE(a, 64), mkConst(k, 64)); }
static V addrV(const V &a, u64 k) { if(!a.e) return V(a.c + k); return fromE(addrE(a, k)); }
static V ldLog(State &s, Region *R, LogNode *nd, u64 lo, u64 hi, V a, unsigned n) {
  u64 al, ah; hull(a, al, ah); ah = ah + n < ah ? ~0ull : ah + n;
  while(nd && (nd->hi <= al || nd->lo >= ah)) nd = nd->next.get();
  if(!nd) return ldRegion(s, R, lo, hi, a, n);
  auto below = [&](V aa, unsigned nn) { return ldLog(s, R, nd->next.get(), lo, hi, aa, nn); };
  if(nd->kind == L_STORE) {
    E d = mkSub(toE(a, 64), toE(nd->addr, 64));
    if(d->isConst()) { s64 dd = (s64)(u64)d->val; if(dd >= (s64)nd->size || dd <= -(s64)n) return below(a, n); if(dd == 0 && n == nd->size) return fromE(nd->val); if(dd >= 0 && dd + n <= nd->size) return fromE(mkExtract(nd->val, dd * 8, n * 8)); }
    else if(n == nd->size && n > 1) { int lg = __builtin_ctz(n); E db = toE(a, 64), da = toE(nd->addr, 64); int ta = db->isConst() ? 64 : alignBits(s, db, lg), tb = da->isConst() ? 64 : alignBits(s, da, lg); if(ta >= lg && tb >= lg && ((evalS(s, db) ^ evalS(s, da)) & (n - 1)) == 0) { E c = norm(s, mkEq(db, da)); if(c->isConst()) return c->val ? fromE(nd->val) : below(a, n); return iteV(c, fromE(nd->val), below(a, n), n * 8); } 
      if(ta >= lg && tb >= lg) { /* misaligned relative to each other: fallthrough to bytes */ } }
    if(n == 1) { E c = mkUlt(d, mkConst(nd->size, 64)); c = norm(s, c); if(c->isConst() && !c->val) return below(a, 1); E sh = mkExtract(mkLShr(nd->val, mkTruncOrZ(mkMul(mkTruncOrZ(d, nd->val->w), mkConst(8, nd->val->w)), nd->val->w)), 0, 8); if(c->isConst()) return fromE(sh); return iteV(c, fromE(sh), below(a, 1), 8); }
  } else {
    E d = mkSub(toE(a, 64), toE(nd->addr, 64)); E len = toE(nd->len, 64);
    bool whole = n == 1; if(!whole && (n & (n - 1)) == 0) { int lg = __builtin_ctz(n); auto low = [&](E x) { return knownLow(x) >= lg && (x->ko & (n - 1)) == 0; }; if(low(d) && low(len)) whole = true; else if(low(len) && !d->isConst()) { int t = alignBits(s, d, lg); if(t >= lg && (evalS(s, d) & (n - 1)) == 0) whole = true; } }
    if(!whole && d->isConst() && len->isConst()) { u64 dd = d->val, L = len->val; if(dd < L && dd + n <= L && dd + n > dd) whole = true; else if(dd >= L && (s64)dd >= 0) return below(a, n); else if((s64)dd <= -(s64)n) return below(a, n); }
    if(whole) { E c = norm(s, mkUlt(d, len)); if(c->isConst() && !c->val) return below(a, n); V in;
      if(nd->kind == L_FILL) { E r = nd->val; while(r->w < n * 8) r = mkConcat(nd->val, r); in = fromE(r); }
      else { V sa = fromE(mkAdd(toE(nd->srcAddr, 64), d)); u64 slo = 0, shi = nd->src->size; if(!sa.e) { if(sa.c - nd->src->base + n > nd->src->size) in = n > 8 ? V(0, mkConst(0, n * 8)) : V(0); else in = ldLog(s, nd->src.get(), nd->src->log.get(), slo, shi, sa, n); } else in = ldLog(s, nd->src.get(), nd->src->log.get(), slo, shi, sa, n); }
      if(c->isConst()) return in; return iteV(c, in, below(a, n), n * 8); }
  }
  E r = nullptr; for(unsigned i = 0; i < n; i++) { E b = toE(ldLog(s, R, nd, lo, hi, addrV(a, i), 1), 8); r = r ? mkConcat(b, r) : b; } return fromE(r);
}
static void pushLog(State &s, Region *R, LogNode *nd) { nd->next = R->log; nd->depth = R->log ? R->log->depth + 1 : 1; if(nd->depth > 3000) err(s, "write log too long"); R->log = Ref<LogNode>(nd); }
static bool logHits(Region *R, u64 lo, u64 hi) { for(LogNode *n = R->log.get(); n; n = n->next.get()) if(n->lo < hi && n->hi > lo) return true; return false; }

static void race(State &s, u64 addr, unsigned n, bool w, bool atomic);
[[noreturn]] static void fault(State &s, u64 addr, unsigned n, bool w, const char *why) {
  char b[160]; snprintf(b, 160, "memory fault: %s of %u bytes at 0x%llx (%s)", w ? "write" : "read", n, (unsigned long long)addr, why); badEvent(s, s.faultOk, b, "fault"); st.faults++; throw Done(); }
// make sure [a, a+n) is accessible; a may be symbolic. n may be large (memset). Returns region; lo/hi accessible run.
static Region *resolve(State &s, V &a, u64 n, bool w, u64 &lo, u64 &hi) {
  if(a.e) { E e = norm(s, a.e);
    while(e->k == K_ITE && (e->cleaf == 0 || e->cleaf <= 64)) { bool t = branchOn(s, e->a); e = norm(s, t ? e->b : e->c); }
    a = fromE(e); }
  u8 need = w ? 3 : 1;
  if(!a.e) { Region *R = w ? s.mem.findW(a.c) : s.mem.find(a.c); if(!R) fault(s, a.c, n, w, "unmapped"); u64 off = a.c - R->base; if(n == 0) { lo = 0; hi = R->size; return R; }
    if(R->prot.empty()) { if(off + n > R->size || off + n < off) fault(s, a.c, n, w, ("out of bounds of " + R->name).c_str()); if((R->uprot & need) != need || R->uprot == 255) fault(s, a.c, n, w, R->uprot == 255 ? "unmapped" : "protected"); lo = 0; hi = R->size; return R; }
    if(off + n > R->size) fault(s, a.c, n, w, ("out of bounds of " + R->name).c_str());
    for(u64 p = off / PG; p <= (off + n - 1) / PG; p++) if((R->prot[p] & need) != need || R->prot[p] == 255) fault(s, a.c, n, w, R->prot[p] == 255 ? "unmapped" : "protected");
    lo = 0; hi = R->size; return R; }
  E e = a.e; u64 mv = evalS(s, e); Region *R = s.mem.find(mv);
  if(!R) { // gap between regions
    auto it = s.mem.box->m.upper_bound(mv); u64 ghi = it == s.mem.box->m.end() ? 0 : it->first; u64 glo = 0; if(it != s.mem.box->m.begin()) { --it; glo = it->first + it->second->size; }
    E in = mkUlt(mkSub(e, mkConst(glo, 64)), mkConst(ghi - glo, 64)); branchOn(s, in); fault(s, mv, n, w, "unmapped (symbolic)"); }
  if(R->fork) { E q = mkEq(e, mkConst(mv, 64)); branchOn(s, q); a = V(mv); return resolve(s, a, n, w, lo, hi); }
  R->protRun(mv - R->base, lo, hi); u8 p = R->protAt(mv - R->base);
  if((p & need) != need || p == 255) { E in = mkUlt(mkSub(e, mkConst(R->base + lo, 64)), mkConst(hi - lo, 64)); branchOn(s, in); fault(s, mv, n, w, p == 255 ? "unmapped (symbolic)" : "protected (symbolic)"); }
  u64 inOff = mv - R->base - lo; if(inOff + n > hi - lo) { E in = mkUlt(mkConst(hi - lo - std::min(n, hi - lo), 64), mkSub(e, mkConst(R->base + lo, 64))); branchOn(s, in); fault(s, mv, n, w, "crosses the end of a mapping (symbolic)"); }
  if(!((u64)e->umin >= R->base + lo && (u64)e->umax <= R->base + hi - n)) { E in = mkUle(mkSub(e, mkConst(R->base + lo, 64)), mkConst(hi - lo - n, 64)); branchOn(s, in); }
  if(w) R = s.mem.findW(mv);
  return R;
}
static V load(State &s, V a, unsigned n, bool atomic = false) {
  u64 lo, hi; 
  if(!a.e) { Region *R = s.mem.find(a.c); if(R && !R->log && R->prot.empty() && (R->uprot & 1) && R->uprot != 255) { u64 off = a.c - R->base; if(off + n <= R->size) { if(s.races) race(s, a.c, n, false, atomic); return rdPage(R, off, n); } } }
  Region *R = resolve(s, a, n, false, lo, hi); if(s.races && !a.e) race(s, a.c, n, false, atomic);
  if(!R->log) return ldRegion(s, R, lo, hi, a, n); return ldLog(s, R, R->log.get(), lo, hi, a, n);
}
static void store(State &s, V a, unsigned n, const V &v, bool atomic = false) {
  u64 lo, hi; Region *R = resolve(s, a, n, true, lo, hi);
  if(!a.e) { if(s.races) race(s, a.c, n, true, atomic); if(R->log && logHits(R, a.c, a.c + n)) { LogNode *nd = new LogNode(); nd->kind = L_STORE; nd->addr = a; nd->size = n; nd->val = toE(v, n * 8); nd->lo = a.c; nd->hi = a.c + n; pushLog(s, R, nd); return; } wrPage(R, a.c - R->base, n, v); return; }
  E e = a.e; u64 a0 = std::max<u64>(e->umin, R->base + lo), a1 = std::min<u64>(e->umax, R->base + hi - n);
  if(!R->log) { int want = 0; while((1u << want) < n) want++; int t = alignBits(s, e, want); if(t >= want) { u64 mv = evalS(s, e), stride = 1ull << std::min(t, 40); u64 first = a0 + ((mv - a0) & (stride - 1)); if((a1 - first) / stride < 64) { for(u64 x = first; x <= a1; x += stride) { V old = rdPage(R, x - R->base, n); V nv = iteV(mkEq(e, mkConst(x, 64)), v, old, n * 8); wrPage(R, x - R->base, n, nv); } return; } } }
  LogNode *nd = new LogNode(); nd->kind = L_STORE; nd->addr = a; nd->size = n; nd->val = toE(v, n * 8); nd->lo = a0; nd->hi = a1 + n; pushLog(s, R, nd);
}
static void fillMem(State &s, V a, V len, V val) {
  u64 lo, hi; if(len.e) { E l = norm(s, len.e); len = fromE(l); }
  if(len.e && !a.e) { // fork off length zero so that the address need not be valid then
    bool z = branchOn(s, mkEq(len.e, mkConst(0, 64))); if(z) return; len = fromE(norm(s, len.e)); }
  if(!len.e) { if(len.c == 0) return; Region *R = resolve(s, a, len.c, true, lo, hi);
    if(!a.e) { if(s.races) race(s, a.c, len.c, true, false); if(!(R->log && logHits(R, a.c, a.c + len.c))) { u64 off = a.c - R->base, n = len.c; while(n) { u64 po = off % PG, k = std::min(n, PG - po); if(!val.e) { if(!(val.c == 0 && !R->pages[off / PG])) { Page *p = R->wpage(off / PG); memset(p->d + po, (int)val.c, k); if(p->sym) memset(p->sym + po, 0, k * sizeof(E)); } } else { Page *p = R->wpage(off / PG); p->mkSym(); for(u64 i = 0; i < k; i++) p->sym[po + i] = val.e; } off += k; n -= k; } return; } }
    LogNode *nd = new LogNode(); nd->kind = L_FILL; nd->addr = a; nd->len = len; nd->val = toE(val, 8); if(a.e) { nd->lo = std::max<u64>(a.e->umin, R->base + lo); nd->hi = (u64)a.e->umax + len.c < (u64)a.e->umax ? R->base + hi : std::min<u64>((u64)a.e->umax + len.c, R->base + hi); } else { nd->lo = a.c; nd->hi = a.c + len.c; } pushLog(s, R, nd); return; }
  // symbolic length: the whole range must be accessible
  V a1 = a; Region *R = resolve(s, a1, 1, true, lo, hi); u64 base = R->base + lo; E off = mkSub(toE(a1, 64), mkConst(base, 64)); E in = mkUle(len.e, mkSub(mkConst(hi - lo, 64), off));
  if(!R->prot.empty() && !a1.e) { u64 l2, h2; R->protRun(a1.c - R->base, l2, h2); lo = l2; hi = h2; in = mkUle(len.e, mkConst(R->base + hi - a1.c, 64)); }
  if(!branchOn(s, in)) fault(s, evalS(s, toE(a1, 64)), 0, true, "fill of symbolic length leaves the mapping");
  R = s.mem.findW(R->base); LogNode *nd = new LogNode(); nd->kind = L_FILL; nd->addr = a1; nd->len = len; nd->val = toE(val, 8); nd->lo = a1.e ? std::max<u64>(a1.e->umin, R->base + lo) : a1.c; { u64 x0 = a1.e ? (u64)a1.e->umax : a1.c, x1 = x0 + (u64)len.e->umax; nd->hi = x1 < x0 ? R->base + hi : std::min<u64>(R->base + hi, x1); } pushLog(s, R, nd);
}
static void copyMem(State &s, V d, V sr, V len) {
  if(len.e) { E l = norm(s, len.e); len = fromE(l); if(len.e) { bool z = branchOn(s, mkEq(len.e, mkConst(0, 64))); if(z) return; len = fromE(norm(s, len.e)); } }
  u64 lo, hi, lo2, hi2;
  if(!len.e) { if(len.c == 0) return; Region *S = resolve(s, sr, len.c, false, lo, hi); Region *D0 = resolve(s, d, len.c, true, lo2, hi2); (void)D0;
    if(!sr.e && !d.e) { if(s.races) { race(s, sr.c, len.c, false, false); race(s, d.c, len.c, true, false); }
      S = s.mem.find(sr.c); bool slog = S->log && logHits(S, sr.c, sr.c + len.c); Region *D = s.mem.findW(d.c); bool dlog = D->log && logHits(D, d.c, d.c + len.c); S = s.mem.find(sr.c); D = s.mem.findW(d.c); { auto it = s.mem.box->m.upper_bound(sr.c); --it; S = it->second.get(); }
      if(!slog && !dlog) { u64 n = len.c; vector<V> tmp; vector<u8> sz; u64 i = 0; while(i < n) { unsigned k = n - i >= 8 ? 8 : 1; tmp.push_back(rdPage(S, sr.c + i - S->base, k)); sz.push_back(k); i += k; } i = 0; for(size_t q = 0; q < tmp.size(); q++) { wrPage(D, d.c + i - D->base, sz[q], tmp[q]); i += sz[q]; } return; }
      if(len.c <= 4096) { vector<V> tmp; u64 i = 0; vector<u8> sz; while(i < len.c) { unsigned k = len.c - i >= 8 ? 8 : 1; tmp.push_back(ldLog(s, S, S->log.get(), 0, S->size, V(sr.c + i), k)); sz.push_back(k); i += k; } i = 0; for(size_t q = 0; q < tmp.size(); q++) { store(s, V(d.c + i), sz[q], tmp[q]); i += sz[q]; } return; } } }
  else { V s1 = sr, d1 = d; auto rng = [&](V &x, bool w, u64 &l, u64 &h) -> Region * { Region *R = resolve(s, x, 1, w, l, h); u64 mv = evalS(s, toE(x, 64)); if(!R->prot.empty()) R->protRun(mv - R->base, l, h); E off = mkSub(toE(x, 64), mkConst(R->base + l, 64)); E in = mkUle(len.e, mkSub(mkConst(h - l, 64), off)); if(!branchOn(s, in)) fault(s, mv, 0, w, "copy of symbolic length leaves the mapping"); return R; };
    rng(s1, false, lo, hi); rng(d1, true, lo2, hi2); sr = s1; d = d1; }
  // log based copy
  u64 smv = evalS(s, toE(sr, 64)), dmv = evalS(s, toE(d, 64)); auto it = s.mem.box->m.upper_bound(smv); --it; Ref<Region> src = it->second; Ref<Region> snap(new Region(*src)); snap->rc = 1;
  Region *D = s.mem.findW(dmv); LogNode *nd = new LogNode(); nd->kind = L_COPY; nd->addr = d; nd->len = len; nd->srcAddr = sr; nd->src = snap; nd->lo = d.e ? std::max<u64>(d.e->umin, D->base) : d.c; u64 ml = len.e ? (u64)len.e->umax : len.c; u64 end0 = d.e ? (u64)d.e->umax : d.c, end = end0 + ml; nd->hi = (end < end0 || end > D->base + D->size) ? D->base + D->size : end; pushLog(s, D, nd);
}
#include "run.inc"
