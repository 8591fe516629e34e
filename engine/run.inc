// ---------------- data races (vector clocks)
static vector<std::pair<u64,u64>> exemptRanges;
static bool raceExempt(u64 a) { for(auto &p : exemptRanges) if(a - p.first < p.second) return true; return a >= TLS_BASE || (a >= ERRNO_BASE && a < ERRNO_BASE + 0x10000); }
static std::unordered_map<u64, int> raceOnly;
static void race(State &s, u64 addr, unsigned n, bool w, bool atomic) {
  if(s.th.size() < 2 || raceExempt(addr)) return;
  if(!s.shadow) s.shadow = std::make_shared<std::unordered_map<u64, Shadow>>(); else if(s.shadow.use_count() > 1) s.shadow = std::make_shared<std::unordered_map<u64, Shadow>>(*s.shadow);
  auto &T = s.th[s.cur]; int t = s.cur; Frame &f = T.st.back(); u32 line = f.f->blocks[f.blk].in[f.ip].line;
  u64 lim = n > 65536 ? 65536 : n;
  for(u64 i = 0; i < lim; i++) { Shadow &h = (*s.shadow)[addr + i]; bool bad = false; string other; char b[256];
    if(h.wt >= 0 && h.wt != t && h.wc > T.vc[h.wt] && !(atomic && h.watomic)) { bad = true; snprintf(b, 256, "write at %s:%u", h.wf ? h.wf->name.c_str() : "?", h.wline); other = b; }
    if(w) for(int k = 0; k < MAXT && !bad; k++) if(k != t && h.rc[k] > T.vc[k] && !(atomic && h.ratomic[k])) { bad = true; snprintf(b, 256, "read at line %u", h.rline[k]); other = b; }
    if(bad) { report(s, string("data-race ") + (w ? "write" : "read") + " at " + f.f->name + " vs " + other, "race", s.model); }
    if(w) { h.wt = t; h.wc = T.vc[t]; h.watomic = atomic; h.wline = line; h.wf = f.f; for(int k = 0; k < MAXT; k++) if(k != t && h.rc[k] <= T.vc[k]) h.rc[k] = 0; } else { h.rc[t] = T.vc[t]; h.rline[t] = line; h.ratomic[t] = atomic; }
    if(bad) break; }
}
static void vcJoin(VC &a, const VC &b) { for(int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }

// ---------------- module
static u64 gNext = GLOBAL_BASE;
static void initConst(Region *R, u64 off, LLVMValueRef v) {
  LLVMTypeRef t = LLVMTypeOf(v);
  if(LLVMIsAConstantAggregateZero(v) || LLVMIsAUndefValue(v) || LLVMIsAConstantPointerNull(v)) return;
  if(LLVMIsAConstantDataArray(v)) { LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), s = LLVMABISizeOfType(TD, et); if(LLVMGetTypeKind(et) == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(et) == 8) { size_t L; const char *p = LLVMGetAsString(v, &L); for(u64 i = 0; i < n; i++) wrPage(R, off + i, 1, V((u8)p[i])); return; } for(u64 i = 0; i < n; i++) wrPage(R, off + i * s, s, constScalar(LLVMGetElementAsConstant(v, i))); return; }
  if(LLVMIsAConstantArray(v)) { LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), s = LLVMABISizeOfType(TD, et); for(u64 i = 0; i < n; i++) initConst(R, off + i * s, LLVMGetOperand(v, i)); return; }
  if(LLVMIsAConstantStruct(v)) { unsigned n = LLVMCountStructElementTypes(t); for(unsigned i = 0; i < n; i++) initConst(R, off + LLVMOffsetOfElement(TD, t, i), LLVMGetOperand(v, i)); return; }
  if(LLVMIsAConstantDataVector(v)) die("vector constant");
  wrPage(R, off, LLVMABISizeOfType(TD, t), constScalar(v));
}
static void loadModule(const char *path) {
  LLVMMemoryBufferRef mb; char *em = nullptr; if(LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &em)) die(string("cannot read ") + path);
  if(LLVMParseBitcode2(mb, &M)) die("cannot parse bitcode"); TD = LLVMGetModuleDataLayout(M);
  u64 ca = CODE_BASE;
  for(LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) { Func *F = new Func(); size_t L; F->name = LLVMGetValueName2(f, &L); F->v = f; F->decl = LLVMIsDeclaration(f); F->addr = ca; ca += 16; LLVMTypeRef ft = LLVMGlobalGetValueType(f); F->vararg = LLVMIsFunctionVarArg(ft); LLVMTypeRef rt = LLVMGetReturnType(ft); F->retElts = LLVMGetTypeKind(rt) == LLVMVoidTypeKind ? 0 : nelts(rt); F->retW = F->retElts ? tw(rt) : 0;
    for(auto &p : exactIntr) if(F->name == p.first && (F->decl || p.second == I_ABORT)) F->intr = p.second; if(!F->intr && F->decl) for(auto &p : prefIntr) if(!strncmp(F->name.c_str(), p.first, strlen(p.first))) { F->intr = p.second; break; }
    if(!optPrintf && F->name == "_iso_alloc_printf") F->intr = I_RET0;
    funcs[f] = F; funcByAddr[F->addr] = F; funcList.push_back(F); }
}
static void placeGlobals(State &s) {
  u64 ro = 0; vector<LLVMValueRef> ros; vector<std::pair<LLVMValueRef, u64>> rw;
  for(LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { size_t L; string nm = LLVMGetValueName2(g, &L); if(nm.compare(0, 5, "llvm.") == 0) continue; LLVMTypeRef t = LLVMGlobalGetValueType(g); u64 sz = LLVMABISizeOfType(TD, t); if(!sz) sz = 1; u64 al = std::max(LLVMGetAlignment(g), 8u);
    if(LLVMIsThreadLocal(g)) { tlsSize = (tlsSize + al - 1) / al * al; globalAddr[g] = TLS_TOKEN + tlsSize; tlsByToken[TLS_TOKEN + tlsSize] = {tlsSize, g, sz}; tlsSize += sz + 64; continue; }
    if(LLVMIsGlobalConstant(g)) { ro = (ro + al - 1) / al * al; globalAddr[g] = ro; ro += sz + 16; ros.push_back(g); continue; }
    gNext = (gNext + 8191) / 4096 * 4096; globalAddr[g] = gNext; s.mem.add(gNext, sz, 3, "global " + nm); if(nm.compare(0, 4, "env_") == 0 || nm.compare(0, 3, "hx_") == 0) exemptRanges.push_back({gNext, sz}); gNext += sz; if(LLVMGetInitializer(g)) rw.push_back({g, globalAddr[g]}); }
  gNext = (gNext + 8191) / 4096 * 4096; u64 rb = gNext; if(ro) s.mem.add(rb, ro, 3, "constants"); gNext += ro; if(gNext >= CODE_BASE) die("globals too large");
  for(auto g : ros) globalAddr[g] += rb;
  for(auto g : ros) if(LLVMGetInitializer(g)) { Region *R = s.mem.findW(rb); initConst(R, globalAddr[g] - rb, LLVMGetInitializer(g)); }
  for(auto &p : rw) { Region *R = s.mem.findW(p.second); initConst(R, 0, LLVMGetInitializer(p.first)); }
  if(ro) s.mem.findW(rb)->uprot = 1;
  s.mem.add(ERRNO_BASE, 64, 3, "errno");
}
static void addThread(State &s) { int t = s.th.size(); s.th.emplace_back(); Thread &T = s.th.back(); T.sp = STACK_BASE + (u64)t * STACK_SZ * 4; s.mem.add(T.sp, STACK_SZ, 3, "stack"); T.sp += 64; T.vc[t] = 1;
  if(tlsSize) { u64 tb = TLS_BASE + (u64)t * 0x10000000ull; for(auto &p : tlsByToken) { Region *R = s.mem.add(tb + p.second.off, p.second.size, 3, "tls"); if(LLVMGetInitializer(p.second.g)) initConst(R, 0, LLVMGetInitializer(p.second.g)); } } }

// ---------------- execution helpers
static u64 conc(State &s, V v, unsigned w = 64) { if(!v.e) return v.c; E e = norm(s, v.e); if(e->isConst()) return (u64)e->val; u64 mv = evalS(s, e); branchOn(s, mkEq(e, mkConst(mv, e->w))); return mv; }
static bool condOn(State &s, V v) { if(!v.e) return v.c & 1; return branchOn(s, v.e); }
static void pushFrame(State &s, Func *F, vector<V> &args, s32 dst, u64 ra) {
  decode(F); Thread &T = s.th[s.cur]; if(T.st.size() > 200) err(s, "call depth"); T.st.emplace_back(); Frame &f = T.st.back(); f.f = F; f.r.resize(F->nslots); f.sp = T.sp; f.dst = dst; f.ra = ra; size_t k = 0; F->executed = true;
  for(auto &p : F->params) for(unsigned i = 0; i < p.second; i++) { if(k < args.size()) f.r[p.first + i] = args[k]; k++; }
  for(; k < args.size(); k++) f.va.push_back(args[k]);
}
static inline const V &get(Frame &f, const Op &o) { return o.slot >= 0 ? f.r[o.slot] : o.c; }
static void takeEdge(Frame &f, Edge &e) { if(!e.moves.empty()) { V tmp[64]; if(e.moves.size() > 64) die("too many phis"); size_t i = 0; for(auto &m : e.moves) tmp[i++] = get(f, m.second); i = 0; for(auto &m : e.moves) f.r[m.first] = tmp[i++]; } f.blk = e.blk; f.ip = 0; }
static u64 callSite(Inst *x) { static std::unordered_map<Inst *, u64> m; auto it = m.find(x); if(it != m.end()) return it->second; u64 a = 0x28000000ull + 16 * m.size(); m[x] = a; return a; }

// ---- scheduling
static bool runnable(State &s, int t) { if(s.th[t].status == 2 || s.th[t].status == 1) return false; if(s.th[t].status == 3) { for(size_t i = 1; i < s.th.size(); i++) if(s.th[i].status != 2) return false; return true; } return true; }
static void switchTo(State &s, int t, const char *) { E v = mkVar("sched#" + std::to_string(s.sched.size()), 8); auto nm = std::make_shared<ModelMap>(*s.model); (*nm)[(u32)v->val] = t; s.model = nm; addCons(s, mkEq(v, mkConst(t, 8))); s.sched.push_back(t); s.cur = t; st.schedPoints++; }
static void forkTo(State &s, int t) { State *c = new State(s); c->id = nextState++; switchTo(*c, t, ""); work.push_back(c); st.forks++; }
// scheduling point of the running thread (it stays runnable). Returns after possibly forking; the current state keeps running the current thread.
static void schedPoint(State &s) { Thread &T = s.th[s.cur]; if(T.sched || s.th.size() < 2) return; T.sched = true; int me = s.cur; bool any = false; for(int t = 0; t < (int)s.th.size(); t++) if(t != me && runnable(s, t)) any = true; if(!any) return;
  if(s.preempts < optPreempt) for(int t = 0; t < (int)s.th.size(); t++) if(t != me && runnable(s, t)) { s.preempts++; forkTo(s, t); s.preempts--; }
  switchTo(s, me, ""); }
// current thread cannot continue: pick another
static void schedAway(State &s, const char *why) { vector<int> c; for(int t = 0; t < (int)s.th.size(); t++) if(t != s.cur && runnable(s, t)) c.push_back(t);
  if(c.empty()) { bool allDone = true; for(auto &T : s.th) if(T.status != 2) allDone = false; if(allDone) { st.ends++; throw Done(); } report(s, string("deadlock: ") + why, "deadlock", s.model); throw Done(); }
  for(size_t i = 1; i < c.size(); i++) forkTo(s, c[i]); switchTo(s, c[0], ""); throw Again(); }
static void lockOp(State &s, u64 m, const char *what) {
  auto it = s.locks.find(m); if(it != s.locks.end() && it->second.owner == s.cur) { report(s, string("lock re-acquired by its holder (") + what + ")", "relock", s.model); throw Done(); }
  schedPoint(s); it = s.locks.find(m);
  if(it != s.locks.end() && it->second.owner >= 0) { s.th[s.cur].status = 1; s.th[s.cur].wait = m; schedAway(s, what); }
  LockSt &L = s.locks[m]; L.owner = s.cur; vcJoin(s.th[s.cur].vc, L.vc); s.th[s.cur].sched = false; s.th[s.cur].nheld++; }
static void unlockOp(State &s, u64 m, const char *what) {
  auto it = s.locks.find(m); if(it == s.locks.end() || it->second.owner != s.cur) { report(s, string("unlock of a lock that is not held (") + what + ")", "unlock", s.model); throw Done(); }
  LockSt &L = it->second; L.owner = -1; L.vc = s.th[s.cur].vc; s.th[s.cur].vc[s.cur]++; s.th[s.cur].nheld--; for(auto &T : s.th) if(T.status == 1 && T.wait == m) T.status = 0; }

static V memcmpV(State &s, u64 a, u64 b, u64 n) { E r = mkConst(0, 32); for(u64 i = n; i-- > 0;) { V x = load(s, V(a + i), 1), y = load(s, V(b + i), 1); E ex = toE(x, 8), ey = toE(y, 8); r = mkIte(mkEq(ex, ey), r, mkSub(mkZExt(ex, 32), mkZExt(ey, 32))); } return fromE(r); }
static string cstr(State &s, V p) { u64 a = conc(s, p); string r; for(int i = 0; i < 200; i++) { V c = load(s, V(a + i), 1); if(c.e) return r + "?"; if(!c.c) break; r += (char)c.c; } return r; }
static Region *symRun(State &s, V &a, u64 &lo, u64 &hi) { // region/prot run containing a (forks); null if unmapped
  if(a.e) { E e = norm(s, a.e); while(e->k == K_ITE && (e->cleaf == 0 || e->cleaf <= 64)) { bool t = branchOn(s, e->a); e = norm(s, t ? e->b : e->c); } a = fromE(e); }
  u64 mv = a.e ? (u64)evalS(s, a.e) : a.c; Region *R = s.mem.find(mv); u64 l, h;
  if(!R) { auto it = s.mem.box->m.upper_bound(mv); h = it == s.mem.box->m.end() ? 0 : it->first; l = 0; if(it != s.mem.box->m.begin()) { --it; l = it->first + it->second->size; } }
  else { R->protRun(mv - R->base, lo, hi); l = R->base + lo; h = R->base + hi; }
  if(a.e) branchOn(s, mkUlt(mkSub(a.e, mkConst(l, 64)), mkConst(h - l, 64))); return R; }

static V freshVar(State &s, const string &nm, unsigned w) { string full = nm + "#" + std::to_string(s.names[nm]++); E v = mkVar(full, w); s.inputs.push_back({full, v}); return V(0, v); }

static V bi(State &s, Inst &x, Frame &f, Func *F, bool &adv) { // builtin / intrinsic call
  auto A = [&](int i) -> V { V v = get(f, x.a[1 + i]); if(v.e) v = fromE(norm(s, v.e)); return v; }; unsigned w = x.w; unsigned aw0 = x.aw.size() ? x.aw[0] : 0;
  auto EA = [&](int i) { return toE(A(i), x.aw[i]); };
  switch(F->intr) {
  case I_NOP: return V(); case I_RET0: return V(0); case I_RET1: return V(1);
  case I_MEMCPY: case I_MEMMOVE: copyMem(s, A(0), A(1), A(2)); return A(0);
  case I_MEMSET: { V v = A(1); if(x.aw[1] > 8) v = v.e ? fromE(mkExtract(v.e, 0, 8)) : V((u8)v.c); fillMem(s, A(0), A(2), v); return A(0); }
  case I_EXPECT: return A(0); case I_ASSUME: return V();
  case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO: case I_SMULO: { unsigned W = aw0; E a = EA(0), b = EA(1); bool sg = F->intr >= I_SADDO; unsigned X = F->intr == I_UMULO || F->intr == I_SMULO ? std::min(2 * W, 128u) : W + 1; if(X < W + 1) err(s, "overflow width"); E p = sg ? mkSExt(a, X) : mkZExt(a, X), q = sg ? mkSExt(b, X) : mkZExt(b, X); int o = (F->intr - I_UADDO) % 3; E r = o == 0 ? mkAdd(p, q) : o == 1 ? mkSub(p, q) : mkMul(p, q); E t = mkExtract(r, 0, W); E ov = mkNot(mkEq(sg ? mkSExt(t, X) : mkZExt(t, X), r)); f.r[x.dst] = fromE(t); f.r[x.dst + 1] = fromE(ov); f.ip++; adv = false; return V(); }
  case I_BSWAP: { E a = EA(0), r = nullptr; for(unsigned i = 0; i < w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return fromE(r); }
  case I_CTPOP: { V a = A(0); if(!a.e) return V(__builtin_popcountll(a.c)); E r = mkConst(0, w); for(unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(a.e, i, 1), w)); return fromE(r); }
  case I_CTLZ: case I_CTTZ: { E a = EA(0), r = mkConst(w, w); if(F->intr == I_CTLZ) for(unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); else for(unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); return fromE(r); }
  case I_UMIN: return fromE(mkIte(mkUlt(EA(0), EA(1)), EA(0), EA(1))); case I_UMAX: return fromE(mkIte(mkUlt(EA(0), EA(1)), EA(1), EA(0))); case I_SMIN: return fromE(mkIte(mkSlt(EA(0), EA(1)), EA(0), EA(1))); case I_SMAX: return fromE(mkIte(mkSlt(EA(0), EA(1)), EA(1), EA(0)));
  case I_ABS: return fromE(mkIte(mkSlt(EA(0), mkConst(0, w)), mkSub(mkConst(0, w), EA(0)), EA(0)));
  case I_FSHL: case I_FSHR: { E c = mkURem(EA(2), mkConst(w, w)); E cc = mkSub(mkConst(w, w), c); E z = mkEq(c, mkConst(0, w)); if(F->intr == I_FSHL) return fromE(mkIte(z, EA(0), mkOr(mkShl(EA(0), c), mkLShr(EA(1), cc)))); return fromE(mkIte(z, EA(1), mkOr(mkShl(EA(0), cc), mkLShr(EA(1), c)))); }
  case I_USUBSAT: return fromE(mkIte(mkUlt(EA(0), EA(1)), mkConst(0, w), mkSub(EA(0), EA(1)))); case I_UADDSAT: { E r = mkAdd(EA(0), EA(1)); return fromE(mkIte(mkUlt(r, EA(0)), mkConst(maskw(w), w), r)); }
  case I_VASTART: { u64 p = conc(s, A(0)); Thread &T = s.th[s.cur]; T.sp = (T.sp + 15) & ~15ull; u64 area = T.sp; T.sp += 8 * f.va.size() + 8; store(s, V(p), 4, V(48)); store(s, V(p + 4), 4, V(176)); store(s, V(p + 8), 8, V(area)); store(s, V(p + 16), 8, V(0)); for(size_t i = 0; i < f.va.size(); i++) { V v = f.va[i]; if(v.e && v.e->w < 64) v = fromE(mkZExt(v.e, 64)); store(s, V(area + 8 * i), 8, v); } return V(); }
  case I_VACOPY: copyMem(s, A(0), A(1), V(24)); return V();
  case I_RETADDR: { u64 n = conc(s, A(0)); auto &stk = s.th[s.cur].st; if(n >= stk.size()) return V(0); return V(stk[stk.size() - 1 - n].ra); }
  case I_FRAMEADDR: { u64 n = conc(s, A(0)); auto &stk = s.th[s.cur].st; if(n >= stk.size()) return V(0); return V(stk[stk.size() - 1 - n].sp); }
  case I_TLS: { V a = A(0); auto it = tlsByToken.find(a.c); if(it == tlsByToken.end()) err(s, "tls"); return V(TLS_BASE + (u64)s.cur * 0x10000000ull + it->second.off); }
  case I_OBJSIZE: return V(maskw(w)); case I_ISCONST: return V(0);
  case I_TRAP: badEvent(s, s.abortOk, "trap", "trap"); st.aborts++; throw Done();
  case I_STACKSAVE: return V(s.th[s.cur].sp); case I_STACKRESTORE: s.th[s.cur].sp = A(0).c; return V();
  case I_STRLEN: { u64 a = conc(s, A(0)); for(u64 i = 0; i < 100000; i++) { V c = load(s, V(a + i), 1); if(!c.e ? c.c == 0 : branchOn(s, mkEq(c.e, mkConst(0, 8)))) return V(i); } err(s, "strlen"); return V(); }
  case I_MEMCMP: { u64 n = conc(s, A(2)); return memcmpV(s, conc(s, A(0)), conc(s, A(1)), n); }
  case I_STRNCPY: { u64 d = conc(s, A(0)), q = conc(s, A(1)), n = conc(s, A(2)); vector<V> b; bool z = false; for(u64 i = 0; i < n; i++) { V c(0); if(!z) { c = load(s, V(q + i), 1); z = !c.e ? c.c == 0 : branchOn(s, mkEq(c.e, mkConst(0, 8))); if(z) c = V(0); } b.push_back(c); } for(u64 i = 0; i < n; i++) store(s, V(d + i), 1, b[i]); return A(0); }
  case I_ERRNO: return V(ERRNO_BASE);
  case I_ABORT: badEvent(s, s.abortOk, "unexpected abort", "abort"); st.aborts++; throw Done();
  case I_ASSERTFAIL: badEvent(s, s.abortOk, "assert() failed", "abort"); st.aborts++; throw Done();
  case SX_VAR: { string n = cstr(s, A(0)); return freshVar(s, n, w); }
  case SX_BYTES: { u64 p = conc(s, A(0)), n = conc(s, A(1)); string nm = cstr(s, A(2)); u64 d = 0; while(n - d >= 8) { store(s, V(p + d), 8, freshVar(s, nm, 64)); d += 8; } while(d < n) { store(s, V(p + d), 1, freshVar(s, nm, 8)); d++; } return V(); }
  case SX_ASSUME: { V v = A(0); if(!v.e) { if(v.c & 1) return V(); st.assumesCut++; throw Done(); } E c = v.e; if(c->w > 1) c = mkExtract(c, 0, 1); c = norm(s, c); if(c->isConst()) { if(c->val) return V(); st.assumesCut++; throw Done(); }
      if(!evalS(s, c)) { std::shared_ptr<ModelMap> m; Res r = check(s, c, &m); if(r == R_UNSAT) { st.assumesCut++; throw Done(); } if(r == R_UNKNOWN) { st.assumesCut++; throw Done(); } s.model = m; } addCons(s, c); return V(); }
  case SX_MUSTNOT: case SX_ASSERT: { V v = A(0); string id = cstr(s, A(1)); st.asserts++; st.assertIds[id]++; E c = toE(v, aw0); if(c->w > 1) c = mkExtract(c, 0, 1); if(F->intr == SX_MUSTNOT) c = mkNot(c); c = norm(s, c); if(c->isConst()) { if(c->val) return V(); report(s, id, "assert", s.model); throw Done(); }
      st.assertSolver++; std::shared_ptr<ModelMap> m; Res r; if(!evalS(s, c)) { r = R_SAT; m = s.model; } else r = check(s, mkNot(c), &m); if(r == R_UNSAT) { learn(s, c, true); return V(); } if(r == R_UNKNOWN) { st.errors.push_back("solver gave up on assertion " + id); }
      if(r == R_SAT) report(s, id, "assert", m);
      if(!evalS(s, c)) { std::shared_ptr<ModelMap> m2; if(check(s, c, &m2) != R_SAT) throw Done(); s.model = m2; } addCons(s, c); return V(); }
  case SX_REACH: { string id = cstr(s, A(0)); if(!st.reached[id]++) { Viol v; v.sched = s.sched; evalBegin(); evModel = nullptr; for(auto &in : s.inputs) v.inputs.push_back({in.name, u128s(evalCached(in.var, *s.model))}); evModel = nullptr; witness[id] = v; } return V(); }
  case SX_ABORTOK: s.abortOk = mkExtract(EA(0), 0, 1); return V(); case SX_FAULTOK: s.faultOk = mkExtract(EA(0), 0, 1); return V();
  case SX_STOP: st.ends++; throw Done();
  case SX_CONCRETE: return V(conc(s, A(0)));
  case SX_CHOOSE: { string nm = cstr(s, A(0)); u64 n = conc(s, A(1)); string full = nm + "#" + std::to_string(s.names[nm]); E v = mkVar(full, 64); if(n == 0) err(s, "sx_choose 0"); 
      if(!evalS(s, mkUlt(v, mkConst(n, 64)))) { auto nm2 = std::make_shared<ModelMap>(*s.model); (*nm2)[(u32)v->val] = 0; s.model = nm2; } u64 mv = 0; bool have = false; auto it = s.eqs.find(v); if(it != s.eqs.end()) { mv = it->second; have = true; }
      if(!have) { E rng = mkUlt(v, mkConst(n, 64)); if(!s.decided.count(rng)) addCons(s, rng); mv = evalS(s, v); branchOn(s, mkEq(v, mkConst(mv, 64))); } s.names[nm]++; s.inputs.push_back({full, v}); return V(mv); }
  case SX_MAP: { u64 a = conc(s, A(0)), n = conc(s, A(1)); u64 p = conc(s, A(2)); for(auto &kv : s.mem.box->m) if(kv.first < a + n && kv.first + kv.second->size > a) err(s, "sx_map overlap"); s.mem.add(a, n, p, "mmap"); return V(); }
  case SX_UNMAP: case SX_PROTECT: { u64 a = conc(s, A(0)), n = (conc(s, A(1)) + PG - 1) / PG * PG; u64 p = F->intr == SX_UNMAP ? 255 : conc(s, A(2)); vector<u64> hit; for(auto &kv : s.mem.box->m) if(kv.first < a + n && kv.first + kv.second->size > a) hit.push_back(kv.first);
      for(u64 b : hit) { Region *R = s.mem.findW(b); u64 lo = std::max(a, b), hi = std::min(a + n, b + R->size); if(F->intr == SX_UNMAP && lo == b && hi == b + R->size) { s.mem.remove(b); continue; } 
        if(F->intr == SX_PROTECT) { u64 i = (lo - b) / PG, j = (hi - b + PG - 1) / PG; if(R->prot.empty()) { if(R->uprot == 255) continue; R->setProt(lo - b, hi - lo, p); } else for(; i < j; i++) { if(R->prot[i] != 255) R->prot[i] = p; } }
        else { R->setProt(lo - b, hi - lo, p); for(u64 i = (lo - b) / PG; i < (hi - b + PG - 1) / PG; i++) R->pages[i] = Ref<Page>(); bool all = true; for(u8 q : R->prot) if(q != 255) all = false; if(all && !R->prot.empty()) s.mem.remove(b); } }
      return V(); }
  case SX_ZERO: { u64 a = conc(s, A(0)), n = conc(s, A(1)); while(n) { Region *R = s.mem.findW(a); if(!R) err(s, "sx_zero"); u64 off = a - R->base, k = std::min(n, PG - off % PG); if(R->log && logHits(R, a, a + k)) { LogNode *nd = new LogNode(); nd->kind = L_FILL; nd->addr = V(a); nd->len = V(k); nd->val = mkConst(0, 8); nd->lo = a; nd->hi = a + k; pushLog(s, R, nd); } else if(off % PG == 0 && k == PG) R->pages[off / PG] = Ref<Page>(); else { Page *p = R->wpage(off / PG); memset(p->d + off % PG, 0, k); if(p->sym) memset(p->sym + off % PG, 0, k * sizeof(E)); } a += k; n -= k; } return V(); }
  case SX_PROT: { V a = A(0); u64 lo, hi; Region *R = symRun(s, a, lo, hi); if(!R) return V(255); u64 mv = a.e ? (u64)evalS(s, a.e) : a.c; return V(R->protAt(mv - R->base)); }
  case SX_FORKR: { u64 a = conc(s, A(0)); Region *R = s.mem.findW(a); if(!R) err(s, "sx_fork_region"); R->fork = true; return V(); }
  case SX_SNAP: { V a = A(0); u64 c = conc(s, a); Region *R = s.mem.find(c); if(!R) err(s, "sx_snap of unmapped memory"); auto it = s.mem.box->m.find(R->base); s.snaps.push_back({it->second, c, conc(s, A(1))}); s.mem.last = nullptr; s.mem.lastW = false; return V(s.snaps.size() - 1); }
  case SX_SNAP8: case SX_SNAP64: { u64 id = conc(s, A(0)); V a = A(1); unsigned n = F->intr == SX_SNAP8 ? 1 : 8; Region *R = s.snaps[id].r.get(); if(a.e) { E in = mkUle(mkSub(a.e, mkConst(R->base, 64)), mkConst(R->size - n, 64)); if(!branchOn(s, in)) err(s, "sx_snap read outside"); } else if(a.c - R->base > R->size - n) err(s, "sx_snap read outside"); if(!R->log) return ldRegion(s, R, 0, R->size, a, n); return ldLog(s, R, R->log.get(), 0, R->size, a, n); }
  case SX_SAME: { u64 id = conc(s, A(0)), a = conc(s, A(1)), n = conc(s, A(2)); Region *R = s.mem.find(a), *Q = s.snaps[id].r.get(); if(!R || a + n > R->base + R->size) return V(0); if(R->base != Q->base) err(s, "sx_same: other region"); bool sameLog = R->log.get() == Q->log.get(); vector<E> cs; u64 o = a - R->base, end = o + n; bool ok = true;
      while(o < end && ok) { u64 k = std::min(end - o, PG - o % PG); if(sameLog && R->pages[o / PG].get() == Q->pages[o / PG].get()) { o += k; continue; } u64 e2 = o + k; while(o < e2 && ok) { unsigned b = (o % 8 == 0 && e2 - o >= 8) ? 8 : 1; V x, y; if(sameLog && !R->log) { x = rdPage(R, o, b); y = rdPage(Q, o, b); } else { x = ldLog(s, R, R->log.get(), 0, R->size, V(R->base + o), b); y = ldLog(s, Q, Q->log.get(), 0, Q->size, V(R->base + o), b); } if(x.e || y.e) { if(x.e != y.e) { E q = mkEq(toE(x, b * 8), toE(y, b * 8)); if(q->isConst()) { if(!q->val) ok = false; } else cs.push_back(q); } } else if(x.c != y.c) ok = false; o += b; } }
      if(!ok) return V(0); E r = mkBool(true); for(E q : cs) r = mkAnd(r, q); return fromE(r); }
  case SX_LOCK: lockOp(s, conc(s, A(0)), "sx_lock"); return V(); case SX_UNLOCK: unlockOp(s, conc(s, A(0)), "sx_unlock"); return V();
  case SX_HELD: return V(s.th[s.cur].nheld); case SX_LOCKHELD: { auto it = s.locks.find(conc(s, A(0))); return V(it != s.locks.end() && it->second.owner == s.cur); }
  case SX_YIELD: schedPoint(s); s.th[s.cur].sched = false; return V();
  case SX_SPAWN: { u64 fa = conc(s, A(0)); auto it = funcByAddr.find(fa); if(it == funcByAddr.end()) err(s, "spawn"); if((int)s.th.size() >= MAXT) err(s, "too many threads"); int me = s.cur; V arg = A(1); addThread(s); int t = s.th.size() - 1; vcJoin(s.th[t].vc, s.th[me].vc); s.th[me].vc[me]++; s.cur = t; vector<V> args = {arg}; pushFrame(s, it->second, args, -1, 0); s.cur = me; 
      Frame &ff = s.th[me].st.back(); ff.ip++; adv = false; return V(); }
  case SX_JOIN: { s.th[s.cur].status = 3; if(!runnable(s, s.cur)) schedAway(s, "join"); s.th[s.cur].status = 0; for(auto &T : s.th) vcJoin(s.th[s.cur].vc, T.vc); return V(); }
  case SX_RACES: s.races = A(0).c & 1; return V(); case SX_TID: return V(s.cur);
  case SX_PRINT: { V v = A(1); fprintf(stderr, "SX %s %s\n", cstr(s, A(0)).c_str(), v.e ? (showExpr(v.e) + " = " + u128s(evalS(s, v.e))).c_str() : u128s(v.c).c_str()); return V(); }
  case SX_ENDTHREAD: { s.th[s.cur].status = 2; if(s.cur == 0) { st.ends++; throw Done(); } s.th[s.cur].st.clear(); schedAway(s, "thread end"); return V(); }
  default: err(s, "intrinsic " + F->name); }
  return V();
}

static inline u64 msk(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline s64 sx64(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }
static V binop(State &s, Inst &x, V a, V b) {
  unsigned w = x.w; int k = x.kind;
  if(k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) { if(!b.e ? b.c == 0 : branchOn(s, mkEq(b.e, mkConst(0, w)))) fault(s, 0, 0, false, "division by zero"); }
  if(!a.e && !b.e) { u64 p = a.c, q = b.c; switch(k) {
    case K_ADD: return msk(p + q, w); case 200: return msk(p - q, w); case K_MUL: return msk(p * q, w); case K_AND: return p & q; case K_OR: return p | q; case K_XOR: return p ^ q;
    case K_UDIV: return p / q; case K_UREM: return p % q; case K_SDIV: if(sx64(q, w) == -1) return msk(-p, w); return msk(sx64(p, w) / sx64(q, w), w); case K_SREM: if(sx64(q, w) == -1) return V(0); return msk(sx64(p, w) % sx64(q, w), w);
    case K_SHL: return msk(p << (q & (w > 32 ? 63 : 31)), w); case K_LSHR: return p >> (q & (w > 32 ? 63 : 31)); case K_ASHR: return msk(sx64(p, w) >> (q & (w > 32 ? 63 : 31)), w); } }
  E p = toE(a, w), q = toE(b, w);
  switch(k) { case K_ADD: return fromE(mkAdd(p, q)); case 200: return fromE(mkSub(p, q)); case K_MUL: return fromE(mkMul(p, q)); case K_AND: return fromE(mkAnd(p, q)); case K_OR: return fromE(mkOr(p, q)); case K_XOR: return fromE(mkXor(p, q));
    case K_UDIV: return fromE(mkUDiv(p, q)); case K_UREM: return fromE(mkURem(p, q)); case K_SDIV: return fromE(mkSDiv(p, q)); case K_SREM: return fromE(mkSRem(p, q));
    case K_SHL: case K_LSHR: case K_ASHR: { if(w == 32 || w == 64) q = mkAnd(q, mkConst(w - 1, w)); return fromE(k == K_SHL ? mkShl(p, q) : k == K_LSHR ? mkLShr(p, q) : mkAShr(p, q)); } }
  err(s, "binop"); return V();
}
static V icmp(Inst &x, V a, V b) {
  unsigned w = x.w2;
  if(!a.e && !b.e) { u64 p = a.c, q = b.c; s64 sp = sx64(p, w), sq = sx64(q, w); switch(x.pred) { case LLVMIntEQ: return p == q; case LLVMIntNE: return p != q; case LLVMIntUGT: return p > q; case LLVMIntUGE: return p >= q; case LLVMIntULT: return p < q; case LLVMIntULE: return p <= q; case LLVMIntSGT: return sp > sq; case LLVMIntSGE: return sp >= sq; case LLVMIntSLT: return sp < sq; case LLVMIntSLE: return sp <= sq; } }
  E p = toE(a, w), q = toE(b, w); switch(x.pred) { case LLVMIntEQ: return fromE(mkEq(p, q)); case LLVMIntNE: return fromE(mkNot(mkEq(p, q))); case LLVMIntUGT: return fromE(mkUlt(q, p)); case LLVMIntUGE: return fromE(mkUle(q, p)); case LLVMIntULT: return fromE(mkUlt(p, q)); case LLVMIntULE: return fromE(mkUle(p, q)); case LLVMIntSGT: return fromE(mkSlt(q, p)); case LLVMIntSGE: return fromE(mkSle(q, p)); case LLVMIntSLT: return fromE(mkSlt(p, q)); case LLVMIntSLE: return fromE(mkSle(p, q)); }
  die("icmp");
}
static double fget(u64 c, unsigned w) { if(w == 32) { float f; u32 x = c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fput(double d, unsigned w) { if(w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static void wakeAddr(State &s, u64 a) { for(auto &T : s.th) if(T.status == 1 && T.wait == a) T.status = 0; }

static void stepOne(State &s) {
  Thread &T = s.th[s.cur]; Frame &f = T.st.back(); Inst &x = f.f->blocks[f.blk].in[f.ip];
  switch(x.op) {
  case O_BIN: f.r[x.dst] = binop(s, x, get(f, x.a[0]), get(f, x.a[1])); break;
  case O_ICMP: f.r[x.dst] = icmp(x, get(f, x.a[0]), get(f, x.a[1])); break;
  case O_TRUNC: { V a = get(f, x.a[0]); f.r[x.dst] = a.e ? fromE(mkExtract(a.e, 0, x.w)) : V(msk(a.c, x.w)); break; }
  case O_ZEXT: { V a = get(f, x.a[0]); f.r[x.dst] = (a.e || x.w > 64) ? fromE(mkZExt(toE(a, x.w2), x.w)) : a; if(x.w > 64 && !f.r[x.dst].e) f.r[x.dst] = V(0, mkConst(f.r[x.dst].c, x.w)); break; }
  case O_SEXT: { V a = get(f, x.a[0]); if(a.e || x.w > 64) { E r = mkSExt(toE(a, x.w2), x.w); f.r[x.dst] = x.w > 64 ? V(0, r) : fromE(r); } else f.r[x.dst] = V(msk(sx64(a.c, x.w2), x.w)); break; }
  case O_MOVE: if(x.kind == 1) { for(int i = 0; i < x.nelt; i++) { Op o = x.a[0]; if(o.slot >= 0) o.slot += i; f.r[x.dst + i] = get(f, o); } for(int i = 0; i < x.w2; i++) { Op o = x.a[1]; if(o.slot >= 0) o.slot += i; f.r[x.dst + x.k + i] = get(f, o); } } else for(int i = 0; i < x.nelt; i++) { Op o = x.a[0]; if(o.slot >= 0) o.slot += i; f.r[x.dst + i] = get(f, o); } break;
  case O_SELECT: { V c = get(f, x.a[0]); if(c.e) { E e = norm(s, c.e); c = fromE(e); } f.r[x.dst] = !c.e ? get(f, x.a[c.c ? 1 : 2]) : fromE(mkIte(c.e, toE(get(f, x.a[1]), x.w), toE(get(f, x.a[2]), x.w))); break; }
  case O_LOAD: { V a = get(f, x.a[0]); bool at = x.atomic; if(x.aw.size() == 1) { unsigned w = x.aw[0]; if(!w) err(s, "vector load"); V v = load(s, a, (w + 7) / 8, at); Frame &g = s.th[s.cur].st.back(); if(w % 8) v = v.e ? fromE(mkExtract(v.e, 0, w)) : V(msk(v.c, w)); g.r[x.dst] = v; } else { vector<V> vs; for(size_t i = 0; i < x.aw.size(); i++) vs.push_back(load(s, addrV(a, x.eo[i]), (x.aw[i] + 7) / 8)); for(size_t i = 0; i < vs.size(); i++) f.r[x.dst + i] = vs[i]; }
    if(at && s.races && !a.e) { auto it = s.locks.find(a.c); if(it != s.locks.end()) vcJoin(T.vc, it->second.vc); } break; }
  case O_STORE: { V a = get(f, x.a[1]); for(size_t i = 0; i < x.aw.size(); i++) { Op o = x.a[0]; if(o.slot >= 0) o.slot += i; V v = get(f, o); unsigned w = x.aw[i]; if(!w) err(s, "vector store"); if(w % 8 && v.e) v = fromE(mkZExt(v.e, (w + 7) / 8 * 8)); store(s, i || x.eo[i] ? addrV(a, x.eo[i]) : a, (w + 7) / 8, v, x.atomic); }
    if(x.atomic && !a.e && s.th.size() > 1) { LockSt &L = s.locks[a.c]; L.vc = T.vc; if(L.owner == s.cur) { L.owner = -1; T.nheld--; } T.vc[s.cur]++; wakeAddr(s, a.c); } else if(x.atomic && !a.e) { auto it = s.locks.find(a.c); if(it != s.locks.end() && it->second.owner == s.cur) { it->second.owner = -1; T.nheld--; } } break; }
  case O_GEP: { V a = get(f, x.a[0]); u64 c = x.k; bool sym = a.e; for(auto &g : x.g) if(f.r[g.slot].e) sym = true; if(!sym) { c += a.c; for(auto &g : x.g) c += (u64)sx64(f.r[g.slot].c, g.w) * g.scale; f.r[x.dst] = V(c); } else { E r = toE(a, 64); for(auto &g : x.g) { V i = f.r[g.slot]; if(!i.e) c += (u64)sx64(i.c, g.w) * g.scale; else { E ix = g.w < 64 ? mkSExt(i.e, 64) : i.e; r = mkAdd(r, g.scale == 1 ? ix : mkMul(ix, mkConst(g.scale, 64))); } } f.r[x.dst] = fromE(mkAdd(r, mkConst(c, 64))); } break; }
  case O_ALLOCA: { u64 n = conc(s, get(f, x.a[0])); u64 sz = n * x.k; T.sp = (T.sp + 15) & ~15ull; if(sz >= 128) { T.sp = (T.sp + 4095) & ~4095ull; Region *R = nullptr; (void)R; } f.r[x.dst] = V(T.sp); { Region *R = s.mem.findW(T.sp); u64 off = T.sp - R->base; u64 end = off + sz; while(off < end) { u64 k = std::min(end - off, PG - off % PG); if(R->pages[off / PG]) { Page *p = R->wpage(off / PG); memset(p->d + off % PG, 0, k); if(p->sym) memset(p->sym + off % PG, 0, k * sizeof(E)); } off += k; } if(off + 8192 > STACK_SZ) err(s, "stack overflow"); } T.sp += sz + 16; break; }
  case O_BR: takeEdge(f, x.edges[0]); return;
  case O_CBR: { bool c = condOn(s, get(f, x.a[0])); takeEdge(f, x.edges[c ? 0 : 1]); return; }
  case O_SWITCH: { V a = get(f, x.a[0]); unsigned w = x.w2; int pick = 0; if(!a.e) { for(size_t i = 0; i < x.cases.size(); i++) if(msk(x.cases[i], w) == a.c) { pick = i + 1; break; } } else { u64 mv = evalS(s, norm(s, a.e)); for(size_t i = 0; i < x.cases.size(); i++) if(msk(x.cases[i], w) == mv) pick = i + 1; E c; if(pick) c = mkEq(a.e, mkConst(mv, w)); else { c = mkBool(true); for(u64 k : x.cases) c = mkAnd(c, mkNot(mkEq(a.e, mkConst(msk(k, w), w)))); } branchOn(s, c); } takeEdge(f, x.edges[pick]); return; }
  case O_UNREACH: badEvent(s, mkBool(false), "unreachable reached", "unreachable"); throw Done();
  case O_RET: { vector<V> rv; for(auto &o : x.a) rv.push_back(get(f, o)); s32 dst = f.dst; T.sp = f.sp; T.st.pop_back(); if(T.st.empty()) { T.status = 2; if(s.cur == 0) { st.ends++; throw Done(); } schedAway(s, "thread end"); } Frame &g = T.st.back(); if(dst >= 0) for(size_t i = 0; i < rv.size(); i++) g.r[dst + i] = rv[i]; g.ip++; return; }
  case O_CALL: { Func *F = x.callee; if(!F) { V a = get(f, x.a[0]); u64 fa = conc(s, a); auto it = funcByAddr.find(fa); if(it == funcByAddr.end()) fault(s, fa, 0, false, "call through a bad function pointer"); F = it->second; }
    F->count++; if(F->intr) { bool adv = true; V r = bi(s, x, f, F, adv); if(adv) { Frame &g = s.th[s.cur].st.back(); if(x.dst >= 0) { if(r.e == nullptr && x.w < 64 && x.w) r.c = msk(r.c, x.w); g.r[x.dst] = r; } g.ip++; } return; }
    if(F->decl) { err(s, "call to undefined function " + F->name); }
    vector<V> args; args.reserve(x.a.size()); for(size_t i = 1; i < x.a.size(); i++) args.push_back(get(f, x.a[i])); u64 ra = callSite(&x); pushFrame(s, F, args, x.dst, ra); return; }
  case O_RMW: { V a = get(f, x.a[0]); u64 ad = conc(s, a); unsigned n = x.w / 8;
    if(x.kind == LLVMAtomicRMWBinOpXchg) { // spin lock
      V old = load(s, V(ad), n, true); if(old.e) err(s, "symbolic spin lock"); V nv = get(f, x.a[1]); bool acquire = !nv.e && nv.c != 0;
      if(acquire) { auto it = s.locks.find(ad); if(old.c != 0 && it != s.locks.end() && it->second.owner == s.cur) { report(s, "spin lock re-acquired by its holder", "relock", s.model); throw Done(); }
        schedPoint(s); old = load(s, V(ad), n, true); if(old.c != 0) { if(s.th.size() < 2) { report(s, "spin lock never released", "deadlock", s.model); throw Done(); } s.th[s.cur].status = 1; s.th[s.cur].wait = ad; schedAway(s, "spin lock"); } LockSt &L = s.locks[ad]; L.owner = s.cur; vcJoin(T.vc, L.vc); T.sched = false; T.nheld++; }
      store(s, V(ad), n, nv, true); f.r[x.dst] = old; break; }
    V old = load(s, V(ad), n, true); V b = get(f, x.a[1]); E o = toE(old, x.w), q = toE(b, x.w), r; switch(x.kind) { case LLVMAtomicRMWBinOpAdd: r = mkAdd(o, q); break; case LLVMAtomicRMWBinOpSub: r = mkSub(o, q); break; case LLVMAtomicRMWBinOpAnd: r = mkAnd(o, q); break; case LLVMAtomicRMWBinOpOr: r = mkOr(o, q); break; case LLVMAtomicRMWBinOpXor: r = mkXor(o, q); break; default: err(s, "atomicrmw"); return; }
    store(s, V(ad), n, fromE(r), true); f.r[x.dst] = old; { LockSt &L = s.locks[ad]; vcJoin(T.vc, L.vc); vcJoin(L.vc, T.vc); T.vc[s.cur]++; } break; }
  case O_CMPXCHG: { u64 ad = conc(s, get(f, x.a[0])); unsigned n = x.w2 / 8; V old = load(s, V(ad), n, true); E eq = mkEq(toE(old, x.w2), toE(get(f, x.a[1]), x.w2)); bool c = branchOn(s, eq); if(c) store(s, V(ad), n, get(f, x.a[2]), true); f.r[x.dst] = old; f.r[x.dst + 1] = V(c); break; }
  case O_FENCE: break;
  case O_FBIN: { V a = get(f, x.a[0]), b = get(f, x.a[1]); u64 p = conc(s, a), q = conc(s, b); double d1 = fget(p, x.w), d2 = fget(q, x.w), r = x.kind == '+' ? d1 + d2 : x.kind == '-' ? d1 - d2 : x.kind == '*' ? d1 * d2 : d1 / d2; f.r[x.dst] = V(fput(r, x.w)); break; }
  case O_FCMP: { double a = fget(conc(s, get(f, x.a[0])), x.w2), b = fget(conc(s, get(f, x.a[1])), x.w2); bool un = a != a || b != b, r = false; switch(x.pred) { case LLVMRealOEQ: r = !un && a == b; break; case LLVMRealOGT: r = !un && a > b; break; case LLVMRealOGE: r = !un && a >= b; break; case LLVMRealOLT: r = !un && a < b; break; case LLVMRealOLE: r = !un && a <= b; break; case LLVMRealONE: r = !un && a != b; break; case LLVMRealUNE: r = un || a != b; break; case LLVMRealUGT: r = un || a > b; break; case LLVMRealULT: r = un || a < b; break; case LLVMRealUGE: r = un || a >= b; break; case LLVMRealULE: r = un || a <= b; break; case LLVMRealUEQ: r = un || a == b; break; } f.r[x.dst] = V(r); break; }
  case O_FCAST: { u64 c = conc(s, get(f, x.a[0])); u64 r = 0; switch(x.kind) { case 'u': r = msk((u64)fget(c, x.w2), x.w); break; case 's': r = msk((u64)(s64)fget(c, x.w2), x.w); break; case 'U': r = fput((double)c, x.w); break; case 'S': r = fput((double)sx64(c, x.w2), x.w); break; case 't': case 'e': r = fput(fget(c, x.w2), x.w); break; case 'n': r = fput(-fget(c, x.w2), x.w); break; } f.r[x.dst] = V(r); break; }
  default: err(s, "unsupported instruction: " + x.s); }
  s.th[s.cur].st.back().ip++;
}

// ---------------- output
static string jesc(const string &s) { string r; for(char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string statusStr = "complete"; static double t0; 
static void output() {
  string o = "{"; auto num = [&](const char *k, double v) { char b[128]; snprintf(b, 128, "\"%s\":%.6g,", k, v); o += b; }; auto un = [&](const char *k, u64 v) { o += string("\"") + k + "\":" + std::to_string(v) + ","; };
  o += "\"status\":\"" + statusStr + "\","; un("paths", st.paths); un("paths_returned", st.ends); un("paths_aborted", st.aborts); un("paths_faulted", st.faults); un("paths_cut_by_assume", st.assumesCut); un("paths_killed", st.killed); un("pending", work.size()); un("forks", st.forks); un("instrs", st.instrs); un("asserts", st.asserts); un("asserts_by_solver", st.assertSolver); un("sched_points", st.schedPoints); un("max_path_constraints", st.maxcons); un("solver_unknown", st.incomplete);
  un("queries", gSolver.queries); un("queries_sat", gSolver.sat); un("queries_unsat", gSolver.unsat); num("solver_s", gSolver.secs); num("wall_s", now() - t0); un("exprs", exprCount()); un("symbols", varCount());
  o += "\"reached\":{"; bool f1 = true; for(auto &k : st.reached) { if(!f1) o += ","; f1 = false; o += "\"" + jesc(k.first) + "\":" + std::to_string(k.second); } o += "},\"assertions\":{"; f1 = true; for(auto &k : st.assertIds) { if(!f1) o += ","; f1 = false; o += "\"" + jesc(k.first) + "\":" + std::to_string(k.second); }
  o += "},\"functions\":["; f1 = true; for(auto *F : funcList) if(F->executed) { if(!f1) o += ","; f1 = false; o += "\"" + jesc(F->name) + "\""; }
  o += "],\"errors\":["; f1 = true; for(auto &e : st.errors) { if(!f1) o += ","; f1 = false; o += "\"" + jesc(e) + "\""; }
  o += "],\"violations\":["; f1 = true; for(auto &v : viols) { if(!f1) o += ","; f1 = false; o += "{\"id\":\"" + jesc(v.id) + "\",\"kind\":\"" + v.kind + "\",\"loc\":\"" + jesc(v.loc) + "\",\"stack\":\"" + jesc(v.stack) + "\",\"inputs\":["; bool f2 = true; for(auto &i : v.inputs) { if(!f2) o += ","; f2 = false; o += "[\"" + jesc(i.first) + "\",\"" + i.second + "\"]"; } o += "],\"sched\":["; f2 = true; for(int q : v.sched) { if(!f2) o += ","; f2 = false; o += std::to_string(q); } o += "]}"; }
  o += "],\"witnesses\":{"; f1 = true; for(auto &w : witness) { auto &v = w.second; if(!f1) o += ","; f1 = false; o += "\"" + jesc(w.first) + "\":{\"inputs\":["; bool f2 = true; for(auto &i : v.inputs) { if(!f2) o += ","; f2 = false; o += "[\"" + jesc(i.first) + "\",\"" + i.second + "\"]"; } o += "],\"sched\":["; f2 = true; for(int q : v.sched) { if(!f2) o += ","; f2 = false; o += std::to_string(q); } o += "]}"; }
  o += "}}\n"; fputs(o.c_str(), stdout); fflush(stdout);
}
static u64 rssMB() { FILE *f = fopen("/proc/self/statm", "r"); if(!f) return 0; long a = 0, b = 0; if(fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return (u64)b * 4096 >> 20; }
int main(int argc, char **argv) {
  const char *bc = nullptr, *entry = nullptr; 
  for(int i = 1; i < argc; i++) { string a = argv[i]; auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)"0"; };
    if(a == "--timeout") optTimeout = atof(val()); else if(a == "--preempt") optPreempt = atoi(val()); else if(a == "--printf") optPrintf = true; else if(a == "--trace") optTrace = true; else if(a == "--max-viol") optMaxViol = atoi(val()); else if(a == "--max-paths") optMaxPaths = atoll(val()); else if(a == "--mem") optMemMB = atoll(val()); else if(a == "--query-timeout") gQueryTimeoutMs = atoi(val()); else if(a == "--max-steps") optMaxSteps = atoll(val()); else if(!bc) bc = argv[i]; else entry = argv[i]; }
  if(!bc || !entry) { fprintf(stderr, "usage: sx module.bc entry\n"); return 2; }
  t0 = now(); loadModule(bc); State *s0 = new State(); s0->abortOk = mkBool(false); s0->faultOk = mkBool(false); placeGlobals(*s0); addThread(*s0); Func *E0 = nullptr; for(auto *F : funcList) if(F->name == entry && !F->decl) E0 = F; if(!E0) die(string("no entry ") + entry); vector<V> noargs; pushFrame(*s0, E0, noargs, -1, 0); work.push_back(s0);
  bool stop = false;
  while(!work.empty() && !stop) {
    State *s = work.back(); work.pop_back(); st.paths++; evModel = nullptr;
    try { for(;;) { if(s->th[s->cur].st.empty()) schedAway(*s, "thread gone"); if((++st.instrs & 4095) == 0) { if(now() - t0 > optTimeout) { statusStr = "timeout"; stop = true; work.push_back(s); s = nullptr; break; } if((st.instrs & 0xfffff) == 0 && rssMB() > optMemMB) { statusStr = "memory"; stop = true; work.push_back(s); s = nullptr; break; } } if(++s->steps > optMaxSteps) err(*s, "step limit");
        if(optTrace) { auto &f = s->th[s->cur].st.back(); auto &x = f.f->blocks[f.blk].in[f.ip]; fprintf(stderr, "[%llu/%d] %s b%d i%d op%d line %u%s%s\n", (unsigned long long)s->id, s->cur, f.f->name.c_str(), f.blk, f.ip, x.op, x.line, x.callee ? " call " : "", x.callee ? x.callee->name.c_str() : ""); }
        try { stepOne(*s); } catch(Again &) {} } } catch(Done &) { }
    delete s; if(st.paths >= optMaxPaths && !work.empty()) { statusStr = "paths"; stop = true; } if(!stop && now() - t0 > optTimeout) { if(!work.empty()) { statusStr = "timeout"; stop = true; } } if(!stop && rssMB() > optMemMB && !work.empty()) { statusStr = "memory"; stop = true; }
  }
  output(); fflush(nullptr); _exit(0);
}
