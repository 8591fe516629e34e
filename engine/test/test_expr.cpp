// differential test of the expression simplifier against foldBin-style concrete semantics
#include "../expr.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
struct P { E e; u128 v[4]; };
static u64 rs = 88172645463325252ull; static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static ModelMap mm[4];
static u128 rv(unsigned w) { u128 r = ((u128)rnd() << 64) | rnd(); switch(rnd() % 4) { case 0: r = rnd() % 9; break; case 1: r = -(u128)(rnd() % 9); break; case 2: r = (u128)1 << (rnd() % w); } return r & maskw(w); }
int main(int argc, char **argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 3000; u64 bad = 0, n = 0;
  for(int r = 0; r < rounds; r++) {
    std::vector<P> pool; static const unsigned W[] = {1, 8, 16, 32, 64, 128};
    for(int i = 0; i < 8; i++) { unsigned w = W[rnd() % 6]; P p; std::string nm = "r" + std::to_string(r % 50) + "v" + std::to_string(i) + "w" + std::to_string(w); p.e = mkVar(nm, w); for(int k = 0; k < 4; k++) { auto it = mm[k].find((u32)p.e->val); u128 x = it != mm[k].end() ? it->second : rv(w); mm[k][(u32)p.e->val] = x; p.v[k] = x; } pool.push_back(p); }
    for(int i = 0; i < 6; i++) { unsigned w = W[rnd() % 6]; P p; u128 x = rv(w); p.e = mkConst(x, w); for(int k = 0; k < 4; k++) p.v[k] = x; pool.push_back(p); }
    for(int i = 0; i < 60; i++) {
      P &a = pool[rnd() % pool.size()]; unsigned w = a.e->w; std::vector<P *> same; for(auto &p : pool) if(p.e->w == w) same.push_back(&p); P &b = *same[rnd() % same.size()]; P q; int op = rnd() % 26; bool ok = true;
      auto bin = [&](Kind k, E e) { q.e = e; for(int t = 0; t < 4; t++) q.v[t] = foldBin(k, w, a.v[t], b.v[t]); };
      auto cmp = [&](E e, std::function<bool(u128, u128)> f) { q.e = e; for(int t = 0; t < 4; t++) q.v[t] = f(a.v[t], b.v[t]); };
      switch(op) {
      case 0: q.e = mkAdd(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = (a.v[t] + b.v[t]) & maskw(w); break;
      case 1: q.e = mkSub(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = (a.v[t] - b.v[t]) & maskw(w); break;
      case 2: if(w > 64) { ok = false; break; } q.e = mkMul(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = (a.v[t] * b.v[t]) & maskw(w); break;
      case 3: q.e = mkAnd(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = a.v[t] & b.v[t]; break;
      case 4: q.e = mkOr(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = a.v[t] | b.v[t]; break;
      case 5: q.e = mkXor(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = a.v[t] ^ b.v[t]; break;
      case 6: q.e = mkShl(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = b.v[t] >= w ? 0 : (a.v[t] << (unsigned)b.v[t]) & maskw(w); break;
      case 7: q.e = mkLShr(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = b.v[t] >= w ? 0 : a.v[t] >> (unsigned)b.v[t]; break;
      case 8: q.e = mkAShr(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = (u128)(sextw(a.v[t], w) >> (b.v[t] >= w ? w - 1 : (unsigned)b.v[t])) & maskw(w); break;
      case 9: bin(K_UDIV, mkUDiv(a.e, b.e)); for(int t = 0; t < 4; t++) if(!b.v[t]) ok = false; break;
      case 10: bin(K_UREM, mkURem(a.e, b.e)); for(int t = 0; t < 4; t++) if(!b.v[t]) ok = false; break;
      case 11: bin(K_SDIV, mkSDiv(a.e, b.e)); for(int t = 0; t < 4; t++) if(!b.v[t]) ok = false; break;
      case 12: bin(K_SREM, mkSRem(a.e, b.e)); for(int t = 0; t < 4; t++) if(!b.v[t]) ok = false; break;
      case 13: cmp(mkEq(a.e, b.e), [](u128 x, u128 y) { return x == y; }); break;
      case 14: cmp(mkUlt(a.e, b.e), [](u128 x, u128 y) { return x < y; }); break;
      case 15: cmp(mkUle(a.e, b.e), [](u128 x, u128 y) { return x <= y; }); break;
      case 16: cmp(mkSlt(a.e, b.e), [&](u128 x, u128 y) { return sextw(x, w) < sextw(y, w); }); break;
      case 17: cmp(mkSle(a.e, b.e), [&](u128 x, u128 y) { return sextw(x, w) <= sextw(y, w); }); break;
      case 18: { std::vector<P *> bs; for(auto &p : pool) if(p.e->w == 1) bs.push_back(&p); if(bs.empty()) { ok = false; break; } P &c = *bs[rnd() % bs.size()]; q.e = mkIte(c.e, a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = c.v[t] ? a.v[t] : b.v[t]; break; }
      case 19: case 20: { if(w < 8) { ok = false; break; } unsigned nw = W[rnd() % 5]; if(nw > w) nw = w; unsigned lo = nw == w ? 0 : rnd() % (w - nw + 1); if(rnd() & 1) lo = lo / 8 * 8; q.e = mkExtract(a.e, lo, nw); for(int t = 0; t < 4; t++) q.v[t] = (a.v[t] >> lo) & maskw(nw); break; }
      case 21: { unsigned nw = W[rnd() % 6]; if(nw < w) { ok = false; break; } q.e = mkZExt(a.e, nw); for(int t = 0; t < 4; t++) q.v[t] = a.v[t]; break; }
      case 22: { unsigned nw = W[rnd() % 6]; if(nw < w) { ok = false; break; } q.e = mkSExt(a.e, nw); for(int t = 0; t < 4; t++) q.v[t] = (u128)sextw(a.v[t], w) & maskw(nw); break; }
      case 23: case 24: { if(w > 64 || w == 1) { ok = false; break; } q.e = mkConcat(a.e, b.e); for(int t = 0; t < 4; t++) q.v[t] = (a.v[t] << w) | b.v[t]; break; }
      case 25: q.e = mkNot(a.e); for(int t = 0; t < 4; t++) q.v[t] = ~a.v[t] & maskw(w); break; }
      if(!ok) continue; n++;
      for(int t = 0; t < 4; t++) { u128 g = evalExpr(q.e, mm[t]); u128 v = q.v[t]; bool range = v >= q.e->umin && v <= q.e->umax && (v & q.e->kz) == 0 && (~v & q.e->ko & maskw(q.e->w)) == 0; if(g != v || !range) { bad++; if(bad < 10) printf("BAD op %d w %u: got %llx want %llx range %d\n  a=%s\n  b=%s\n  r=%s\n", op, w, (unsigned long long)g, (unsigned long long)v, range, showExpr(a.e, 3).c_str(), showExpr(b.e, 3).c_str(), showExpr(q.e, 3).c_str()); break; } }
      pool.push_back(q); }
    if(r % 10 == 0) { // solver agreement: the conjunction "expr == its value under model" must be satisfiable together with the assignments
      std::vector<E> cs; P &p = pool[14 + rnd() % (pool.size() - 14)]; if(p.e->isConst()) continue; for(u32 v : *p.e->vars) cs.push_back(mkEq(varExpr(v), mkConst(mm[0][v], varWidth(v)))); auto cs2 = cs; cs.push_back(mkEq(p.e, mkConst(p.v[0], p.e->w))); cs2.push_back(mkNot(mkEq(p.e, mkConst(p.v[0], p.e->w)))); ModelMap m; gQueryTimeoutMs = 3000; if(solverCheck(cs, &m) == R_UNSAT) { bad++; printf("BAD solver sat\n"); } if(solverCheck(cs2, nullptr) == R_SAT) { bad++; printf("BAD solver unsat\n"); } }
  }
  printf("%llu ops, %llu bad, %zu exprs\n", (unsigned long long)n, (unsigned long long)bad, exprCount()); return bad != 0;
}
