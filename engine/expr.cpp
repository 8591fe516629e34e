#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <unordered_set>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <deque>

// ---------------------------------------------------------------- hash consing
struct Node { Expr e; Expr *next; };
static std::deque<Node> nodes;
static std::vector<Node *> buckets(1 << 18, nullptr);
static std::unordered_map<std::string, u32> varIdx;
static std::vector<E> varList; static std::vector<std::string> varNames;

size_t exprCount() { return nodes.size(); }
const std::string &varName(u32 i) { return varNames[i]; }
unsigned varWidth(u32 i) { return varList[i]->w; }
size_t varCount() { return varList.size(); }
E varExpr(u32 i) { return varList[i]; }

struct VSHash { size_t operator()(const VarSet &v) const { size_t h = 1469598103934665603ull; for(u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_set<VarSet, VSHash> vsets;
static const VarSet *emptyVS = nullptr;
static const VarSet *internVS(VarSet &&v) { return &*vsets.insert(std::move(v)).first; }
struct PairHash { size_t operator()(const std::pair<const void *, const void *> &p) const { return ((size_t)p.first * 0x9E3779B97F4A7C15ull) ^ ((size_t)p.second >> 3); } };
static std::unordered_map<std::pair<const void *, const void *>, const VarSet *, PairHash> vsMemo;
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if(a == b || b->empty()) return a;
  if(a->empty()) return b;
  if(a > b) std::swap(a, b);
  auto key = std::make_pair((const void *)a, (const void *)b);
  auto it = vsMemo.find(key);
  if(it != vsMemo.end()) return it->second;
  VarSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  const VarSet *res = internVS(std::move(r));
  vsMemo[key] = res;
  return res;
}

static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static void computeInfo(Expr &e) {
  u128 m = maskw(e.w);
  e.kz = ~m; e.ko = 0; e.umin = 0; e.umax = m;
  E a = e.a, b = e.b, c = e.c;
  switch(e.k) {
  case K_CONST: e.kz = ~e.val; e.ko = e.val; e.umin = e.umax = e.val; return;
  case K_VAR: return;
  case K_AND: e.kz = a->kz | b->kz; e.ko = a->ko & b->ko; e.umax = std::min(a->umax, b->umax); break;
  case K_OR: e.kz = a->kz & b->kz; e.ko = a->ko | b->ko; e.umin = std::max(a->umin, b->umin); break;
  case K_XOR: e.kz = (a->kz & b->kz) | (a->ko & b->ko); e.ko = (a->kz & b->ko) | (a->ko & b->kz); break;
  case K_ADD: {
    u128 s = a->umax + b->umax; bool ov = e.w == 128 ? s < a->umax : s > m;
    if(!ov) { e.umin = a->umin + b->umin; e.umax = s; }
    else { // both wrap for certain?
      u128 l = a->umin + b->umin; bool lov = e.w == 128 ? l < a->umin : l > m;
      if(lov && e.w < 128) { e.umin = l & m; e.umax = s & m; }
    }
    // trailing zeros
    u128 za = a->kz, zb = b->kz; unsigned t = 0;
    while(t < e.w && ((za >> t) & 1) && ((zb >> t) & 1)) t++;
    if(t) e.kz |= maskw(t);
    // low known bits of both: propagate exact low part
    unsigned kn = 0; u128 ka = a->kz | a->ko, kb = b->kz | b->ko;
    while(kn < e.w && ((ka >> kn) & 1) && ((kb >> kn) & 1)) kn++;
    if(kn) { u128 lowv = ((a->ko & maskw(kn)) + (b->ko & maskw(kn))) & maskw(kn); e.ko |= lowv; e.kz |= maskw(kn) & ~lowv; }
    break; }
  case K_MUL: {
    unsigned ta = 0, tb = 0; while(ta < e.w && ((a->kz >> ta) & 1)) ta++; while(tb < e.w && ((b->kz >> tb) & 1)) tb++;
    unsigned t = std::min<unsigned>(ta + tb, e.w); if(t) e.kz |= maskw(t);
    if(e.w <= 64 && a->umax <= ~(u64)0 && b->umax <= ~(u64)0) { u128 p = a->umax * b->umax; if(p <= m) { e.umax = p; e.umin = a->umin * b->umin; } }
    break; }
  case K_UDIV: if(b->umin > 0) { e.umax = a->umax / b->umin; e.umin = b->umax ? a->umin / b->umax : 0; } break;
  case K_UREM: if(b->umax > 0 && b->umin > 0) e.umax = std::min(a->umax, b->umax - 1); break;
  case K_SHL: case K_LSHR: case K_ASHR: case K_SDIV: case K_SREM: 
    if(e.k == K_LSHR) e.umax = a->umax;
    break;
  case K_CONCAT: {
    unsigned lw = b->w; u128 lm = maskw(lw);
    e.kz = (e.w < 128 ? ~m : 0) | ((a->kz << lw) & m) | (b->kz & lm); e.ko = (a->ko << lw) | b->ko;
    e.umin = (a->umin << lw) + b->umin; e.umax = (a->umax << lw) + b->umax; break; }
  case K_EXTRACT: {
    e.kz = (~m) | ((a->kz >> e.lo) & m); e.ko = (a->ko >> e.lo) & m;
    u128 hi = a->umax >> e.lo; if(hi <= m) { e.umax = hi; e.umin = a->umin >> e.lo; }
    break; }
  case K_ZEXT: e.kz = (~m) | (a->kz | (maskw(128) & ~maskw(a->w))); e.ko = a->ko; e.umin = a->umin; e.umax = a->umax; break;
  case K_SEXT: {
    u128 am = maskw(a->w); e.kz = (~m) | (a->kz & am); e.ko = a->ko & am;
    u128 sb = (u128)1 << (a->w - 1);
    if(a->kz & sb) { e.kz |= m & ~am; e.umin = a->umin; e.umax = a->umax; } else if(a->ko & sb) e.ko |= m & ~am;
    if(!(a->kz & sb)) { e.kz &= ~(m & ~am) | (~m); }
    break; }
  case K_ITE: e.kz = b->kz & c->kz; e.ko = b->ko & c->ko; e.umin = std::min(b->umin, c->umin); e.umax = std::max(b->umax, c->umax); break;
  default: break;
  }
  e.kz |= ~m;
  // combine
  u128 kmax = m & ~e.kz, kmin = e.ko;
  if(kmax < e.umax) e.umax = kmax;
  if(kmin > e.umin) e.umin = kmin;
  // high bits known zero from umax
  u128 x = e.umax; unsigned bits = 0; while(x) { bits++; x >>= 1; }
  if(bits < 128) e.kz |= ~maskw(bits);
}

static E intern(Kind k, unsigned w, E a, E b, E c, u128 val, unsigned lo) {
  u64 h = hmix(k * 131 + w, lo);
  h = hmix(h, (u64)val); h = hmix(h, (u64)(val >> 64));
  h = hmix(h, a ? a->id : 0); h = hmix(h, b ? b->id : 0); h = hmix(h, c ? c->id : 0);
  size_t ix = h & (buckets.size() - 1);
  for(Node *n = buckets[ix]; n; n = (Node *)n->next) {
    Expr &x = n->e;
    if(x.hash == h && x.k == k && x.w == w && x.lo == lo && x.a == a && x.b == b && x.c == c && x.val == val) return &x;
  }
  nodes.emplace_back();
  Node *n = &nodes.back();
  Expr &x = n->e;
  x.k = k; x.w = w; x.lo = lo; x.a = a; x.b = b; x.c = c; x.val = val; x.hash = h; x.id = nodes.size(); x.ast = nullptr; x.epoch = 0; x.ev = 0;
  x.cleaf = 0;
  if(!emptyVS) emptyVS = internVS(VarSet());
  if(k == K_CONST) { x.cleaf = 1; x.vars = emptyVS; }
  else if(k == K_VAR) x.vars = internVS(VarSet{(u32)val});
  else {
    const VarSet *v = a->vars; if(b) v = unionVS(v, b->vars); if(c) v = unionVS(v, c->vars); x.vars = v;
    if(k == K_ITE && b->cleaf && c->cleaf) { unsigned s = b->cleaf + c->cleaf; x.cleaf = s > 200 ? 0 : s; }
  }
  computeInfo(x);
  n->next = (Expr *)buckets[ix]; buckets[ix] = n;
  if(nodes.size() > buckets.size()) {
    std::vector<Node *> nb(buckets.size() * 4, nullptr);
    for(Node *q : buckets) while(q) { Node *nx = (Node *)q->next; size_t j = q->e.hash & (nb.size() - 1); q->next = (Expr *)nb[j]; nb[j] = q; q = nx; }
    buckets.swap(nb);
  }
  return &x;
}
E mkConst(u128 v, unsigned w) { return intern(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w), 0); }
E mkVar(const std::string &name, unsigned w) {
  auto it = varIdx.find(name);
  if(it != varIdx.end()) return varList[it->second];
  u32 i = varList.size(); varIdx[name] = i; varNames.push_back(name);
  E e = intern(K_VAR, w, nullptr, nullptr, nullptr, i, 0); varList.push_back(e); return e;
}
static E raw(Kind k, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned lo = 0) {
  // A node whose value is fully determined by known bits is a constant.
  E e = intern(k, w, a, b, c, 0, lo);
  u128 m = maskw(w);
  if(((e->kz | e->ko) & m) == m) return mkConst(e->ko & m, w);
  if(e->umin == e->umax) return mkConst(e->umin, w);
  return e;
}

u128 foldBin(Kind k, unsigned w, u128 x, u128 y) {
  u128 m = maskw(w); x &= m; y &= m;
  switch(k) {
  case K_ADD: return (x + y) & m;
  case K_MUL: return (x * y) & m;
  case K_UDIV: return y ? (x / y) : m;
  case K_UREM: return y ? (x % y) : x;
  case K_SDIV: { if(!y) return 0; s128 a = sextw(x, w), b = sextw(y, w); if(b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
  case K_SREM: { if(!y) return x; s128 a = sextw(x, w), b = sextw(y, w); if(b == -1) return 0; return (u128)(a % b) & m; }
  case K_AND: return x & y;
  case K_OR: return x | y;
  case K_XOR: return x ^ y;
  case K_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
  case K_LSHR: return y >= w ? 0 : x >> (unsigned)y;
  case K_ASHR: { s128 a = sextw(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
  case K_EQ: return x == y;
  case K_ULT: return x < y;
  case K_ULE: return x <= y;
  case K_SLT: return sextw(x, w) < sextw(y, w);
  case K_SLE: return sextw(x, w) <= sextw(y, w);
  default: abort();
  }
}

static bool isPow2(u128 v, unsigned &k) { if(!v || (v & (v - 1))) return false; k = 0; while(!((v >> k) & 1)) k++; return true; }

typedef E (*Bin)(E, E);
static E distIte(Bin f, E t, E k, bool left) { // t is a const-leaf ite tree, k const
  if(t->isConst()) return left ? f(t, k) : f(k, t);
  return mkIte(t->a, distIte(f, t->b, k, left), distIte(f, t->c, k, left));
}
#define DIST(f) do { if(b->isConst() && a->k == K_ITE && a->cleaf) return distIte(f, a, b, true); \
                     if(a->isConst() && b->k == K_ITE && b->cleaf) return distIte(f, b, a, false); } while(0)

// ---- linear normal form
struct Lin { std::vector<std::pair<E, u128>> t; u128 c = 0; };
static bool linAdd(Lin &L, E e, u128 k, unsigned w, int depth) {
  u128 m = maskw(w);
  if(e->isConst()) { L.c = (L.c + e->val * k) & m; return true; }
  if(depth > 0) {
    if(e->k == K_ADD) return linAdd(L, e->a, k, w, depth - 1) && linAdd(L, e->b, k, w, depth - 1);
    if(e->k == K_MUL && e->b->isConst()) return linAdd(L, e->a, (k * e->b->val) & m, w, depth - 1);
    if(e->k == K_CONCAT && e->b->isConst() && e->b->val == 0 && e->a->k == K_EXTRACT && e->a->lo == 0 && e->a->a->w == w)
      return linAdd(L, e->a->a, (k << e->b->w) & m, w, depth - 1);
    if(e->k == K_XOR && e->b->isConst() && e->b->val == m) { L.c = (L.c - k) & m; return linAdd(L, e->a, (0 - k) & m, w, depth - 1); }
  }
  for(auto &p : L.t) if(p.first == e) { p.second = (p.second + k) & m; return true; }
  if(L.t.size() >= 10) return false;
  L.t.push_back({e, k});
  return true;
}
static E mulConst(E a, u128 k);
static E linBuild(Lin &L, unsigned w) {
  std::vector<std::pair<E, u128>> t;
  for(auto &p : L.t) if(p.second) t.push_back(p);
  std::sort(t.begin(), t.end(), [](const std::pair<E, u128> &x, const std::pair<E, u128> &y) { return x.first->id < y.first->id; });
  if(t.empty()) return mkConst(L.c, w);
  E r = nullptr;
  for(auto &p : t) { E x = mulConst(p.first, p.second); if(!r) r = x; else {
      if(r->isConst()) std::swap(r, x);
      if(x->isConst()) { if(x->val) r = raw(K_ADD, w, r, x); }
      else r = raw(K_ADD, w, r, x); } }
  if(L.c) {
    if(r->isConst()) return mkConst(r->val + L.c, w);
    E c = mkConst(L.c, w);
    if((~r->kz & ~c->kz & maskw(w)) == 0) return mkOr(r, c);
    r = raw(K_ADD, w, r, c);
  }
  return r;
}
static E mulConst(E a, u128 k) {
  unsigned w = a->w; k &= maskw(w); unsigned s;
  if(k == 0) return mkConst(0, w);
  if(k == 1) return a;
  if(a->isConst()) return mkConst(a->val * k, w);
  if(isPow2(k, s)) return mkShl(a, mkConst(s, w));
  return raw(K_MUL, w, a, mkConst(k, w));
}
E mkAdd(E a, E b) {
  if(a->w == 1) return mkXor(a, b);
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(a->val + b->val, w);
  if(a->isConst()) std::swap(a, b);
  if(b->isConst() && b->val == 0) return a;
  if(w == 1) return mkXor(a, b);
  DIST(mkAdd);
  // disjoint bits
  if((~a->kz & ~b->kz & maskw(w)) == 0) return mkOr(a, b);
  Lin L;
  if(linAdd(L, a, 1, w, 4) && linAdd(L, b, 1, w, 4)) return linBuild(L, w);
  if(a->id > b->id && !b->isConst()) std::swap(a, b);
  return raw(K_ADD, w, a, b);
}
E mkSub(E a, E b) {
  unsigned w = a->w;
  if(a == b) return mkConst(0, w);
  if(b->isConst()) return mkAdd(a, mkConst(0 - b->val, w));
  if(a->isConst() && b->k == K_ITE && b->cleaf) return distIte(mkSub, b, a, false);
  if(w == 1) return mkXor(a, b);
  Lin L;
  if(linAdd(L, a, 1, w, 4) && linAdd(L, b, maskw(w), w, 4)) return linBuild(L, w);
  return raw(K_ADD, w, a, raw(K_MUL, w, b, mkConst(maskw(w), w)));
}
E mkMul(E a, E b) {
  if(a->w == 1) return mkAnd(a, b);
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(a->val * b->val, w);
  if(a->isConst()) std::swap(a, b);
  if(w == 1) return mkAnd(a, b);
  if(b->isConst()) { DIST(mkMul); Lin L; unsigned s;
    if(isPow2(b->val, s)) return mkShl(a, mkConst(s, w));
    if(linAdd(L, a, b->val, w, 3)) return linBuild(L, w); return mulConst(a, b->val); }
  if(a->id > b->id) std::swap(a, b);
  return raw(K_MUL, w, a, b);
}
static unsigned bitsFor(u128 v) { unsigned n = 0; while(v) { n++; v >>= 1; } return n ? n : 1; }
// split e = c*q + r syntactically with r in [0,c), no overflow; returns true on success
static bool splitMul(E e, u128 c, E &q, E &r) {
  unsigned w = e->w;
  Lin L; if(!linAdd(L, e, 1, w, 3)) return false;
  // all coefficients must be "small positive" and no wrap
  u128 tot = L.c;
  for(auto &p : L.t) { if(!p.second) continue; if(p.first->umax > ~(u64)0 || p.second > ~(u64)0) return false; u128 x = p.first->umax * p.second; tot += x; if(tot > maskw(w) || x > maskw(w)) return false; }
  Lin Q, R; u128 rmax = L.c % c; Q.c = L.c / c; R.c = L.c % c; bool any = false;
  for(auto &p : L.t) { if(!p.second) continue; if(p.second % c == 0) { Q.t.push_back({p.first, p.second / c}); any = true; } else { R.t.push_back(p); rmax += p.first->umax * p.second; } }
  if(!any && R.t.size()) return false;
  if(rmax >= c) return false;
  q = linBuild(Q, w); r = linBuild(R, w); return true;
}
E mkUDiv(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(foldBin(K_UDIV, w, a->val, b->val), w);
  if(b->isConst() && b->val) {
    unsigned s; if(b->val == 1) return a;
    if(isPow2(b->val, s)) return mkLShr(a, mkConst(s, w));
    if(a->umax < b->val) return mkConst(0, w);
    DIST(mkUDiv);
    E q, r; if(splitMul(a, b->val, q, r)) return q;
    unsigned n = std::max(bitsFor(a->umax), bitsFor(b->val));
    if(n < w) return mkZExt(raw(K_UDIV, n, mkExtract(a, 0, n), mkConst(b->val, n)), w);
  }
  return raw(K_UDIV, w, a, b);
}
E mkURem(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(foldBin(K_UREM, w, a->val, b->val), w);
  if(b->isConst() && b->val) {
    unsigned s; if(b->val == 1) return mkConst(0, w);
    if(isPow2(b->val, s)) return mkAnd(a, mkConst(b->val - 1, w));
    if(a->umax < b->val) return a;
    DIST(mkURem);
    E q, r; if(splitMul(a, b->val, q, r)) return r;
    unsigned n = std::max(bitsFor(a->umax), bitsFor(b->val));
    if(n < w) return mkZExt(raw(K_UREM, n, mkExtract(a, 0, n), mkConst(b->val, n)), w);
  }
  return raw(K_UREM, w, a, b);
}
E mkSDiv(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(foldBin(K_SDIV, w, a->val, b->val), w);
  u128 sb = (u128)1 << (w - 1);
  if((a->kz & sb) && (b->kz & sb) && b->umin > 0) return mkUDiv(a, b);
  return raw(K_SDIV, w, a, b);
}
E mkSRem(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(foldBin(K_SREM, w, a->val, b->val), w);
  u128 sb = (u128)1 << (w - 1);
  if((a->kz & sb) && (b->kz & sb) && b->umin > 0) return mkURem(a, b);
  return raw(K_SREM, w, a, b);
}
E mkAnd(E a, E b) {
  unsigned w = a->w; u128 m = maskw(w);
  if(a->isConst() && b->isConst()) return mkConst(a->val & b->val, w);
  if(a->isConst()) std::swap(a, b);
  if(a == b) return a;
  if(b->isConst()) {
    if(b->val == 0) return b;
    if(b->val == m) return a;
    // mask keeps every possibly-one bit
    if(((~a->kz & m) & ~b->val) == 0) return a;
    DIST(mkAnd);
    // contiguous run -> extract
    u128 v = b->val; unsigned lo = 0; while(!((v >> lo) & 1)) lo++;
    u128 x = v >> lo; unsigned len = 0; while(x & 1) { len++; x >>= 1; }
    if(x == 0) {
      E mid = mkExtract(a, lo, len);
      E r = lo ? mkConcat(mid, mkConst(0, lo)) : mid;
      return mkZExt(r, w);
    }
    if(a->k == K_AND && a->b->isConst()) return mkAnd(a->a, mkConst(a->b->val & v, w));
    // clears a run: x & ~(run) on concat-able pieces
    u128 nv = ~v & m; unsigned l2 = 0; while(!((nv >> l2) & 1)) l2++;
    u128 y = nv >> l2; unsigned n2 = 0; while(y & 1) { n2++; y >>= 1; }
    if(y == 0 && l2 + n2 < w && l2 > 0) {
      return mkConcat(mkExtract(a, l2 + n2, w - l2 - n2), mkConcat(mkConst(0, n2), mkExtract(a, 0, l2)));
    }
  }
  if(w == 1) {
    if(a->k == K_XOR && a->b->isConst() && a->a == b) return mkConst(0, 1);
    if(b->k == K_XOR && b->b->isConst() && b->a == a) return mkConst(0, 1);
    if(a->k == K_AND && (a->a == b || a->b == b)) return a;
    if(b->k == K_AND && (b->a == a || b->b == a)) return b;
  }
  if(((~a->kz) & (~b->kz) & m) == 0) return mkConst(0, w);
  if(!b->isConst() && a->id > b->id) std::swap(a, b);
  return raw(K_AND, w, a, b);
}
// pieces for disjoint Or -> concat
static E orDisjoint(E a, E b) {
  unsigned w = a->w; u128 m = maskw(w);
  u128 pa = ~a->kz & m, pb = ~b->kz & m;
  // find split: all of one's possible bits above the other's
  if(pa == 0) return b; if(pb == 0) return a;
  unsigned ha = bitsFor(pa), hb = bitsFor(pb);
  unsigned la = 0; while(!((pa >> la) & 1)) la++;
  unsigned lb = 0; while(!((pb >> lb) & 1)) lb++;
  if(la >= hb) return mkConcat(mkExtract(a, hb, w - hb), mkExtract(b, 0, hb));
  if(lb >= ha) return mkConcat(mkExtract(b, ha, w - ha), mkExtract(a, 0, ha));
  return nullptr;
}
E mkOr(E a, E b) {
  unsigned w = a->w; u128 m = maskw(w);
  if(a->isConst() && b->isConst()) return mkConst(a->val | b->val, w);
  if(a->isConst()) std::swap(a, b);
  if(a == b) return a;
  if(b->isConst()) {
    if(b->val == 0) return a;
    if(b->val == m) return b;
    if((b->val & ~a->ko) == 0) return a;
    DIST(mkOr);
    if(a->k == K_OR && a->b->isConst()) return mkOr(a->a, mkConst(a->b->val | b->val, w));
    if(w > 1) { // set a contiguous run
      u128 v = b->val; unsigned lo = 0; while(!((v >> lo) & 1)) lo++;
      u128 x = v >> lo; unsigned len = 0; while(x & 1) { len++; x >>= 1; }
      if(x == 0) {
        E r = mkConst(maskw(len), len);
        if(lo) r = mkConcat(r, mkExtract(a, 0, lo));
        if(lo + len < w) r = mkConcat(mkExtract(a, lo + len, w - lo - len), r);
        return r;
      }
    }
  }
  if(w == 1) {
    if(a->k == K_XOR && a->b->isConst() && a->a == b) return mkConst(1, 1);
    if(b->k == K_XOR && b->b->isConst() && b->a == a) return mkConst(1, 1);
    if(a->k == K_OR && (a->a == b || a->b == b)) return a;
    if(b->k == K_OR && (b->a == a || b->b == a)) return b;
  } else if((~a->kz & ~b->kz & m) == 0) { E r = orDisjoint(a, b); if(r) return r; }
  if(!b->isConst() && a->id > b->id) std::swap(a, b);
  return raw(K_OR, w, a, b);
}
static bool xorCollect(E e, std::vector<E> &v, u128 &c, int d) {
  if(e->isConst()) { c ^= e->val; return true; }
  if(e->k == K_XOR && d > 0) return xorCollect(e->a, v, c, d - 1) && xorCollect(e->b, v, c, d - 1);
  for(size_t i = 0; i < v.size(); i++) if(v[i] == e) { v.erase(v.begin() + i); return true; }
  if(v.size() >= 8) return false;
  v.push_back(e); return true;
}
E mkXor(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(a->val ^ b->val, w);
  if(a->isConst()) std::swap(a, b);
  if(a == b) return mkConst(0, w);
  if(b->isConst() && b->val == 0) return a;
  DIST(mkXor);
  if(w == 1 && b->isConst()) {
    // not(...)
    if(a->k == K_XOR && a->b->isConst()) return a->a;
    if(a->k == K_ULT) return mkUle(a->b, a->a);
    if(a->k == K_ULE) return mkUlt(a->b, a->a);
    if(a->k == K_SLT) return mkSle(a->b, a->a);
    if(a->k == K_SLE) return mkSlt(a->b, a->a);
  }
  std::vector<E> v; u128 c = 0;
  if(xorCollect(a, v, c, 6) && xorCollect(b, v, c, 6)) {
    c &= maskw(w);
    if(v.empty()) return mkConst(c, w);
    std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; });
    E r = v[0];
    for(size_t i = 1; i < v.size(); i++) r = raw(K_XOR, w, r, v[i]);
    if(c) r = r->isConst() ? mkConst(r->val ^ c, w) : raw(K_XOR, w, r, mkConst(c, w));
    return r;
  }
  if(!b->isConst() && a->id > b->id) std::swap(a, b);
  return raw(K_XOR, w, a, b);
}
E mkNot(E a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }
E mkShl(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(foldBin(K_SHL, w, a->val, b->val), w);
  if(b->isConst()) { if(b->val == 0) return a; if(b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; DIST(mkShl); return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
  if(a->isConst()) { if(a->val == 0) return a; if(b->k == K_ITE && b->cleaf) return distIte(mkShl, b, a, false); }
  return raw(K_SHL, w, a, b);
}
E mkLShr(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(foldBin(K_LSHR, w, a->val, b->val), w);
  if(b->isConst()) { if(b->val == 0) return a; if(b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; DIST(mkLShr); return mkZExt(mkExtract(a, s, w - s), w); }
  if(a->isConst()) { if(a->val == 0) return a; if(b->k == K_ITE && b->cleaf) return distIte(mkLShr, b, a, false); }
  return raw(K_LSHR, w, a, b);
}
E mkAShr(E a, E b) {
  unsigned w = a->w;
  if(a->isConst() && b->isConst()) return mkConst(foldBin(K_ASHR, w, a->val, b->val), w);
  if(a->kz & ((u128)1 << (w - 1))) return mkLShr(a, b);
  if(b->isConst()) { if(b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; DIST(mkAShr); return mkSExt(mkExtract(a, s, w - s), w); }
  return raw(K_ASHR, w, a, b);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if(w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if(hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if(hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if(hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  // canonical form: right-nested. concat(concat(x,y),z) -> concat(x,concat(y,z))
  if(hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  // merge adjacent extracts
  if(hi->k == K_EXTRACT) {
    if(lo->k == K_EXTRACT && lo->a == hi->a && lo->lo + lo->w == hi->lo) return mkExtract(hi->a, lo->lo, w);
    if(lo->k == K_CONCAT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && lo->a->lo + lo->a->w == hi->lo)
      return mkConcat(mkExtract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
  }
  if(lo->k == K_ZEXT) return raw(K_CONCAT, w, hi, lo);
  if(hi->isConst() && lo->k == K_CONCAT && lo->a->isConst()) return mkConcat(mkConst((hi->val << lo->a->w) | lo->a->val, hi->w + lo->a->w), lo->b);
  // ite with the same condition
  if(hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return raw(K_CONCAT, w, hi, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if(lo == 0 && w == a->w) return a;
  if(lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
  if(a->isConst()) return mkConst(a->val >> lo, w);
  if(((a->kz >> lo) & maskw(w)) == maskw(w)) return mkConst(0, w);
  switch(a->k) {
  case K_EXTRACT: return mkExtract(a->a, a->lo + lo, w);
  case K_CONCAT: {
    unsigned lw = a->b->w;
    if(lo >= lw) return mkExtract(a->a, lo - lw, w);
    if(lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  case K_ZEXT: {
    unsigned iw = a->a->w;
    if(lo >= iw) return mkConst(0, w);
    if(lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
  case K_SEXT: {
    unsigned iw = a->a->w;
    if(lo + w <= iw) return mkExtract(a->a, lo, w);
    if(lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
    return mkSExt(mkExtract(a->a, iw - 1, 1), w); }
  case K_ITE:
    if(a->b->k == K_CONST || a->c->k == K_CONST || a->b->k == K_CONCAT || a->c->k == K_CONCAT || a->b->k == K_ZEXT || a->c->k == K_ZEXT)
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case K_AND: if(a->b->isConst() || w <= 8) return mkAnd(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
  case K_OR: if(a->b->isConst() || w <= 8) return mkOr(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
  case K_XOR: if(a->b->isConst() || w <= 8) return mkXor(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
  case K_ADD: if(lo == 0) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case K_MUL: if(lo == 0) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  default: break;
  }
  return raw(K_EXTRACT, w, a, nullptr, nullptr, lo);
}
E mkZExt(E a, unsigned w) {
  if(w == a->w) return a;
  if(w < a->w) { fprintf(stderr, "bad zext\n"); abort(); }
  if(a->isConst()) return mkConst(a->val, w);
  if(a->k == K_ZEXT) return mkZExt(a->a, w);
  if(a->k == K_ITE && a->cleaf) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return raw(K_ZEXT, w, a);
}
E mkSExt(E a, unsigned w) {
  if(w == a->w) return a;
  if(a->isConst()) return mkConst((u128)sextw(a->val, a->w), w);
  if(a->kz & ((u128)1 << (a->w - 1))) return mkZExt(a, w);
  if(a->k == K_SEXT) return mkSExt(a->a, w);
  if(a->k == K_ITE && a->cleaf) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return raw(K_SEXT, w, a);
}
E mkTruncOrZ(E a, unsigned w) { return w <= a->w ? mkExtract(a, 0, w) : mkZExt(a, w); }
E mkEq(E a, E b) {
  if(a == b) return mkBool(true);
  if(a->w != b->w) { fprintf(stderr, "eq width mismatch\n"); abort(); }
  unsigned w = a->w; u128 m = maskw(w);
  if(a->isConst() && b->isConst()) return mkBool(a->val == b->val);
  if(a->isConst()) std::swap(a, b);
  if(a->umax < b->umin || b->umax < a->umin) return mkBool(false);
  if(((a->ko & b->kz) | (a->kz & b->ko)) & m) return mkBool(false);
  if(w == 1) { if(b->isConst()) return b->val ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if(b->isConst()) {
    u128 v = b->val;
    switch(a->k) {
    case K_ZEXT: return mkEq(a->a, mkConst(v, a->a->w));
    case K_SEXT: { u128 t = v & maskw(a->a->w); if(((u128)sextw(t, a->a->w) & m) != v) return mkBool(false); return mkEq(a->a, mkConst(t, a->a->w)); }
    case K_XOR: if(a->b->isConst()) return mkEq(a->a, mkConst(v ^ a->b->val, w)); if(v == 0) return mkEq(a->a, a->b); break;
    case K_ADD: if(a->b->isConst()) return mkEq(a->a, mkConst(v - a->b->val, w));
      if(v == 0 && a->b->k == K_MUL && a->b->b->isConst() && a->b->b->val == m) return mkEq(a->a, a->b->a);
      break;
    case K_MUL: if(a->b->isConst() && a->b->val && a->a->umax <= ~(u64)0 && a->a->umax * a->b->val <= m) { if(v % a->b->val) return mkBool(false); return mkEq(a->a, mkConst(v / a->b->val, w)); } break;
    case K_ITE:
      if(a->cleaf || a->b->isConst() || a->c->isConst()) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
      break;
    case K_CONCAT: {
      unsigned lw = a->b->w;
      return mkAnd(mkEq(a->a, mkConst(v >> lw, a->a->w)), mkEq(a->b, mkConst(v, lw))); }
    default: break;
    }
  } else {
    if(a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if(a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if(a->k == K_XOR || b->k == K_XOR) {
      // cancel common xor operands
      std::vector<E> v; u128 c = 0;
      if(xorCollect(a, v, c, 6)) { size_t n0 = v.size(); std::vector<E> v2; u128 c2 = 0; xorCollect(b, v2, c2, 6); size_t n1 = v2.size();
        std::vector<E> vv; u128 cc = 0;
        if(xorCollect(a, vv, cc, 6) && xorCollect(b, vv, cc, 6) && vv.size() < n0 + n1) {
          if(vv.empty()) return mkBool((cc & m) == 0);
          E r = nullptr; for(E x : vv) r = r ? mkXor(r, x) : x; return mkEq(r, mkConst(cc, w)); } }
    }
    if(a->k == K_ADD || b->k == K_ADD) {
      E d = mkSub(a, b);
      if(d->isConst()) return mkBool(d->val == 0);
      if(d->k != K_ADD || (d->b->isConst() && d->a->k != K_ADD)) { // simpler difference, avoid infinite recursion
        if(d->k == K_ADD && d->b->isConst()) return mkEq(d->a, mkConst(0 - d->b->val, w));
        return mkEq(d, mkConst(0, w));
      }
    }
    if(a->k == K_ITE && (a->b == b || a->c == b)) { return a->b == b ? mkOr(a->a, mkEq(a->c, b)) : mkOr(mkNot(a->a), mkEq(a->b, b)); }
    if(b->k == K_ITE && (b->b == a || b->c == a)) { return b->b == a ? mkOr(b->a, mkEq(b->c, a)) : mkOr(mkNot(b->a), mkEq(b->b, a)); }
    if(a->id > b->id) std::swap(a, b);
  }
  return raw(K_EQ, 1, a, b);
}
static E cmpNarrow(E (*f)(E, E), E a, E b, bool &done) {
  done = true;
  unsigned w = a->w;
  if(a->k == K_ZEXT && b->k == K_ZEXT) { unsigned n = std::max(a->a->w, b->a->w); if(n < w) return f(mkZExt(a->a, n), mkZExt(b->a, n)); }
  if(a->k == K_ZEXT && b->isConst() && b->val <= maskw(a->a->w)) return f(a->a, mkConst(b->val, a->a->w));
  if(b->k == K_ZEXT && a->isConst() && a->val <= maskw(b->a->w)) return f(mkConst(a->val, b->a->w), b->a);
  // strip a common constant offset when no wrap is possible
  if(a->k == K_ADD && a->b->isConst() && b->isConst()) {
    u128 c = a->b->val, s = a->a->umax + c;
    if(s <= maskw(w) && s >= c && b->val >= c) return f(a->a, mkConst(b->val - c, w));
  }
  if(b->k == K_ADD && b->b->isConst() && a->isConst()) {
    u128 c = b->b->val, s = b->a->umax + c;
    if(s <= maskw(w) && s >= c && a->val >= c) return f(mkConst(a->val - c, w), b->a);
  }
  if(a->k == K_ADD && b->k == K_ADD && a->b->isConst() && b->b == a->b) {
    u128 c = a->b->val, s = a->a->umax + c, t = b->a->umax + c;
    if(s <= maskw(w) && s >= c && t <= maskw(w) && t >= c) return f(a->a, b->a);
  }
  done = false; return nullptr;
}
E mkUlt(E a, E b) {
  if(a->w == 1) return mkAnd(mkNot(a), b);
  if(a == b) return mkBool(false);
  if(a->isConst() && b->isConst()) return mkBool(a->val < b->val);
  if(a->umax < b->umin) return mkBool(true);
  if(a->umin >= b->umax) return mkBool(false);
  if(a->w == 1) return mkAnd(mkNot(a), b);
  if(b->isConst() && b->val == 1) return mkEq(a, mkConst(0, a->w));
  if(a->isConst() && a->val == 0) return mkNot(mkEq(b, mkConst(0, b->w)));
  DIST(mkUlt);
  bool d; E r = cmpNarrow(mkUlt, a, b, d); if(d) return r;
  return raw(K_ULT, 1, a, b);
}
E mkUle(E a, E b) {
  if(a->w == 1) return mkOr(mkNot(a), b);
  if(a == b) return mkBool(true);
  if(a->isConst() && b->isConst()) return mkBool(a->val <= b->val);
  if(a->umax <= b->umin) return mkBool(true);
  if(a->umin > b->umax) return mkBool(false);
  if(a->w == 1) return mkOr(mkNot(a), b);
  if(b->isConst() && b->val == 0) return mkEq(a, b);
  DIST(mkUle);
  bool d; E r = cmpNarrow(mkUle, a, b, d); if(d) return r;
  return raw(K_ULE, 1, a, b);
}
static bool signFixed(E a, bool &neg) { u128 sb = (u128)1 << (a->w - 1); if(a->kz & sb) { neg = false; return true; } if(a->ko & sb) { neg = true; return true; } return false; }
E mkSlt(E a, E b) {
  if(a->w == 1) return mkAnd(a, mkNot(b));
  if(a == b) return mkBool(false);
  if(a->isConst() && b->isConst()) return mkBool(sextw(a->val, a->w) < sextw(b->val, b->w));
  if(a->w == 1) return mkAnd(a, mkNot(b));
  bool na, nb; bool fa = signFixed(a, na), fb = signFixed(b, nb);
  if(fa && fb) { if(na == nb) return mkUlt(a, b); return mkBool(na); }
  if(b->isConst() && b->val == 0) return mkExtract(a, a->w - 1, 1);
  DIST(mkSlt);
  return raw(K_SLT, 1, a, b);
}
E mkSle(E a, E b) {
  if(a->w == 1) return mkOr(a, mkNot(b));
  if(a == b) return mkBool(true);
  if(a->isConst() && b->isConst()) return mkBool(sextw(a->val, a->w) <= sextw(b->val, b->w));
  if(a->w == 1) return mkOr(a, mkNot(b));
  bool na, nb; bool fa = signFixed(a, na), fb = signFixed(b, nb);
  if(fa && fb) { if(na == nb) return mkUle(a, b); return mkBool(na); }
  if(a->isConst() && a->val == 0) return mkNot(mkExtract(b, b->w - 1, 1));
  DIST(mkSle);
  return raw(K_SLE, 1, a, b);
}
E mkIte(E c, E a, E b) {
  if(c->isConst()) return c->val ? a : b;
  if(a == b) return a;
  if(c->k == K_XOR && c->b->isConst()) return mkIte(c->a, b, a); // not
  unsigned w = a->w;
  if(w == 1) {
    if(a->isConst()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if(b->isConst()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if(a == c) return mkOr(c, b);
    if(b == c) return mkAnd(c, a);
  }
  if(a->k == K_ITE && a->a == c) a = a->b;
  if(b->k == K_ITE && b->a == c) b = b->c;
  if(a == b) return a;
  if(b->k == K_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if(a->k == K_ITE && a->b == b) return mkIte(mkAnd(c, mkNot(a->a)), a->c, b);
  if(a->k == K_ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
  return raw(K_ITE, w, c, a, b);
}

// ---------------------------------------------------------------- evaluation
static u32 gEpoch = 1;
void evalBegin() { gEpoch++; }
u128 evalCached(E e, const ModelMap &m) {
  if(e->k == K_CONST) return e->val;
  if(e->epoch == gEpoch) return e->ev;
  // iterative to avoid deep recursion
  std::vector<E> st; st.push_back(e);
  while(!st.empty()) {
    E x = st.back();
    if(x->k == K_CONST || x->epoch == gEpoch) { st.pop_back(); continue; }
    auto ready = [&](E y) { return !y || y->k == K_CONST || y->epoch == gEpoch; };
    auto V = [&](E y) -> u128 { return y->k == K_CONST ? y->val : y->ev; };
    if(x->k == K_ITE) {
      if(!ready(x->a)) { st.push_back(x->a); continue; }
      E t = V(x->a) ? x->b : x->c;
      if(!ready(t)) { st.push_back(t); continue; }
      x->ev = V(t); x->epoch = gEpoch; st.pop_back(); continue;
    }
    if(x->k != K_VAR) {
      bool ok = true;
      if(!ready(x->a)) { st.push_back(x->a); ok = false; }
      if(x->b && !ready(x->b)) { st.push_back(x->b); ok = false; }
      if(!ok) continue;
    }
    u128 r = 0;
    switch(x->k) {
    case K_VAR: { auto it = m.find((u32)x->val); r = it == m.end() ? 0 : it->second; break; }
    case K_CONCAT: r = (V(x->a) << x->b->w) | V(x->b); break;
    case K_EXTRACT: r = (V(x->a) >> x->lo) & maskw(x->w); break;
    case K_ZEXT: r = V(x->a); break;
    case K_SEXT: r = (u128)sextw(V(x->a), x->a->w) & maskw(x->w); break;
    default: r = foldBin(x->k, x->a->w, V(x->a), V(x->b)); break;
    }
    x->ev = r; x->epoch = gEpoch; st.pop_back();
  }
  return e->ev;
}
u128 evalExpr(E e, const ModelMap &m) { if(e->k == K_CONST) return e->val; evalBegin(); return evalCached(e, m); }

static std::string u128s(u128 v) { char b[48]; if(v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
std::string showExpr(E e, int d) {
  static const char *nm[] = {"c", "v", "+", "*", "/", "s/", "%", "s%", "&", "|", "^", "<<", ">>", "a>>", "++", "ex", "zx", "sx", "==", "<", "<=", "s<", "s<=", "ite"};
  if(e->k == K_CONST) return u128s(e->val);
  if(e->k == K_VAR) return varNames[(u32)e->val];
  if(d == 0) return "...";
  std::string s = "("; s += nm[e->k];
  if(e->k == K_EXTRACT) s += "[" + std::to_string(e->lo + e->w - 1) + ":" + std::to_string(e->lo) + "]";
  if(e->k == K_ZEXT || e->k == K_SEXT) s += std::to_string(e->w);
  s += " " + showExpr(e->a, d - 1); if(e->b) s += " " + showExpr(e->b, d - 1); if(e->c) s += " " + showExpr(e->c, d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- Z3
SolverStats gSolver; unsigned gQueryTimeoutMs = 60000;
static Z3_context zctx; static Z3_solver zs; static std::unordered_map<E, Z3_ast> lits; static u64 sinceReset = 0;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void zinit() {
  if(zctx) return;
  Z3_config cfg = Z3_mk_config();
  zctx = Z3_mk_context(cfg);
  Z3_set_error_handler(zctx, zerr);
}
static void zreset() {
  if(zs) Z3_solver_dec_ref(zctx, zs);
  zs = Z3_mk_solver_for_logic(zctx, Z3_mk_string_symbol(zctx, "QF_FD"));
  Z3_solver_inc_ref(zctx, zs);
  Z3_params p = Z3_mk_params(zctx); Z3_params_inc_ref(zctx, p);
  Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "timeout"), gQueryTimeoutMs);
  Z3_solver_set_params(zctx, zs, p); Z3_params_dec_ref(zctx, p);
  lits.clear(); sinceReset = 0; gSolver.resets++;
}
static Z3_ast b2bv(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(zctx, 1); return Z3_mk_ite(zctx, b, Z3_mk_unsigned_int(zctx, 1, s), Z3_mk_unsigned_int(zctx, 0, s)); }
// width-1 expressions are translated to Z3 Bool; others to BV
static Z3_ast asBV(E e, Z3_ast t) { return e->w == 1 ? b2bv(t) : t; }
static Z3_ast tr(E root) {
  if(root->ast) return (Z3_ast)root->ast;
  std::vector<E> st; st.push_back(root);
  while(!st.empty()) {
    E e = st.back();
    if(e->ast) { st.pop_back(); continue; }
    bool ok = true;
    for(E ch : {e->a, e->b, e->c}) if(ch && !ch->ast) { st.push_back(ch); ok = false; }
    if(!ok) continue;
    Z3_ast A = e->a ? (Z3_ast)e->a->ast : nullptr, B = e->b ? (Z3_ast)e->b->ast : nullptr, C = e->c ? (Z3_ast)e->c->ast : nullptr, r = nullptr;
    bool bit = e->w == 1 && (e->k == K_UDIV || e->k == K_SDIV || e->k == K_UREM || e->k == K_SREM || e->k == K_SHL || e->k == K_LSHR || e->k == K_ASHR);
    if(bit) { A = b2bv(A); B = b2bv(B); }
    switch(e->k) {
    case K_CONST:
      if(e->w == 1) r = e->val ? Z3_mk_true(zctx) : Z3_mk_false(zctx);
      else if(e->w <= 64) r = Z3_mk_unsigned_int64(zctx, (u64)e->val, Z3_mk_bv_sort(zctx, e->w));
      else r = Z3_mk_concat(zctx, Z3_mk_unsigned_int64(zctx, (u64)(e->val >> 64), Z3_mk_bv_sort(zctx, e->w - 64)), Z3_mk_unsigned_int64(zctx, (u64)e->val, Z3_mk_bv_sort(zctx, 64)));
      break;
    case K_VAR: { std::string n = "v" + std::to_string((u32)e->val); r = Z3_mk_const(zctx, Z3_mk_string_symbol(zctx, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(zctx) : Z3_mk_bv_sort(zctx, e->w)); break; }
    case K_ADD: r = Z3_mk_bvadd(zctx, A, B); break;
    case K_MUL: if(e->b->isConst() && e->b->val == maskw(e->w)) r = Z3_mk_bvneg(zctx, A); else r = Z3_mk_bvmul(zctx, A, B); break;
    case K_UDIV: r = Z3_mk_bvudiv(zctx, A, B); break;
    case K_SDIV: r = Z3_mk_bvsdiv(zctx, A, B); break;
    case K_UREM: r = Z3_mk_bvurem(zctx, A, B); break;
    case K_SREM: r = Z3_mk_bvsrem(zctx, A, B); break;
    case K_AND: if(e->w == 1) { Z3_ast x[2] = {A, B}; r = Z3_mk_and(zctx, 2, x); } else r = Z3_mk_bvand(zctx, A, B); break;
    case K_OR: if(e->w == 1) { Z3_ast x[2] = {A, B}; r = Z3_mk_or(zctx, 2, x); } else r = Z3_mk_bvor(zctx, A, B); break;
    case K_XOR: if(e->w == 1) { if(e->b->isConst()) r = Z3_mk_not(zctx, A); else r = Z3_mk_xor(zctx, A, B); } else if(e->b->isConst() && e->b->val == maskw(e->w)) r = Z3_mk_bvnot(zctx, A); else r = Z3_mk_bvxor(zctx, A, B); break;
    case K_SHL: r = Z3_mk_bvshl(zctx, A, B); break;
    case K_LSHR: r = Z3_mk_bvlshr(zctx, A, B); break;
    case K_ASHR: r = Z3_mk_bvashr(zctx, A, B); break;
    case K_CONCAT: r = Z3_mk_concat(zctx, asBV(e->a, A), asBV(e->b, B)); break;
    case K_EXTRACT: r = Z3_mk_extract(zctx, e->lo + e->w - 1, e->lo, A); if(e->w == 1) r = Z3_mk_eq(zctx, r, Z3_mk_unsigned_int(zctx, 1, Z3_mk_bv_sort(zctx, 1))); break;
    case K_ZEXT: r = Z3_mk_zero_ext(zctx, e->w - e->a->w, asBV(e->a, A)); break;
    case K_SEXT: r = Z3_mk_sign_ext(zctx, e->w - e->a->w, asBV(e->a, A)); break;
    case K_EQ: r = Z3_mk_eq(zctx, A, B); break;
    case K_ULT: r = Z3_mk_bvult(zctx, A, B); break;
    case K_ULE: r = Z3_mk_bvule(zctx, A, B); break;
    case K_SLT: r = Z3_mk_bvslt(zctx, A, B); break;
    case K_SLE: r = Z3_mk_bvsle(zctx, A, B); break;
    case K_ITE: r = Z3_mk_ite(zctx, A, B, C); break;
    }
    if(bit) r = Z3_mk_eq(zctx, r, Z3_mk_unsigned_int(zctx, 1, Z3_mk_bv_sort(zctx, 1)));
    e->ast = r; st.pop_back();
  }
  return (Z3_ast)root->ast;
}
Res solverCheck(const std::vector<E> &cs, ModelMap *out) {
  zinit();
  if(!zs || sinceReset > 4000) zreset();
  std::vector<Z3_ast> as;
  for(E e : cs) {
    if(e->isConst()) { if(!e->val) return R_UNSAT; continue; }
    auto it = lits.find(e);
    if(it == lits.end()) {
      std::string n = "l" + std::to_string(e->id);
      Z3_ast l = Z3_mk_const(zctx, Z3_mk_string_symbol(zctx, n.c_str()), Z3_mk_bool_sort(zctx));
      Z3_solver_assert(zctx, zs, Z3_mk_implies(zctx, l, tr(e)));
      it = lits.emplace(e, l).first;
    }
    as.push_back(it->second);
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check_assumptions(zctx, zs, as.size(), as.data());
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolver.secs += dt; gSolver.queries++; sinceReset++;
  if(r == Z3_L_UNDEF) { gSolver.unknown++; zreset(); return R_UNKNOWN; }
  if(r == Z3_L_FALSE) { gSolver.unsat++; return R_UNSAT; }
  gSolver.sat++;
  if(out) {
    Z3_model m = Z3_solver_get_model(zctx, zs); Z3_model_inc_ref(zctx, m);
    std::unordered_set<u32> seen;
    for(E e : cs) for(u32 v : *e->vars) if(seen.insert(v).second) {
      E x = varList[v]; Z3_ast val = nullptr;
      u128 res = 0;
      if(x->ast && Z3_model_eval(zctx, m, (Z3_ast)x->ast, true, &val) && val) {
        if(x->w == 1) res = Z3_get_bool_value(zctx, val) == Z3_L_TRUE;
        else if(x->w <= 64) { uint64_t q = 0; if(Z3_get_numeral_uint64(zctx, val, &q)) res = q; }
        else { const char *s = Z3_get_numeral_string(zctx, val); for(; *s; s++) res = res * 10 + (*s - '0'); }
      }
      (*out)[v] = res;
    }
    Z3_model_dec_ref(zctx, m);
  }
  return R_SAT;
}
