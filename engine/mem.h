// Symbolic memory: regions of copy-on-write pages holding concrete bytes with optional symbolic overlay,
// plus an ordered log of writes whose address or length is symbolic.
#pragma once
#include "expr.h"
#include <map>
#include <cstring>
#include <cstdio>
#include <cstdlib>
struct V { u64 c = 0; E e = nullptr; V() {} V(u64 x) : c(x) {} V(u64 x, E y) : c(x), e(y) {} };
static inline E toE(const V &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V fromE(E e) { if(e->isConst() && e->w <= 64) return V((u64)e->val); return V(0, e); }

template<class T> struct Ref { T *p = nullptr;
  Ref() {} Ref(T *q) : p(q) { if(p) p->rc++; } Ref(const Ref &o) : p(o.p) { if(p) p->rc++; } Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
  ~Ref() { drop(); } void drop() { if(p && --p->rc == 0) delete p; p = nullptr; }
  Ref &operator=(const Ref &o) { if(o.p) o.p->rc++; drop(); p = o.p; return *this; }
  Ref &operator=(Ref &&o) { if(this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; } T *get() const { return p; } };

static const u64 PG = 4096;
struct Page { int rc = 0; E *sym = nullptr; u8 d[PG];
  Page() { memset(d, 0, PG); }
  Page(const Page &o) { memcpy(d, o.d, PG); if(o.sym) { sym = (E *)malloc(PG * sizeof(E)); memcpy(sym, o.sym, PG * sizeof(E)); } }
  ~Page() { free(sym); }
  void mkSym() { if(!sym) sym = (E *)calloc(PG, sizeof(E)); } };

struct Region;
enum { L_STORE, L_FILL, L_COPY };
struct LogNode { int rc = 0; int kind; V addr; unsigned size = 0; E val = nullptr; V len; V srcAddr; Ref<Region> src; u64 lo, hi; /* hull of affected addresses [lo,hi) */
  Ref<LogNode> next; u32 depth = 1;
  ~LogNode() { while(next && next->rc == 1) { Ref<LogNode> n = std::move(next->next); next = std::move(n); } } };

enum { P_NONE = 0, P_R = 1, P_W = 2, P_UNMAPPED = 255 };
struct Region { int rc = 0; u64 base = 0, size = 0; std::string name; std::vector<Ref<Page>> pages; std::vector<u8> prot; u8 uprot = 3; bool fork = false; Ref<LogNode> log;
  u8 protAt(u64 off) const { return prot.empty() ? uprot : prot[off / PG]; }
  void setProt(u64 off, u64 len, u8 p) { if(off == 0 && len >= size) { prot.clear(); uprot = p; return; } if(prot.empty()) prot.assign((size + PG - 1) / PG, uprot); for(u64 i = off / PG; i < (off + len + PG - 1) / PG && i < prot.size(); i++) prot[i] = p; }
  // run of pages with the same prot around off -> [lo,hi) offsets
  void protRun(u64 off, u64 &lo, u64 &hi) const { if(prot.empty()) { lo = 0; hi = size; return; } u64 i = off / PG, j = i; bool ok = prot[i] == 3; 
    auto cls = [&](u8 x) { return x; }; (void)ok; while(i > 0 && cls(prot[i - 1]) == cls(prot[off / PG])) i--; while(j + 1 < prot.size() && cls(prot[j + 1]) == cls(prot[off / PG])) j++; lo = i * PG; hi = std::min(size, (j + 1) * PG); }
  Page *wpage(u64 i) { if(!pages[i]) pages[i] = Ref<Page>(new Page()); else if(pages[i]->rc > 1) pages[i] = Ref<Page>(new Page(*pages[i])); return pages[i].get(); }
};

struct Mem {
  struct Box { int rc = 0; std::map<u64, Ref<Region>> m; };
  Ref<Box> box; Region *last = nullptr; bool lastW = false;
  Mem() : box(new Box()) {}
  Mem(const Mem &o) : box(o.box) { const_cast<Mem &>(o).last = nullptr; const_cast<Mem &>(o).lastW = false; }
  Mem &operator=(const Mem &o) { box = o.box; last = nullptr; lastW = false; const_cast<Mem &>(o).last = nullptr; const_cast<Mem &>(o).lastW = false; return *this; }
  void own() { if(box->rc > 1) { Box *b = new Box(); b->m = box->m; box = Ref<Box>(b); last = nullptr; } }
  Region *find(u64 a) { if(last && a - last->base < last->size) return last; auto it = box->m.upper_bound(a); if(it == box->m.begin()) return nullptr; --it; Region *r = it->second.get(); if(a - r->base < r->size) { last = r; lastW = false; return r; } return nullptr; }
  Region *findW(u64 a) { if(last && lastW && a - last->base < last->size) return last; Region *r = find(a); if(!r) return nullptr; u64 base = r->base; own(); auto it = box->m.find(base); if(it->second->rc > 1) { Region *n = new Region(*it->second); n->rc = 0; it->second = Ref<Region>(n); } last = it->second.get(); lastW = true; return last; }
  Region *add(u64 base, u64 size, u8 prot, const std::string &nm) { own(); Region *r = new Region(); r->base = base; r->size = size; r->uprot = prot; r->name = nm; r->pages.resize((size + PG - 1) / PG); box->m[base] = Ref<Region>(r); return r; }
  void remove(u64 base) { own(); box->m.erase(base); last = nullptr; lastW = false; }
};
