// operator new and operator delete. P31
#include "hx.h"
#define LIMIT 4294967296ull
struct nothrow { char c; };
void *n0(size_t) __asm__("_Znwm"), *n1(size_t) __asm__("_Znam"), *n2(size_t, const struct nothrow *) __asm__("_ZnwmRKSt9nothrow_t"), *n3(size_t, const struct nothrow *) __asm__("_ZnamRKSt9nothrow_t"),
    *n4(size_t, size_t) __asm__("_ZnwmSt11align_val_t"), *n5(size_t, size_t) __asm__("_ZnamSt11align_val_t"), *n6(size_t, size_t, const struct nothrow *) __asm__("_ZnwmSt11align_val_tRKSt9nothrow_t"), *n7(size_t, size_t, const struct nothrow *) __asm__("_ZnamSt11align_val_tRKSt9nothrow_t");
void d0(void *) __asm__("_ZdlPv"), d1(void *) __asm__("_ZdaPv"), d2(void *, size_t) __asm__("_ZdlPvm"), d3(void *, size_t) __asm__("_ZdaPvm"), d4(void *, const struct nothrow *) __asm__("_ZdlPvRKSt9nothrow_t"), d5(void *, const struct nothrow *) __asm__("_ZdaPvRKSt9nothrow_t"),
    d6(void *, size_t) __asm__("_ZdlPvSt11align_val_t"), d7(void *, size_t) __asm__("_ZdaPvSt11align_val_t"), d8(void *, size_t, const struct nothrow *) __asm__("_ZdlPvSt11align_val_tRKSt9nothrow_t"), d9(void *, size_t, const struct nothrow *) __asm__("_ZdaPvSt11align_val_tRKSt9nothrow_t");
void iso_cpp(void);
// what the C++ runtime would provide
typedef void (*handler_t)(void);
static handler_t handler;
handler_t set_new_handler(handler_t h) __asm__("_ZSt15set_new_handlerPFvvE"); handler_t set_new_handler(handler_t h) { handler_t o = handler; handler = h; return o; }
handler_t get_new_handler(void) __asm__("_ZSt15get_new_handlerv"); handler_t get_new_handler(void) { return handler; }
void *vt_bad_alloc[8] __asm__("_ZTVSt9bad_alloc"); void bad_alloc_dtor(void *p) __asm__("_ZNSt9bad_allocD1Ev"); void bad_alloc_dtor(void *p) {} void bad_alloc_dtor2(void *p) __asm__("_ZNSt9bad_allocD2Ev"); void bad_alloc_dtor2(void *p) {}
void exc_dtor2(void *p) __asm__("_ZNSt9exceptionD2Ev"); void exc_dtor2(void *p) {}
static const struct nothrow nt;
static int form, calls; static bool may_throw; static uint64_t want;
void env_throw(void) {
    sx_reach("thrown");
    sx_assert(may_throw, "P31 a form of new that must not throw throws");
    sx_assert(want > LIMIT, "P31,P08 new throws although the request is within the limit");
    hx_no_locks("P31,P25 lock held while an exception is thrown");
    sx_stop();
}
static void *make(int f, size_t n, size_t a) {
    switch(f) { case 0: return n0(n); case 1: return n1(n); case 2: return n2(n, &nt); case 3: return n3(n, &nt); case 4: return n4(n, a); case 5: return n5(n, a); case 6: return n6(n, a, &nt); default: return n7(n, a, &nt); }
}
static void drop(int f, void *p, size_t n, size_t a) {
    switch(f) { case 0: d0(p); break; case 1: d1(p); break; case 2: d2(p, n); break; case 3: d3(p, n); break; case 4: d4(p, &nt); break; case 5: d5(p, &nt); break; case 6: d6(p, a); break; case 7: d7(p, a); break; case 8: d8(p, a, &nt); break; default: d9(p, a, &nt); break; }
}
static void once(void) { calls++; sx_assert(calls <= 3, "P31 the new handler is called without end"); if(calls == 2) set_new_handler(NULL); }
// sizes past the small range
//@job prop=P31,P02 entry=h_new_big cfg=cpp tier=quick timeout=120 reach=null,block,thrown bound="all 8 forms of operator new, any 64-bit size above 65536, three new handlers (the library's own, none, one that is removed after two calls)"
//@job prop=P31,P02 entry=h_new_big cfg=cpp_sanity,cpp_tagging,cpp_nothreads,cpp_release tier=thorough timeout=200 reach=null,block,thrown bound="as above in other builds"
void h_new_big(void) {
    hx_init(); iso_cpp();
    uint64_t *keep = iso_alloc(64); *keep = 5;
    switch(sx_choose("handler", 3)) { case 1: set_new_handler(NULL); break; case 2: set_new_handler(once); break; }
    form = sx_choose("form", 8); may_throw = form < 2 || form == 4 || form == 5;
    want = sx_u64("n"); sx_assume(want > SMALL_SIZE_MAX);
    env_record_only = 1; env_record_size = 0x100100000ull;
    void *p = make(form, want, 16);
    hx_no_locks("P31,P25 lock left held");
    if(p == NULL) { sx_reach("null"); sx_assert(!may_throw, "P31 a throwing form of new returns NULL"); sx_assert(want > LIMIT, "P31,P08 new fails although the request is within the limit"); }
    else { sx_reach("block"); sx_assert(want <= LIMIT && hx_usize(p) >= want, "P31,P02 new returns a block that is too small"); sx_assert(calls == 0, "P31 the new handler runs although the request succeeds"); }
    sx_assert(*keep == 5 && hx_live(keep, 64), "P31 another block changed");
}
// small sizes, and releasing by every form
//@job prop=P31 entry=h_new_delete cfg=cpp split=4 tier=quick timeout=200 reach=small,big,zero,done bound="8 forms of new, 10 forms of delete (sized ones with the requested size), every size 1..300 and 7 larger ones up to 200000, and 0; two other live blocks with contents"
//@job prop=P31 entry=h_new_delete cfg=cpp_sanitize,cpp_tagging,cpp_nothreads,cpp_release split=4 tier=thorough timeout=300 reach=small,big,zero,done bound="as above in other builds"
void h_new_delete(void) {
    hx_init(); iso_cpp(); want = 0;
    uint64_t *keep = iso_alloc(96), *keepb = iso_alloc(200000); *keep = 5; *keepb = 6;
    form = sx_choose("form", 8);
    static const uint64_t S[] = { 0, 1000, 4097, 8193, 65535, 65536, 65537, 200000 };
    int k = sx_choose("large", 1 + sizeof(S) / 8); uint64_t n;
#ifdef SPLIT
    if((form & 3) != SPLIT) sx_stop();
#endif
    if(k == 0) { n = sx_u64("n"); sx_assume(n >= 1 && n <= 300); } else n = S[k - 1];
    sx_fork_region((uint64_t) _root->zones);
    uint64_t *p = make(form, n, 16);
    sx_assert(p != NULL && ((uint64_t) p & 7) == 0, "P31 new fails or is misaligned");
    if(k == 1) sx_assert(HX_ISZERO(p), "P31,P18 zero size new"); else sx_assert(hx_live(p, n) && p != keep && p != keepb, "P31,P01 new does not return a live block of that size");
    sx_reach(k == 1 ? "zero" : n > SMALL_SIZE_MAX ? "big" : "small");
    uint64_t *q = make(form, n, 16); if(k != 1) { uint64_t us = hx_usize(p); sx_assert((uint64_t) q + us <= (uint64_t) p || (uint64_t) p + us <= (uint64_t) q, "P31,P01 two blocks overlap"); }
    if(k != 1) { if(n >= 8) *q = 77; ((uint8_t *) p)[n - 1] = 1; }
    int d = sx_choose("delete", 10); drop(d, p, n, 16);
    if(d != 2 && d != 3) iso_flush_caches();
    if(k != 1) { sx_assert(!hx_live(p, 1), "P31,P05 delete does not release the block"); sx_assert(hx_live(q, n), "P31,P05 delete releases another block"); if(n >= 8) sx_assert(*q == 77, "P31,P05 delete changes another block"); }
    sx_assert(*keep == 5 && *keepb == 6 && hx_live(keep, 96) && hx_live(keepb, 200000), "P31,P05 delete changes another block");
    drop(d, NULL, n, 16); // no effect
    iso_verify_zones(); hx_no_locks("P31,P25 lock left held"); sx_reach("done");
}
// misuse is caught through these forms as well
//@job prop=P31,P06,P07,P15 entry=h_delete_bad cfg=cpp tier=quick timeout=100 reach=start bound="10 forms of delete: a second time, an interior address (any offset), a sized form with any larger size; block of 3 sizes"
void h_delete_bad(void) {
    hx_init(); iso_cpp();
    static const uint64_t S[] = { 100, 8192, 100000 };
    uint64_t n = S[sx_choose("size", 3)]; uint8_t *p = make(0, n, 16); uint64_t us = hx_usize(p); int d = sx_choose("delete", 10), bad = sx_choose("misuse", 3); uint64_t x = sx_u64("x");
    if(bad == 2 && d != 2 && d != 3) sx_stop();
    sx_abort_allowed(true); sx_reach("start");
    if(bad == 0) { drop(d, p, n, 16); drop(d, p, n, 16); }
    else if(bad == 1) { sx_assume(x > 0 && x < us); drop(d, p + x, n, 16); }
    else { sx_assume(x > us); drop(d, p, x, 16); }
    iso_flush_caches();
    sx_assert(false, bad == 0 ? "P31,P06 a second delete is not caught" : bad == 1 ? "P31,P07 delete of an interior address is not caught" : "P31,P15 sized delete with a larger size is not caught");
}
