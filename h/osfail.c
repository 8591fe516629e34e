// Every single call to the operating system fails once, at every position. P35
#include "inv.h"
#ifndef KMAX
#define KMAX 40
#endif
static uint64_t ev0, K; static void *small[3], *bigp[3], *prv[2]; static iso_alloc_zone_handle *ph;
static void fill(void *p, uint64_t n, uint64_t w) { uint64_t *q = p; q[0] = w; q[n / 8 - 1] = w + 1; }
static bool full(void *p, uint64_t n, uint64_t w) { uint64_t *q = p; return hx_live(p, n) && q[0] == w && q[n / 8 - 1] == w + 1; }
static void prep(void) {
    hx_init(); env_strict_unmap = 1;
    for(int i = 0; i < 3; i++) { small[i] = iso_alloc(64); fill(small[i], 64, 0x1000 + i); bigp[i] = iso_alloc(70000); fill(bigp[i], 70000, 0x2000 + i); }
    ph = iso_alloc_new_zone(256); for(int i = 0; i < 2; i++) { prv[i] = iso_alloc_from_zone(ph); fill(prv[i], 256, 0x3000 + i); }
    void *c = iso_alloc(100000); iso_free_size(c, 100000);
}
static void armed(void) {
    uint64_t k = K = sx_choose("position", KMAX + 1);
#ifdef FAILOP
    if(k) { env_fail_op = FAILOP; env_fail_at = env_cnt[FAILOP] + k - 1; }
#else
    env_fail_any = k; env_anycnt = 0;
#endif
    env_failed = 0; ev0 = env_nev;
}
// the state is that of a working allocator, whatever failed
static void after(bool live0, bool bigl0, bool prv0) {
    env_fail_any = 0; env_fail_op = 0;
    if(env_failed) sx_reach("survived"); else if(K) sx_stop(); else sx_reach("nofault");
    hx_no_locks("P35,P25 a failed system call leaks a lock");
    sx_abort_allowed(false);
    for(int i = 0; i < 3; i++) { if(i || live0) sx_assert(full(small[i], 64, 0x1000 + i), "P35,P05 a failed system call damages a live block"); if(i || bigl0) sx_assert(full(bigp[i], 70000, 0x2000 + i), "P35,P05 a failed system call damages a live big block"); }
    if(z_handle(ph) && prv[1]) for(int i = 0; i < 2; i++) if(i || prv0) sx_assert(full(prv[i], 256, 0x3000 + i), "P35,P05 a failed system call damages a live private block");
    all_ok();
    void *p = iso_alloc(64), *q = iso_alloc(3000), *b = iso_alloc(70000), *b2 = iso_alloc(300000);
    sx_assert(hx_live(p, 64) && hx_live(q, 3000) && hx_live(b, 70000) && hx_live(b2, 300000), "P35,P08 no memory after a system call failed once");
    big_ok(b); big_ok(b2);
    iso_free(p); iso_free(q); iso_free(b); iso_free_size(b2, 300000); iso_free_permanently(bigp[2]); iso_free_permanently(small[2]);
    iso_alloc_zone_handle *h = iso_alloc_new_zone(1000); sx_assert(h != NULL, "P35,P14 no private zone after a system call failed once"); zone_ok(z_handle(h));
    void *r = iso_alloc_from_zone(h); sx_assert(hx_live(r, 1000), "P35,P14 no memory from a private zone"); iso_free_from_zone(r, h); iso_alloc_destroy_zone(h);
    iso_flush_caches(); iso_verify_zones();
    hx_no_locks("P35,P25 a failed system call leaks a lock");
}
static void got(void *p, uint64_t n, const char *id) { if(p == NULL) sx_assert(env_failed != 0, id); else { sx_assert(hx_live(p, n), "P35,P01 a block after a failed system call is not usable"); if(b_find(_root->big_zone_used, p)) big_ok(p); else zone_ok(z_of((uint64_t) p)); } }
//@job prop=P35,P12 entry=h_fail cfg=base tier=quick timeout=200 reach=survived,nofault bound="16 calls of the interface from a populated state, one failure of one system call (mmap, mprotect, munmap, madvise, mlock, getrandom) at each of the first 40 positions"
//@job prop=P35,P12 entry=h_fail cfg=bigguard,sanity,noentropy,cleanup0,release tier=quick timeout=200 reach=survived,nofault bound="as above"
//@job prop=P35,P12 entry=h_fail cfg=tagging,nothreads,spinlock,small,uaf,protbig,nomask,named,sanitize,profiler,strong,bigguard_cleanup,permrealloc tier=thorough timeout=300 reach=survived,nofault bound="as above in other builds"
void h_fail(void) {
    prep();
    int op = sx_choose("call", 16);
    bool l = true, b = true, v = true;
    env_huge = sx_choose("huge pages", 2);
    if(op == 6) { big_t *z = b_find(_root->big_zone_used, bigp[0]); z->ttl = BIG_ZONE_ALLOC_RETIRE; }
    armed();
    sx_abort_allowed(true);
    switch(op) {
        case 0: got(iso_alloc(3000), 3000, "P35 allocation fails although nothing failed"); break;
        case 1: got(iso_alloc(300000), 300000, "P35 big allocation fails although nothing failed"); break;
        case 2: got(iso_alloc(70000), 70000, "P35 big allocation fails although nothing failed"); break;
        case 3: { iso_alloc_zone_handle *h = iso_alloc_new_zone(500); if(h == NULL) sx_assert(env_failed != 0, "P35 no private zone although nothing failed"); else { zone_ok(z_handle(h)); got(iso_alloc_from_zone(h), 500, "P35 private allocation"); } break; }
        case 4: iso_free(bigp[0]); iso_flush_caches(); b = false; break;
        case 5: iso_free_permanently(bigp[0]); b = false; break;
        case 6: iso_free_size(bigp[0], 70000); b = false; break;
        case 7: iso_alloc_destroy_zone(ph); prv[1] = NULL; break;
        case 8: { uint64_t *q = iso_realloc(small[0], 200000); if(q == NULL) sx_assert(env_failed != 0, "P35 resize fails although nothing failed"); else { sx_assert(*q == 0x1000, "P35,P04 resize loses the contents"); l = false; got(q, 200000, ""); } break; }
        case 9: { uint8_t *q = iso_calloc(100, 1000); got(q, 100000, "P35 zeroed allocation fails although nothing failed"); if(q) { bool z = true; for(int i = 0; i < 100000; i += 64) z &= q[i] == 0; sx_assert(z, "P35,P03 zeroed allocation is not zero after a failed system call"); } break; }
        case 10: iso_alloc_protect_root(); iso_alloc_unprotect_root(); break;
        case 11: iso_flush_caches(); iso_verify_zones(); break;
        case 12: iso_free_permanently(small[0]); l = false; break;
        case 13: { void *q = NULL; for(int i = 0; i < 3; i++) { iso_alloc_zone_handle *h = iso_alloc_new_zone(20000); if(h) { q = iso_alloc_from_zone(h); if(q) { fill(q, 20000, 5); iso_free_from_zone(q, h); } iso_alloc_destroy_zone(h); } else sx_assert(env_failed != 0, "P35 no private zone although nothing failed"); } break; }
        case 14: { uint64_t *q = iso_realloc(bigp[0], 400000); if(q == NULL) sx_assert(env_failed != 0, "P35 resize fails although nothing failed"); else { sx_assert(*q == 0x2000, "P35,P04 resize loses the contents"); b = false; got(q, 400000, ""); } break; }
        case 15: { static char nm[] = "n"; iso_alloc_name_zone(ph, nm); got(iso_alloc(40000), 40000, "P35 allocation fails although nothing failed"); break; }
    }
    after(l, b, v);
}
//@job prop=P35,P28,P12 entry=h_fail_init cfg=base,sanity,release tier=quick timeout=200 reach=end bound="initialisation by constructor function or first allocation, one failure at each of the first 150 system calls"
//@job prop=P35,P28,P12 entry=h_fail_init cfg=bigguard,noentropy,cleanup0,tagging,nothreads,spinlock,small,uaf,nomask,named,profiler tier=thorough timeout=300 reach=end bound="as above in other builds"
void h_fail_init(void) {
    uint64_t k = sx_choose("position", 151); env_fail_any = k; env_huge = sx_choose("huge pages", 2);
    sx_abort_allowed(true);
    void *p = NULL;
    if(sx_choose("first", 2)) iso_alloc_initialize(); else p = iso_alloc(64);
    bool failed = env_failed; env_fail_any = 0; sx_abort_allowed(false);
    if(k && !failed) sx_stop();
    hx_no_locks("P35,P25 a failed system call leaks a lock");
    sx_assert(_root != NULL, "P35 initialisation failed silently");
    all_ok();
    if(p) sx_assert(hx_live(p, 64), "P35 block after a failed system call");
    void *q = iso_alloc(64), *b = iso_alloc(70000); sx_assert(q != p && hx_live(q, 64) && hx_live(b, 70000), "P35,P08 no memory after initialisation with a failed system call");
    iso_free(q); iso_free(b); iso_flush_caches();
    if(env_rand_mode == 0 && failed && k) sx_reach("survived");
    sx_reach("end");
}
