// Initialising and destroying the library. P28
#include "inv.h"
void iso_alloc_ctor(void) __attribute__((weak)); void iso_alloc_dtor(void) __attribute__((weak));
void *hk_malloc(size_t); void *hk_calloc(size_t, size_t); void *hk_realloc(void *, size_t); size_t hk_malloc_usable_size(void *);
// however it starts, and initialising again at any later point has no effect
//@job prop=P28,P18 entry=h_init_again cfg=base,nothreads,cleanup0,sanity,release,spinlock tier=quick timeout=100 reach=end bound="start by constructor, explicitly or by 6 kinds of first call; then 1 of 7 calls (2 in the thorough tier), initialising again (2 ways) after each"
//@job prop=P28,P18 entry=h_init_again cfg=tagging,small,uaf,profiler,nomask,named,experimental,cpupin,abortnull,strong,noentropy,nocanary defs="STEPS=2" tier=thorough timeout=250 reach=end bound="as above in other builds, 2 calls"
//@job prop=P28,P18 entry=h_init_again cfg=base defs="STEPS=2" tier=thorough timeout=250 reach=end bound="as above, 2 calls"
#ifndef STEPS
#define STEPS 1
#endif
static iso_alloc_root *root; static uint64_t nev; static int ctor;
static void again(void) {
    int s = sx_snap(_root, sizeof(iso_alloc_root)), zs = sx_snap(_root->zones, _root->zones_used * sizeof(zone_t)); nev = env_nev;
#if AUTO_CTOR_DTOR
    if(ctor) iso_alloc_ctor(); else
#endif
    iso_alloc_initialize();
    sx_assert(_root == root, "P28 initialising again replaces the root");
    sx_assert(env_nev == nev, "P28 initialising again calls the operating system");
    sx_assert(sx_same(s, (uint64_t) _root, sizeof(iso_alloc_root)) && sx_same(zs, (uint64_t) _root->zones, _root->zones_used * sizeof(zone_t)), "P28 initialising again changes the allocator");
    hx_no_locks("P28,P25 lock left held by initialisation");
}
void h_init_again(void) {
    env_strict_unmap = 1;
    void *p = NULL; uint64_t n = 40; int how = sx_choose("start", 8);
#if !AUTO_CTOR_DTOR
    how = 1;
#endif
    switch(how) {
        case 0:
#if AUTO_CTOR_DTOR
            iso_alloc_ctor();
#endif
            break;
        case 1: iso_alloc_initialize(); break;
        case 2: p = iso_alloc(n); break;
        case 3: p = hk_malloc(n); break;
        case 4: p = hk_calloc(2, n = 30); n = 60; break;
        case 5: p = hk_realloc(NULL, n); break;
        case 6: n = 100000; p = iso_alloc(n); break;
        case 7: p = iso_strdup("hello"); n = 6; break;
    }
    root = _root;
    sx_assert(root != NULL && root->zones != NULL && root->chunk_lookup_table != NULL && root->chunk_quarantine != NULL, "P28 not initialised");
    sx_assert(how < 2 || hx_live(p, n), "P28 the first call is not served");
    sx_assert(root->zone_handle_mask != root->big_zone_next_mask && root->big_zone_canary_secret != root->seed, "P28,P29 secrets of the root");
    for(unsigned i = 0; i < root->zones_used; i++) sx_assert(root->zones[i].internal && root->zones[i].index == i, "P28 a default zone");
    ctor = sx_choose("ctor", 2);
#if !AUTO_CTOR_DTOR
    if(ctor) sx_stop();
#endif
    again();
    void *q[3] = { NULL, NULL, NULL }; iso_alloc_zone_handle *h = NULL;
    for(int k = 0; k < STEPS; k++) {
        switch(sx_choose("call", 7)) {
            case 0: q[k] = iso_alloc(100); *(uint64_t *) q[k] = 5 + k; break;
            case 1: q[k] = iso_alloc(70000); *(uint64_t *) q[k] = 5 + k; break;
            case 2: if(p) { iso_free(p); p = NULL; } break;
            case 3: if(!h) h = iso_alloc_new_zone(512); q[k] = iso_alloc_from_zone(h); *(uint64_t *) q[k] = 5 + k; break;
            case 4: if(p && how != 6) { iso_free_permanently(p); p = NULL; } break;
            case 5: iso_flush_caches(); break;
            case 6: iso_verify_zones(); break;
        }
        again();
    }
    for(int k = 0; k < 2; k++) if(q[k]) { sx_assert(*(uint64_t *) q[k] == 5 + k && hx_live(q[k], 100), "P28,P01 a block is lost"); iso_free(q[k]); }
    if(p) iso_free(p);
    iso_flush_caches(); iso_verify_zones();
    sx_reach("end");
}
// destruction finds every altered canary of a zone, and only those
static int dkind;
//@job prop=P28,P10 entry=h_destroy_canary cfg=base,cleanup0,nomask tier=quick timeout=150 reach=destroy,done bound="private zone of 64 chunks with live, freed, reused and set-aside chunks: any value written to any canary word of any chunk, or none; 2 other zones and 2 big blocks"
//@job prop=P28,P10 entry=h_destroy_canary cfg=tagging_cleanup,nothreads_cleanup,spinlock_cleanup,bigguard_cleanup,sanitize,release,verify,profiler,sanity,uaf,protbig tier=thorough timeout=200 reach=destroy,done bound="as above in other builds"
void h_destroy_canary(void) {
    hx_init(); env_strict_unmap = 1;
    iso_alloc_zone_handle *h; zone_t *z = hx_private(65536, &h);
    void *a = iso_alloc_from_zone(h), *b = iso_alloc_from_zone(h), *c = iso_alloc_from_zone(h), *d;
    iso_free_from_zone(a, h); iso_free_from_zone_permanently(b, h);
    void *f[3]; for(int i = 0; i < 3; i++) f[i] = iso_alloc_from_zone(h); for(int i = 0; i < 3; i++) iso_free_from_zone(f[i], h);
    d = iso_alloc_from_zone(h); iso_free(c); // c waits in the quarantine
    void *s = iso_alloc(24), *s2 = iso_alloc(300), *l = iso_alloc(100000), *l2 = iso_alloc(200000); iso_free_size(s2, 300); iso_free_size(l2, 200000); (void) s; (void) l;
    // contents of live blocks, all of them, do not matter
    *(uint64_t *) d = sx_u64("user"); ((uint64_t *) d)[8191] = sx_u64("user2"); *(uint64_t *) c = sx_u64("freed user"); ((uint64_t *) c)[8191] = sx_u64("freed user2");
    bool bad = false;
    if(sx_choose("alter", 2)) {
        uint64_t i = sx_choose("chunk", 64), st = z_state(z, i), at = z_chunk(z, i) + (sx_choose("trailing", 2) ? 65528 : 0), v = sx_u64("v");
        if(st == C_FREED || st == C_CANARY || z_chunk(z, i) == (uint64_t) b) { bad = v != z_canary(z, z_chunk(z, i)); *(uint64_t *) at = v; sx_reach("canary"); }
        else sx_stop();
    }
    sx_abort_allowed(bad);
    sx_reach("destroy");
    iso_alloc_destroy();
    sx_assert(!bad, "P28,P10 destruction does not notice an overwritten canary");
    hx_no_locks("P28,P25 lock left held by destruction");
    sx_reach("done");
}
// what it gives back, and that it can be called again
//@job prop=P28,P12 entry=h_destroy_all cfg=cleanup,cleanup0,base,nothreads_cleanup tier=quick timeout=150 reach=end bound="2 of 9 calls (3 in the thorough tier: small, big, private, released, permanent, destroyed zone, zero size, large zone), then destruction, twice, directly or through the exit function"
//@job prop=P28,P12 entry=h_destroy_all cfg=tagging_cleanup,spinlock_cleanup,bigguard_cleanup,release,sanity,profiler,uaf,uaf_cleanup0,small_cleanup0,nomask_cleanup0,protbig_cleanup0,strong_cleanup0,tagging,nothreads tier=thorough timeout=300 reach=end bound="as above in other builds"
//@job prop=P28,P12 entry=h_destroy_all cfg=cleanup,base,nothreads_cleanup defs="STEPS=3" tier=thorough timeout=400 ttimeout=400 reach=end bound="as above, 3 calls"
void h_destroy_all(void) {
    uint64_t before = env_rss_pages, lost = 0;
    env_strict_unmap = 1; sx_assert(before == 0, "harness");
    hx_init();
    uint64_t *keep = iso_alloc(64); *keep = 99;
    void *p = NULL, *b = NULL; iso_alloc_zone_handle *h = NULL;
    for(int k = 0; k < STEPS + (STEPS == 1); k++) switch(sx_choose("call", 9)) {
        case 0: if(!p) { p = iso_alloc(1000); ((uint8_t *) p)[999] = 3; } break;
        case 1: if(!b) { b = iso_alloc(150000); ((uint8_t *) b)[149999] = 3; } break;
        case 2: if(!h) h = iso_alloc_new_zone(2000); iso_alloc_from_zone(h); break;
        case 3: iso_free(p); p = NULL; break;
        case 4: iso_free(b); b = NULL; break;
        case 5: if(b) { uint64_t n = hx_usize(b); iso_free_permanently(b); b = NULL; lost += n / 4096 + 1 + 2 * BIG_ZONE_GUARD + 2 * BIG_ZONE_META_DATA_GUARD; } break; // never comes back
        case 6: if(h) { iso_alloc_destroy_zone(h); h = NULL; } break;
        case 7: { void *q = iso_alloc(0); iso_free(q); break; }
        case 8: iso_alloc(60000); break;
    }
    int dtor = 0;
#if AUTO_CTOR_DTOR
    dtor = sx_choose("exit", 2);
#endif
    for(int k = 0; k < 2; k++) {
        iso_alloc_root *r = _root; uint64_t rp = (uint64_t) r;
#if AUTO_CTOR_DTOR
        if(dtor) iso_alloc_dtor(); else
#endif
        iso_alloc_destroy();
        hx_no_locks("P28,P25 lock left held by destruction");
#if ISO_DTOR_CLEANUP
        sx_assert(k == 1 || sx_prot(rp) == 255, "P28 destruction leaves the root mapped");
        sx_assert(sx_prot((uint64_t) keep) == 255, "P28 destruction leaves user pages mapped");
        sx_assert(env_rss_pages == lost, "P28,P12 destruction leaves pages mapped");
#else
        sx_assert(_root == r && *keep == 99, "P28 destruction unmaps memory in a build without cleanup");
        sx_assert(_root->chunk_quarantine_count == 0, "P28,P11 destruction leaves entries waiting");
        sx_assert(hx_live(keep, 64), "P28 destruction releases a live block");
        { void *q = iso_alloc(0); sx_assert(HX_ISZERO(q) && sx_prot((uint64_t) q) == 0, "P28,P18 a zero-size block obtained after destruction"); }
#endif
    }
    sx_reach("end");
}
// a request for entropy that is not met in full, at every position and for every count of bytes
//@job prop=P29,P35 entry=h_entropy cfg=base,noentropy,bigguard tier=quick timeout=150 reach=met,end bound="start and 6 calls; the k-th request for entropy of the call (k up to 24) returns any count from -1 to 7; with and without ABORT_NO_ENTROPY"
//@job prop=P29,P35 entry=h_entropy cfg=tagging,nothreads,small,sanity,uaf,strong,experimental,noentropy_cleanup tier=thorough timeout=150 reach=met,end bound="as above in other builds"
void h_entropy(void) {
    int call = sx_choose("call", 7); void *p = NULL, *r = NULL; uint64_t n = 0; iso_alloc_zone_handle *h = NULL, *g = NULL;
    if(call) { hx_init(); p = iso_alloc(64); *(uint64_t *) p = 77; h = iso_alloc_new_zone(2000); }
    env_short_n = sx_u64("count"); sx_assume(env_short_n >= -1 && env_short_n < 8);
    int at = sx_choose("position", 24), need = 0; uint64_t before = env_cnt[EV_GETRANDOM];
    env_short_at = at; env_failed = 0;
    sx_abort_allowed(true);
    switch(call) {
        case 0: hx_init(); need = 1; break;
        case 1: r = iso_alloc(n = 3000); break;
        case 2: r = iso_alloc(n = 100000); break;
        case 3: g = iso_alloc_new_zone(500); break;
        case 4: iso_alloc_destroy_zone(h); h = NULL; break;
        case 5: r = iso_calloc(20, n = 64); n *= 20; break;
        case 6: r = iso_alloc(n = 40000); break;
    }
    env_short_at = -1;
    sx_abort_allowed(false);
    sx_assert(env_cnt[EV_GETRANDOM] - before >= need, "P29 the allocator starts without asking for entropy");
    if(env_failed) {
#if ABORT_NO_ENTROPY
        sx_assert(false, "P29,P35 the allocator continues although the entropy it asked for is missing");
#else
        sx_reach("met");
#endif
    } else if(at < 23) sx_stop(); else sx_reach("met");
    if(!call) p = iso_alloc(64); else sx_assert(*(uint64_t *) p == 77, "P35 missing entropy damages a block");
    sx_assert(hx_live(p, 64) && (!n || hx_live(r, n)), "P35,P01 not live");
    if(g) { void *q = iso_alloc_from_zone(g); sx_assert(hx_live(q, 500), "P35,P14 private block"); }
    all_ok();
    hx_no_locks("P35,P25 lock left held");
    sx_reach("end");
}
