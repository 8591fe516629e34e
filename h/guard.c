// Page protections around everything the allocator maps, and what destruction gives back. P12 P28 P27
#include "inv.h"
static const uint64_t sizes[] = { 1, 16, 33, 100, 512, 1000, 1024, 2048, 4096, 5000, 8192, 8193, 10000, 20000, 32768, 65504, 65536 };
//@job prop=P12 entry=h_guard_zone cfg=base,tagging,nothreads,named,uaf,sanity tier=quick timeout=120 reach=end bound="17 chunk sizes from 1 to 65536, internal zone, private zone, destroyed private zone; every page of every zone"
//@job prop=P12 entry=h_guard_zone cfg=nomask,small,release,strong,spinlock,experimental,profiler,cpupin,nocanary tier=thorough timeout=200 reach=end bound="17 chunk sizes from 1 to 65536, internal zone, private zone, destroyed private zone; every page of every zone"
void h_guard_zone(void) {
    hx_init();
    env_strict_unmap = 1;
    all_ok();
    uint64_t sz = sizes[sx_choose("size", sizeof(sizes) / 8)];
    uint64_t r0 = env_rss_pages;
    iso_alloc_zone_handle *h; zone_t *z = hx_private(sz, &h);
    sx_assert(h != NULL && !z->internal && z->chunk_size >= sz, "P12,P14 private zone");
    zone_ok(z); zones_apart(z);
    uint64_t u = z_user(z), bm = z_bitmap(z), bs = z->bitmap_size; bool own = z->preallocated_bitmap_idx == -1;
#if MEMORY_TAGGING
    uint64_t tags = (z->chunk_count + 4095ull) / 4096 + 1;
#else
    uint64_t tags = 0;
#endif
    sx_assert(env_rss_pages == r0 + 1026 + tags + (own ? 2 + (bs + 4095) / 4096 : 0), "P12 a new zone maps more or less than its pages");
    void *p = iso_alloc_from_zone(h); sx_assert(p != NULL, "P14 allocation from a new zone"); iso_free_from_zone(p, h);
    unsigned idx = z->index; uint64_t n0 = env_nev;
    iso_alloc_destroy_zone(h);
    sx_assert(sx_prot(u) == 255 && sx_prot(u + ZONE_USER_SIZE - 1) == 255 && sx_prot(u - 1) == 255 && sx_prot(u + ZONE_USER_SIZE) == 255, "P12 the pages or guards of a destroyed zone stay mapped");
    if(own) sx_assert(sx_prot(bm) == 255 && sx_prot(bm - 1) == 255, "P12 the bitmap of a destroyed zone stays mapped");
    for(uint64_t e = n0; e < env_nev; e++) if(env_ev[e].op == EV_MUNMAP) sx_assert((env_ev[e].a >= u - 4096 * (1 + tags) - 4096 && env_ev[e].a + env_ev[e].n <= u + ZONE_USER_SIZE + 4096) || (own && env_ev[e].a >= bm - 4096 && env_ev[e].a + env_ev[e].n <= bm + 4096 + ((bs + 4095) & ~4095ull)), "P12 destroying a zone unmaps other pages");
    z = &_root->zones[idx];
    sx_assert(z->internal, "P12,P13 the slot of a destroyed zone is not reused as an internal zone");
    sx_assert(env_rss_pages == r0 + 1026 + (own ? 2 + (bs + 4095) / 4096 : 0), "P12 a destroyed zone keeps pages");
    zones_apart(z);
    all_ok();
    hx_no_locks("P25 lock left held");
    sx_reach("end");
}
//@job prop=P12,P01,P14 entry=h_guard_any cfg=base,nocanary tier=quick timeout=200 reach=end bound="every chunk size from 8224 to 65536 (both ends of each rounding class alternate)"
void h_guard_any(void) {
    hx_init();
    uint64_t k = sx_choose("size", 1792), sz = 8193 + 32 * k + (k & 1) * 31;
    zone_t *z = hx_private(sz, NULL);
    sx_assert(z->chunk_size >= sz && (z->chunk_size & 7) == 0, "P12,P01,P14 chunks of a zone are too small");
    sx_assert((uint64_t) z->chunk_size * z->chunk_count <= ZONE_USER_SIZE, "P12,P01 chunks reach past the user pages");
    sx_assert(z->chunk_count <= 32 * (uint64_t) z->max_bitmap_idx && (uint64_t) z->max_bitmap_idx * 8 <= z->bitmap_size, "P12,P01 chunks without bits in the bitmap");
    sx_assert(z->chunk_count >= 1, "P14 a zone without chunks");
    uint64_t u = z_user(z), bm = z_bitmap(z);
    sx_assert(sx_prot(u - 1) == 0 && sx_prot(u) == 3 && sx_prot(u + ZONE_USER_SIZE - 1) == 3 && sx_prot(u + ZONE_USER_SIZE) == 0, "P12 guard pages of a zone");
    sx_assert((bm & 4095) + z->bitmap_size <= 4096, "P12 a bitmap leaves its page");
    bm = sx_concrete(bm);
    sx_assert(sx_prot(bm) == 3 && sx_prot((bm & ~4095ull) - 1) == 0 && sx_prot((bm & ~4095ull) + 4096) == 0, "P12 guard pages of a bitmap");
    for(unsigned i = 0; i + 1 < _root->zones_used; i++) { uint64_t b = z_bitmap(&_root->zones[i]); sx_assert(bm >= b + _root->zones[i].bitmap_size || b >= bm + z->bitmap_size, "P12,P01 two zones share a bitmap"); }
    for(int i = 0; i < 20; i++) { int64_t s = z->free_bit_slots[i]; sx_assert(s == -1 || (s >= 0 && (uint64_t) s < 64 * (uint64_t) z->max_bitmap_idx && !(s & 1) && (uint64_t) (s >> 1) < z->chunk_count), "P29,P01 a cached slot has no chunk"); }
    sx_reach("end");
}
//@job prop=P12 entry=h_guard_hist cfg=base,bigguard,protbig tier=quick timeout=120 reach=end bound="3 of 8 operations in any order on small, big and private memory; every page afterwards"
//@job prop=P12,P01,P08 entry=h_guard_hist cfg=tagging,sanitize,permrealloc,spinlock,nothreads defs="STEPS=3" tier=thorough timeout=300 reach=end bound="3 of 8 operations in any order on small, big and private memory; every page afterwards"
#ifndef STEPS
#define STEPS 2
#endif
void h_guard_hist(void) {
    hx_init();
    env_strict_unmap = 1;
    void *big = iso_alloc(70000), *old = iso_alloc(300000), *s = iso_alloc(40), *x = NULL; iso_free_size(old, 300000);
    iso_alloc_zone_handle *h = iso_alloc_new_zone(128); bool lived = true;
    big_ok(big);
    for(int k = 0; k < STEPS; k++) switch(sx_choose("op", 8)) {
        case 0: x = iso_alloc(300000); big_ok(x); break;
        case 1: if(big) { iso_free_permanently(big); big = NULL; } break;
        case 2: if(lived) { iso_alloc_destroy_zone(h); lived = false; } break;
        case 3: h = iso_alloc_new_zone(3000); lived = true; break;
        case 4: s = iso_realloc(s, 100000); big_ok(s); break;
        case 5: iso_free(s); iso_flush_caches(); s = iso_alloc(9000); break;
        case 6: if(big) { iso_free_size(big, 70000); big = NULL; } break;
        case 7: iso_verify_zones(); x = iso_alloc(65000); break;
    }
    all_ok();
    for(big_t *b = _root->big_zone_used ? b_unmask(_root->big_zone_used) : NULL; b; b = b->next ? b_unmask(b->next) : NULL) big_ok(b->user_pages_start);
#if BIG_ZONE_GUARD
    for(big_t *b = _root->big_zone_free ? b_unmask(_root->big_zone_free) : NULL; b; b = b->next ? b_unmask(b->next) : NULL) { uint64_t p = (uint64_t) b->user_pages_start; sx_assert(sx_prot(p - 1) == 0 && sx_prot(p + b->size) == 0, "P12 a cached big block lost its guard pages"); }
#endif
    sx_reach("end");
}
// a block past 64 KB of any size: how much is mapped and which pages become guards; what its release unmaps
//@job prop=P12,P16 entry=h_guard_big cfg=bigguard,base tier=quick timeout=100 reach=kept,gone bound="one block of any size past 64 KB, allocated, released or freed permanently, any use count"
//@job prop=P12,P16 entry=h_guard_big cfg=protbig,named,tagging,nothreads tier=thorough timeout=100 reach=kept,gone bound="one block of any size past 64 KB, allocated, released or freed permanently, any use count"
void h_guard_big(void) {
    hx_init();
    uint64_t n = sx_u64("n"); sx_assume(n > 65536 && n <= 0x100000000ull);
    uint64_t need = (n + 4095) & ~4095ull, e0 = env_nev;
    env_record_only = 1; env_record_size = 0x100100000;
    uint64_t p = (uint64_t) iso_alloc(n);
    sx_assert(p != 0, "P02,P08 a request fails although memory is available");
    big_t *b = b_find(_root->big_zone_used, (void *) p);
    uint64_t m = (uint64_t) b & ~4095ull, ua = 0, ul = 0, ma = 0, ml = 0; bool lo = false, hi = false, mlo = false, mhi = false;
    for(uint64_t e = e0; e < env_nev; e++) if(env_ev[e].op == EV_MMAP && env_ev[e].ret == 0) { if(p >= env_ev[e].a && p < env_ev[e].a + 0x100000) { ua = env_ev[e].a; ul = (env_ev[e].n + 4095) & ~4095ull; } if(m >= env_ev[e].a && m < env_ev[e].a + 0x100000) { ma = env_ev[e].a; ml = (env_ev[e].n + 4095) & ~4095ull; } }
    for(uint64_t e = e0; e < env_nev; e++) if(env_ev[e].op == EV_MPROTECT && env_ev[e].x == 0) {
        sx_assert(env_ev[e].a + env_ev[e].n <= p || env_ev[e].a >= p + need || env_ev[e].a >= ua + ul, "P12,P01 a guard page lies inside a big block");
        if(env_ev[e].n == 4096) { if(env_ev[e].a == p - 4096) lo = true; if(env_ev[e].a == p + need) hi = true; if(env_ev[e].a == m - 4096) mlo = true; if(env_ev[e].a == m + 4096) mhi = true; }
    }
    sx_assert(ua != 0 && ma != 0 && ua != ma, "P12,P16 user pages and metadata of a big block share a mapping");
#if BIG_ZONE_GUARD
    sx_assert(lo && p == ua + 4096, "P12 no guard page below a big block"); sx_assert(hi && ul == need + 8192, "P12 no guard page above a big block");
#else
    sx_assert(p == ua && ul == need, "P12,P16 mapping of a big block");
#endif
#if BIG_ZONE_META_DATA_GUARD
    sx_assert(mlo && mhi && ml == 12288 && m == ma + 4096, "P12 no guard pages around the metadata of a big block");
#else
    sx_assert(m == ma && ml == 4096, "P12,P16 mapping of the metadata of a big block");
#endif
    sx_assert(b->size == need, "P12,P16 size of a big block");
    b->ttl = sx_u32("uses"); bool perm = sx_choose("permanent", 2), keep = b->ttl < 16 || perm; uint64_t e1 = env_nev;
    if(perm) iso_free_permanently((void *) p); else iso_free_size((void *) p, 65537);
    uint64_t un = 0;
    for(uint64_t e = e1; e < env_nev; e++) if(env_ev[e].op == EV_MUNMAP) {
        uint64_t a = env_ev[e].a, l = (env_ev[e].n + 4095) & ~4095ull;
        sx_assert((a == ua && l == ul) || (a == ma && l == ml), "P12,P16 releasing a big block does not unmap exactly its own mappings"); un++;
    }
    sx_assert(un == (keep ? 0 : 2), "P12,P16 releasing a big block unmaps too much or too little");
    if(keep) sx_reach("kept"); else sx_reach("gone");
}
// root protection
// while any thread could still find the root inaccessible (or about to be), the lock is held
static uint64_t root_calls;
static void on_root(uint64_t a, uint64_t n, int prot) {
    root_calls++;
#if THREAD_SUPPORT && USE_SPINLOCK
    sx_assert(*(volatile uint8_t *) &root_busy_flag != 0, "P27,P25 the root's protection changes while the lock is not held");
#elif THREAD_SUPPORT
    sx_assert(sx_locks_held() == 1, "P27,P25 the root's protection changes while the lock is not held");
#endif
}
//@job prop=P27,P12 entry=h_root cfg=base,spinlock,nothreads,release tier=quick timeout=60 reach=end bound="after 4 different histories: protect, unprotect, twice"
//@job prop=P27,P12 entry=h_root cfg=tagging,sanity,profiler,uaf,small,bigguard tier=thorough timeout=60 reach=end bound="after 4 different histories: protect, unprotect, twice"
void h_root(void) {
    hx_init();
    void *p = iso_alloc(50), *b = iso_alloc(90000);
    iso_alloc_zone_handle *h = NULL;
    switch(sx_choose("history", 4)) { case 1: h = iso_alloc_new_zone(64); break; case 2: iso_free(p); p = NULL; break; case 3: iso_free_permanently(b); b = NULL; break; }
    for(int k = 0; k < 2; k++) {
        uint64_t n = env_nev, rss = env_rss_pages;
        int s = sx_snap(_root, sizeof(iso_alloc_root)), zs = sx_snap(_root->zones, _root->zones_used * sizeof(zone_t));
        iso_alloc_root *r = _root; zone_t *zt = r->zones;
        uint64_t zn = r->zones_used * sizeof(zone_t);
        env_on_protect = on_root;
        iso_alloc_protect_root();
        sx_assert(_root == r, "P27 protecting the root moves it");
        sx_assert(hx_pages((uint64_t) r, sizeof(iso_alloc_root), 0), "P27 a page of the root stays accessible while protected");
#if THREAD_SUPPORT && USE_SPINLOCK
        sx_assert(*(volatile uint8_t *) &root_busy_flag != 0, "P27 the lock is not held while the root is protected");
#elif THREAD_SUPPORT
        sx_assert(sx_locks_held() == 1, "P27 the lock is not held while the root is protected");
#endif
        for(uint64_t e = n; e < env_nev; e++) if(env_ev[e].op == EV_MPROTECT) sx_assert(env_ev[e].a >= (uint64_t) r && env_ev[e].a + env_ev[e].n <= (((uint64_t) r + sizeof(iso_alloc_root) + 4095) & ~4095ull), "P27 protecting the root changes other pages");
        iso_alloc_unprotect_root();
        env_on_protect = NULL;
        hx_no_locks("P27,P25 the lock stays held after unprotecting the root");
        sx_assert(hx_pages((uint64_t) r, sizeof(iso_alloc_root), 3), "P27 a page of the root stays inaccessible after unprotecting");
        sx_assert(sx_prot((uint64_t) r - 1) == 0 && sx_prot((((uint64_t) r + sizeof(iso_alloc_root) + 4095) & ~4095ull)) == 0, "P27,P12 unprotecting the root opens a guard page");
        sx_assert(sx_same(s, (uint64_t) r, sizeof(iso_alloc_root)) && sx_same(zs, (uint64_t) zt, zn), "P27 protecting and unprotecting the root changes its contents");
        sx_assert(env_rss_pages == rss, "P27 protecting the root maps or unmaps pages");
    }
    meta_ok();
    void *q = iso_alloc(50); sx_assert(q != NULL && q != p && hx_live(q, 50), "P27 allocation after unprotecting the root");
    iso_free(q); if(p) iso_free(p);
    if(h) { q = iso_alloc_from_zone(h); sx_assert(hx_live(q, 64), "P27 private zone after unprotecting the root"); }
    if(b) iso_free_size(b, 90000);
    iso_flush_caches(); iso_verify_zones();
    hx_no_locks("P27,P25 lock left held");
    sx_reach("end");
}
