// What is left in freed memory. P30 (+P05, P09)
#include "hx.h"
//@job prop=P30,P05 entry=h_poison cfg=sanitize,sanitize_nocanary tier=quick timeout=120 reach=freed,perm,realloced bound="chunks of 16..65536 bytes (12 sizes), first, middle and last chunk, 7 ways to free, any previous byte value, every byte of the chunk and of both neighbours"
//@job prop=P30,P09 entry=h_poison cfg=base,permrealloc tier=quick timeout=120 reach=freed,perm,realloced bound="permanent frees in builds without sanitising; otherwise as above"
//@job prop=P30,P05 entry=h_poison cfg=sanitize_tagging,sanitize_sanity,sanitize_nothreads,sanitize_nomask,sanitize_small,sanitize_release,sanitize_uaf,sanitize_strong,sanitize_libc,sanitize_permrealloc,nocanary,tagging,release,small,nothreads tier=thorough timeout=200 reach=freed,perm,realloced bound="as above in other builds"
void h_poison(void) {
    static const uint64_t S[] = { 16, 32, 48, 64, 112, 128, 256, 1000, 1024, 4096, 8192, 65536 };
    hx_init();
    uint64_t sz = S[sx_choose("size", 12)];
    int how = sx_choose("how", 7);
    bool general = how < 3 || how > 4;
    if(general && (sz == 48 || sz == 112 || sz == 1000)) sx_stop(); // private sizes only
    iso_alloc_zone_handle *h = NULL;
    zone_t *z = general ? hx_internal(sz) : hx_private(sz, &h);
    sx_assert(z != NULL, "P30 a zone");
    uint64_t cs = z->chunk_size; unsigned last = z->chunk_count - 1;
    unsigned c = ((unsigned[]) { 0, 5, last })[sx_choose("which", 3)];
    // the zone is otherwise in its initial state: serve this chunk, and its neighbours if they are not set aside
    z_nocache(z);
    unsigned lo = c ? c - 1 : c, hi = c < last ? c + 1 : c;
    for(unsigned i = lo; i <= hi; i++) z_set(z, i, C_USED);
    z->af_count += hi - lo + 1; z->alloc_count += hi - lo + 1;
    uint8_t *p = (uint8_t *) z_chunk(z, c), v = sx_u8("byte"), w = sx_u8("neighbour");
    for(unsigned i = lo; i <= hi; i++) __builtin_memset((void *) z_chunk(z, i), i == c ? v : w, cs);
    bool perm = false;
    switch(how) {
        case 0: iso_free(p); iso_flush_caches(); break;
        case 1: iso_free_size(p, sz); break;
        case 2: iso_free_permanently(p); perm = true; break;
        case 3: iso_free_from_zone(p, h); break;
        case 4: iso_free_from_zone_permanently(p, h); perm = true; break;
        case 5: sx_assert(iso_realloc(p, 0) == NULL, "P30 a resize to nothing"); iso_flush_caches(); perm = PERM_FREE_REALLOC && z_state(z, c) == C_CANARY; break; // either kind of free
        case 6: { uint8_t *q = iso_realloc(p, cs + 1); sx_assert(q != NULL && q[0] == v && q[cs - 1] == v, "P30,P04 resize keeps the contents"); perm = PERM_FREE_REALLOC; sx_reach("realloced"); break; }
    }
    if(how >= 5) iso_flush_caches();
    if(perm) sx_reach("perm"); else sx_reach("freed");
    sx_assert(z_state(z, c) == (perm ? C_CANARY : C_FREED), "P30,P05 the free was processed");
#if DISABLE_CANARY
    const uint64_t k = 0;
#else
    const uint64_t k = 8;
#endif
    if(perm || SANITIZE_CHUNKS) {
        bool ok = true;
        for(uint64_t i = k; i < cs - k; i++) ok &= p[i] == POISON_BYTE;
        sx_assert(ok, "P30 bytes of a freed block survive");
    }
    bool ok = true;
    for(unsigned i = lo; i <= hi; i++) if(i != c) { uint8_t *q = (uint8_t *) z_chunk(z, i); for(uint64_t j = 0; j < cs; j++) ok &= q[j] == w; }
    sx_assert(ok, "P30,P05 a neighbour of the freed block was written");
    hx_no_locks("P30 lock leaked");
}
//@job prop=P30,P09,P12 entry=h_poison_big cfg=sanitize,sanitize_bigguard,base tier=quick timeout=150 reach=cached,perm,gone bound="3 big sizes, 4 ways to free, first and 16th use, any previous byte value, every byte"
//@job prop=P30,P09,P12 entry=h_poison_big cfg=sanitize_tagging,sanitize_nothreads,sanitize_nomask,sanitize_protbig,sanitize_release,protbig,bigguard tier=thorough timeout=200 reach=cached,perm,gone bound="as above in other builds"
void h_poison_big(void) {
    static const uint64_t S[] = { 65537, 70000, 81920 };
    hx_init(); env_madv_free_zeroes = 0;
    uint64_t sz = S[sx_choose("size", 3)];
    uint8_t *other = iso_alloc(sz); __builtin_memset(other, 0x5a, sz);
    uint8_t *p = iso_alloc(sz), v = sx_u8("byte"); sx_assert(p != NULL && other != NULL, "P30 a big block");
    big_t *b = b_find(_root->big_zone_used, p); sx_assert(b != NULL, "P30 big block not recorded");
    uint64_t n = b->size;
    if(sx_choose("worn", 2)) b->ttl = BIG_ZONE_ALLOC_RETIRE;
    __builtin_memset(p, v, n);
    int how = sx_choose("how", 4); uint64_t ev0 = env_nev;
    switch(how) {
        case 0: iso_free(p); iso_flush_caches(); break;
        case 1: iso_free_size(p, sz); break;
        case 2: iso_free_permanently(p); break;
        case 3: iso_realloc(p, 0); iso_flush_caches(); break;
    }
    int pr = sx_prot((uint64_t) p);
    if(pr == 3 || pr == 0) {
        bool free = b_find(_root->big_zone_free, p) != NULL;
        bool perm = how == 2 || (how == 3 && PERM_FREE_REALLOC && !free);
        if(perm) { sx_reach("perm"); sx_assert(hx_pages((uint64_t) p, n, 0), "P30,P09 a permanently freed big block is still accessible"); }
        else { sx_reach("cached"); sx_assert(free, "P30,P16 a freed big block is lost"); }
        if(SANITIZE_CHUNKS) { sx_protect((uint64_t) p, n, 3); bool ok = true; for(uint64_t i = 0; i < n; i++) ok &= p[i] == POISON_BYTE || p[i] == 0; sx_assert(ok, "P30 bytes of a freed big block survive"); }
        bool given = false; for(uint64_t i = ev0; i < env_nev; i++) given |= env_ev[i].op == EV_MADVISE && env_ev[i].a <= (uint64_t) p && env_ev[i].a + env_ev[i].n >= (uint64_t) p + n;
        sx_assert(given, "P30 the pages of a freed big block are not handed back");
    } else { sx_reach("gone"); bool ok = true; for(uint64_t a = (uint64_t) p & ~4095ull; a < (uint64_t) p + n; a += 4096) ok &= sx_prot(a) == 255; sx_assert(ok, "P30,P12 a released big block is partly mapped"); }
    bool ok = true; for(uint64_t i = 0; i < sz; i++) ok &= other[i] == 0x5a;
    sx_assert(ok && hx_live(other, sz), "P30,P05 another big block was written");
    hx_no_locks("P30 lock leaked");
}
