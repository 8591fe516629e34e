// Blocks past 64 KB: the lists they are on, reuse, retirement, permanent release, metadata canaries.
// P16 P09 P10 P12 P17 P06
#include "hx.h"
#define MAXK 70
static uint64_t up[MAXK], md[MAXK]; static int nu; // blocks in use, newest first
static uint64_t fp[MAXK], fm[MAXK]; static int nf; // cached blocks
static void grab(void) {
    nu = nf = 0;
    for(big_t *b = _root->big_zone_used ? b_unmask(_root->big_zone_used) : NULL; b && nu < MAXK; b = b->next ? b_unmask(b->next) : NULL) { up[nu] = (uint64_t) b->user_pages_start; md[nu++] = (uint64_t) b; }
    for(big_t *b = _root->big_zone_free ? b_unmask(_root->big_zone_free) : NULL; b && nf < MAXK; b = b->next ? b_unmask(b->next) : NULL) { fp[nf] = (uint64_t) b->user_pages_start; fm[nf++] = (uint64_t) b; }
}
// the lists hold exactly what they did, except that `gone` left and `come` joined (0: nobody)
static void list_is(bool used, uint64_t *was, int n, uint64_t gone, uint64_t come, const char *id) {
    int k = 0; bool seen = false;
    for(big_t *b = (used ? _root->big_zone_used : _root->big_zone_free) ? b_unmask(used ? _root->big_zone_used : _root->big_zone_free) : NULL; b; b = b->next ? b_unmask(b->next) : NULL) {
        uint64_t a = (uint64_t) b; bool old = false;
        for(int i = 0; i < n; i++) old |= was[i] == a;
        sx_assert(a != gone, id);
        if(!old) { sx_assert(come != 0 && (a == come || come == 1) && !seen, id); seen = true; }
        sx_assert(b->free == !used, "P16 a block is on the wrong list");
        if(++k > MAXK + 2) break;
    }
    sx_assert(k == n - (gone != 0) + (come != 0), id);
    sx_assert((used ? _root->big_zone_used_count : _root->big_zone_free_count) == k, "P16 the count of big blocks is wrong");
    sx_assert(seen == (come != 0), id);
}
#ifndef NF
#define NF 2
#endif
static uint64_t fs[MAXK]; static uint32_t ft[MAXK];
//@job prop=P16,P01,P02,P05,P08 entry=h_big_alloc cfg=base,nomask,bigguard,protbig defs="NF=2" tier=quick timeout=200 reach=reused,fresh bound="one request of any size past 64 KB with 2 cached blocks of any page-multiple sizes up to 4 GB and any use counts, 2 blocks in use"
//@job prop=P16,P01,P02,P05,P08 entry=h_big_alloc cfg=base,release,nothreads,spinlock,sanity,profiler defs="NF=3" tier=thorough timeout=300 reach=reused,fresh bound="as above with 3 cached blocks"
void h_big_alloc(void) {
    hx_init();
    void *q[NF], *u0 = iso_alloc(70000);
    for(int i = 0; i < NF; i++) q[i] = iso_alloc(100000 + 50000 * i);
    void *u1 = iso_alloc(300000);
    for(int i = 0; i < NF; i++) iso_free_size(q[i], 70000);
    grab();
    sx_assert(nf == NF && nu == 2, "P16 released blocks are not cached");
    for(int i = 0; i < NF; i++) { big_t *b = (big_t *) fm[i]; fs[i] = sx_u64("size"); sx_assume(fs[i] > 65536 && fs[i] <= 0x100000000ull && (fs[i] & 4095) == 0); b->size = fs[i]; ft[i] = sx_u32("uses"); b->ttl = ft[i]; }
    env_record_only = 1; env_record_size = 0x100100000;
    uint64_t n = sx_u64("n"); sx_assume(n > 65536);
    uint64_t need = (n + 4095) & ~4095ull; bool can = n <= 0x100000000ull;
    uint64_t e0 = env_nev;
    uint64_t p = (uint64_t) iso_alloc(n);
    if(p == 0) { sx_assert(!can, "P08,P02 a request fails although memory is available"); list_is(true, md, nu, 0, 0, "P16,P02 a failed request changed a list"); list_is(false, fm, nf, 0, 0, "P16,P02 a failed request changed a list"); return; }
    sx_assert(can, "P02 a request past the limit succeeds");
    for(int i = 0; i < nu; i++) sx_assert(p != up[i], "P01,P16 a block in use is handed out");
    int k = -1; for(int i = 0; i < nf; i++) if(p == fp[i]) k = i;
    big_t *b = b_find(_root->big_zone_used, (void *) p);
    sx_assert(b != NULL && !b->free, "P16 a new block is not on the list of blocks in use");
    sx_assert(b->size >= n, "P01,P02,P16 a block is smaller than the request");
    if(k >= 0) {
        sx_reach("reused");
        sx_assert(fs[k] >= need && fs[k] - need <= 2 * 8192, "P16 a cached block that does not fit is reused");
        sx_assert(b->size == fs[k] && (uint64_t) b == fm[k], "P16 the metadata of a reused block changed");
        sx_assert(b->ttl == ft[k] + 1, "P16 the use count of a reused block is not advanced");
        list_is(true, md, nu, 0, fm[k], "P16 list of blocks in use after a reuse");
        list_is(false, fm, nf, fm[k], 0, "P16 list of cached blocks after a reuse");
#if PROTECT_FREE_BIG_ZONES
        bool opened = false; for(uint64_t e = e0; e < env_nev; e++) if(env_ev[e].op == EV_MPROTECT && env_ev[e].a == p && env_ev[e].n >= fs[k] && env_ev[e].x == 3) opened = true;
        sx_assert(opened, "P01,P16 a reused block stays inaccessible");
#endif
    } else {
        sx_reach("fresh");
        for(int i = 0; i < nf; i++) sx_assert(!(fs[i] >= need && fs[i] - need <= 2 * 8192), "P16,P05 a cached block that fits is not reused");
        bool ok = false; for(uint64_t e = e0; e < env_nev; e++) if(env_ev[e].op == EV_MMAP && env_ev[e].ret == 0 && p >= env_ev[e].a && p < env_ev[e].a + 8192) ok = env_ev[e].n >= (p - env_ev[e].a) + n && b->size <= env_ev[e].n - (p - env_ev[e].a);
        sx_assert(ok, "P01,P16 a new block is not backed by its own mapping");
        sx_assert(b->ttl == 1, "P16 the use count of a new block");
        list_is(true, md, nu, 0, (uint64_t) b, "P16 list of blocks in use after a request");
        list_is(false, fm, nf, 0, 0, "P16 list of cached blocks after a request");
        uint64_t c = (uint64_t) b ^ __builtin_bswap64(p) ^ _root->big_zone_canary_secret;
        sx_assert(b->canary_a == c && b->canary_b == c, "P10,P16 metadata canaries of a new block");
        sx_assert(((uint64_t) b & 4095) + sizeof(big_t) <= 4096, "P12,P16 metadata crosses its page");
    }
    hx_no_locks("P25,P16 lock left held");
}
#ifndef FILL
#define FILL 1
#endif
//@job prop=P16,P05,P09,P12 entry=h_big_free cfg=base,bigguard,protbig,sanitize defs="FILL=1" tier=quick timeout=200 reach=cached,unmapped,permanent bound="release of any of 3 blocks in use, 3 ways, any use count, 1 cached block"
//@job prop=P16,P05,P09,P12 entry=h_big_free cfg=base defs="FILL=63" tier=quick timeout=200 reach=cached,unmapped,permanent bound="as above, 63 cached blocks"
//@job prop=P16,P05,P09,P12 entry=h_big_free cfg=base,bigguard defs="FILL=64" tier=quick timeout=200 reach=full,permanent bound="as above, 64 cached blocks"
//@job prop=P16,P05,P09,P12 entry=h_big_free cfg=nomask,nothreads,spinlock,nocanary,release,sanity,profiler defs="FILL=1" tier=thorough timeout=200 reach=cached,unmapped,permanent bound="release of any of 3 blocks in use, 3 ways, any use count, 1 cached block"
void h_big_free(void) {
    hx_init();
    env_strict_unmap = 1;
    void *c[FILL + 1]; for(int i = 0; i < FILL; i++) c[i] = iso_alloc(66000);
    uint64_t rss0 = env_rss_pages;
    void *t = iso_alloc(80000); uint64_t cost = env_rss_pages - rss0; iso_free_permanently(t);
    void *q[3] = { iso_alloc(80000), iso_alloc(80000), iso_alloc(80000) };
    for(int i = 0; i < FILL; i++) iso_free_size(c[i], 66000);
    grab();
    sx_assert(nf == FILL && nu == 3, "P16 released blocks are not cached");
    for(int i = 0; i < 3; i++) { *(uint64_t *) q[i] = 50 + i; *(uint64_t *) ((uint64_t) q[i] + 81912) = 60 + i; }
    int k = sx_choose("which", 3); big_t *b = b_find(_root->big_zone_used, q[k]); uint64_t meta = (uint64_t) b, mp = meta & ~4095ull, sz = b->size, p = (uint64_t) q[k];
    uint32_t ttl = sx_u32("uses"); sx_assume(ttl >= 1); b->ttl = ttl;
    uint64_t rss = env_rss_pages;
    int how = sx_choose("how", 4);
    switch(how) { case 0: iso_free(q[k]); iso_flush_caches(); break; case 1: iso_free_size(q[k], 80000); break; case 2: iso_free_size(q[k], 65537); break; case 3: iso_free_permanently(q[k]); break; }
    for(int i = 0; i < 3; i++) if(i != k) sx_assert(*(uint64_t *) q[i] == 50 + i && *(uint64_t *) ((uint64_t) q[i] + 81912) == 60 + i && hx_live(q[i], 80000), "P05,P09 releasing a big block changed another");
    if(how == 3) {
        sx_reach("permanent");
        sx_assert(hx_pages(p, sz, 0) && sx_prot(mp) == 0, "P09 a permanently released big block or its metadata is still accessible");
        sx_assert(env_rss_pages == rss, "P09 a permanent release unmaps pages");
        list_is(true, md, nu, meta, 0, "P16,P09 list of blocks in use after a permanent release");
        list_is(false, fm, nf, 0, 0, "P16,P09 list of cached blocks after a permanent release");
    } else {
        list_is(true, md, nu, meta, 0, "P16,P05 list of blocks in use after a release");
        if(FILL < 64 && ttl < 16) {
            sx_reach("cached");
            list_is(false, fm, nf, 0, meta, "P16 a released block is not cached");
            sx_assert(b->size == sz && b->ttl == ttl && b->user_pages_start == q[k], "P16 the metadata of a cached block changed");
            sx_assert(env_rss_pages == rss, "P16 a cached block is unmapped");
#if PROTECT_FREE_BIG_ZONES
            sx_assert(hx_pages(p, sz, 0), "P16 a cached block is accessible");
#endif
            void *r = iso_alloc(80000);
            sx_assert(r == q[k], "P05,P16 a cached block of the right size is not reused");
            sx_assert(hx_pages(p, sz, 3), "P01,P16 a reused block is not accessible");
        } else {
            if(FILL == 64) sx_reach("full"); else sx_reach("unmapped");
            list_is(false, fm, nf, 0, 0, "P16 a block that should be unmapped is cached");
            sx_assert(sx_prot(p) == 255 && sx_prot(p + sz - 1) == 255, "P16 the pages of a released big block stay mapped");
            sx_assert(sx_prot(mp) == 255, "P16 the metadata page of a released big block stays mapped");
            sx_assert(env_rss_pages == rss - cost, "P16,P12 a released big block does not give all its pages back");
        }
    }
    hx_no_locks("P25,P16 lock left held");
}
//@job prop=P16 entry=h_big_uses cfg=base,bigguard tier=quick timeout=100 reach=end bound="one block used 16 times in a row; any size in its page range"
void h_big_uses(void) {
    hx_init();
    env_strict_unmap = 1;
    uint64_t rss = env_rss_pages; void *p0 = NULL;
    uint64_t n = sx_u64("n"); sx_assume(n > 90000 && n <= 94208 && n > 94208 - 4096);
    for(int i = 0; i < 16; i++) {
        void *p = iso_alloc(n);
        if(i == 0) p0 = p;
        sx_assert(p == p0, "P16 a cached block of the right size is not reused");
        sx_assert(env_rss_pages > rss, "P16 mapping");
        iso_free_size(p, 90000);
    }
    sx_assert(env_rss_pages == rss && _root->big_zone_free == NULL && _root->big_zone_free_count == 0 && _root->big_zone_used_count == 0, "P16 a block used 16 times is not given back");
    sx_reach("end");
}
// metadata canaries: any altered word of the two is noticed when the block is visited
//@job prop=P10,P16,P17 entry=h_big_canary cfg=base,nomask,spinlock tier=quick timeout=120 reach=call,intact bound="2 blocks in use and 2 cached; one canary word of one of them any value; every operation that visits it"
void h_big_canary(void) {
    hx_init();
    void *q[4]; static const uint64_t sz[] = { 70000, 90000, 120000, 150000 };
    for(int i = 0; i < 4; i++) q[i] = iso_alloc(sz[i]);
    iso_free_size(q[2], 70000); iso_free_size(q[3], 70000);
    int k = sx_choose("which", 4);
    big_t *b = b_find(k < 2 ? _root->big_zone_used : _root->big_zone_free, q[k]);
    uint64_t v = sx_u64("value"), *w = sx_choose("word", 2) ? &b->canary_b : &b->canary_a;
    bool bad = v != *w; *w = v;
    sx_abort_allowed(bad);
    sx_reach("call");
    int op = sx_choose("op", 6); bool visits = true; void *r = NULL;
    switch(op) {
    case 0: iso_verify_zones(); break;
    case 1: iso_free(q[0]); iso_flush_caches(); visits = k == 0 || k == 1; break; // used list: 1, 0
    case 2: iso_free_permanently(q[1]); visits = k == 1; break;
    case 3: visits = k == 1 || k == 0; if(iso_chunksz(q[0]) != 73728) sx_assert(0, "P17 size"); break;
    case 4: r = iso_alloc(120000); visits = k >= 2; sx_assert(r == q[2], "P16 reuse"); break; // free list: 3, 2
    case 5: iso_free_size(q[1], 90000); visits = k == 1; break;
    }
    sx_assert(!(bad && visits), "P10 an altered metadata canary goes unnoticed");
    if(!bad) sx_reach("intact");
}
//@job prop=P12 entry=h_big_meta cfg=bigguard tier=quick timeout=100 reach=end bound="one request, any random seed: where the metadata goes"
//@job prop=P12,P16,P10 entry=h_big_meta cfg=base tier=thorough timeout=100 reach=end bound="one request, any random seed: where the metadata goes"
void h_big_meta(void) {
    hx_init();
    _root->seed = sx_u64("seed");
    uint64_t e0 = env_nev;
    uint64_t p = (uint64_t) iso_alloc(70000);
    uint64_t b = (uint64_t) b_unmask(_root->big_zone_used), lo = 0;
    for(uint64_t e = e0; e < env_nev; e++) if(env_ev[e].op == EV_MMAP && !(p >= env_ev[e].a && p < env_ev[e].a + env_ev[e].n)) lo = env_ev[e].a + (env_ev[e].n > 4096 ? 4096 : 0);
    sx_assert(lo != 0 && b - lo <= 4096 - sizeof(big_t), "P12,P16 the metadata of a big block crosses its page");
    sx_reach("end");
}
