// P02 P03 P18: every requested size, one symbolic 64-bit value at a time.
#include "hx.h"
#include <errno.h>
void *hk_malloc(size_t); void *hk_calloc(size_t, size_t); void *hk_realloc(void *, size_t); void *hk_reallocarray(void *, size_t, size_t); void *hk_aligned_alloc(size_t, size_t); void *hk_memalign(size_t, size_t); int hk_posix_memalign(void **, size_t, size_t); void hk_free(void *); size_t hk_malloc_usable_size(void *); void *hk___libc_malloc(size_t); void *hk___libc_calloc(size_t, size_t); void *hk___libc_realloc(void *, size_t); void *hk___libc_memalign(size_t, size_t);
#define LIMIT 4294967296ull
enum { E_ALLOC, E_CALLOC1, E_CALLOCN, E_REALLOC, E_REALLOC0, E_REALLOCARRAY, E_MALLOC, E_POSIX, E_ALIGNED, E_MEMALIGN, E_LIBC_MALLOC, E_MAX };
static void *request(int ep, uint64_t n, void *old) {
    void *r = NULL;
    switch(ep) {
    case E_ALLOC: return iso_alloc(n);
    case E_CALLOC1: return iso_calloc(1, n);
    case E_CALLOCN: return iso_calloc(n, 32);
    case E_REALLOC: return iso_realloc(old, n);
    case E_REALLOC0: return iso_realloc(NULL, n);
    case E_REALLOCARRAY: return iso_reallocarray(old, 1, n);
    case E_MALLOC: return hk_malloc(n);
    case E_POSIX: return hk_posix_memalign(&r, 16, n) == 0 ? r : NULL;
    case E_ALIGNED: return hk_aligned_alloc(16, n);
    case E_MEMALIGN: return hk_memalign(16, n);
    case E_LIBC_MALLOC: return hk___libc_malloc(n);
    }
    return NULL;
}
// is [p, p+n) inside one mapping made since event `from`, outside every range made inaccessible since?
static bool mapped_since(uint64_t from, uint64_t p, uint64_t n) {
    bool in = false, hit = false;
    for(uint64_t i = from; i < env_nev; i++) {
        env_ev_t *e = &env_ev[i];
        if(e->op == EV_MMAP && e->ret == 0 && p - e->a < env_record_size && (p - e->a) + n <= e->n && n <= e->n) in = true;
        if(e->op == EV_MPROTECT && e->x != 3 && e->a < p + n && e->a + e->n > p) hit = true;
    }
    return in && !hit;
}
// sizes handled by the big path, up to the largest 64-bit value
//@job prop=P02,P01,P04,P08,P12 entry=h_size_big cfg=base,release,bigguard,sanity tier=quick timeout=120 reach=null,block,reused bound="n any 64-bit value above 65536 (times 32 for one calloc form); 11 entry points; one cached 128 KB free big block; lengths given to mmap/mprotect stay symbolic"
//@job prop=P02,P01,P04,P08,P12 entry=h_size_big cfg=nomask,nothreads,named,nocanary tier=thorough timeout=120 reach=null,block,reused bound="n any 64-bit value above 65536 (times 32 for one calloc form); 11 entry points; one cached 128 KB free big block; lengths given to mmap/mprotect stay symbolic"
void h_size_big(void) {
    hx_init();
    void *keep = iso_alloc(100); *(uint64_t *) keep = 0x1122334455667788ull;
    void *old = iso_alloc(40); *(uint64_t *) old = 77;
    void *c = iso_alloc(131072); iso_free(c); iso_flush_caches();
    int ep = sx_choose("entry", E_MAX);
    uint64_t n = sx_u64("n");
    sx_assume(n > SMALL_SIZE_MAX);
    uint64_t want = ep == E_CALLOCN ? n * 32 : n;
    bool over = ep == E_CALLOCN && (n >> 59) != 0;
    uint64_t from = env_nev;
    env_record_only = 1; env_record_size = 0x100100000ull;
    void *p = request(ep, n, old);
    hx_no_locks("P25,P02 lock left held by a sized request");
    if(p == NULL) {
        sx_reach("null");
        // only requests past the limit fail (calloc and reallocarray products live in 32 bits)
        sx_assert(over || want > LIMIT || ((ep == E_CALLOC1 || ep == E_CALLOCN || ep == E_REALLOCARRAY) && want > LIMIT - 4096), "P02,P08 a request within the limit fails");
        sx_assert(hx_live(old, 40) && *(uint64_t *) old == 77, "P02,P04 a failed request released the old block");
    } else {
        sx_reach("block");
        sx_assert(!over && want <= LIMIT, "P02 a request past the limit succeeds");
        sx_assert(((uint64_t) p & 7) == 0, "P01 misaligned");
        big_t *b = b_find(_root->big_zone_used, p);
        sx_assert(b != NULL && !b->free, "P01,P02,P16 big block not on the in-use list");
        sx_assert(b->size >= want, "P02 recorded size is smaller than the request");
        if(p == c) { sx_reach("reused"); sx_assert(want <= 131072, "P01,P02,P16 a cached block is too small"); sx_assert(hx_pages((uint64_t) p, 131072, 3), "P16 a reused block is not accessible"); }
        else sx_assert(mapped_since(from, (uint64_t) p, want), "P01,P02,P12 the mapping behind a big block does not cover it");
#if BIG_ZONE_GUARD
        if(p != c) {
            bool lo = false, hi = false;
            for(uint64_t i = from; i < env_nev; i++) if(env_ev[i].op == EV_MPROTECT && env_ev[i].x == 0 && env_ev[i].n >= 4096) { lo |= env_ev[i].a + env_ev[i].n == (uint64_t) p; hi |= env_ev[i].a == (uint64_t) p + b->size; }
            sx_assert(lo && hi, "P12 a big block lacks a guard page");
        }
#endif
        *(volatile uint8_t *) p = *(volatile uint8_t *) p;
        if(ep == E_REALLOC || ep == E_REALLOCARRAY) sx_assert(*(uint64_t *) p == 77 && !hx_live(old, 40), "P04 resize to a big block lost the contents or kept the old block");
    }
    sx_assert(hx_live(keep, 100) && *(uint64_t *) keep == 0x1122334455667788ull, "P02 a sized request changed another block");
}
// the same with real mappings: first and last byte of blocks at the edges
static const uint64_t bigs[] = { 65537, 65568, 69632, 69633, 100000, 126976, 131071, 131072, 131073, 135168, 262144, 4194304, 4194305, 16777215 };
//@job prop=P01,P02,P16 entry=h_size_big_real cfg=base,bigguard,protbig tier=quick timeout=120 reach=block bound="14 sizes at page and class edges, 11 entry points, real mapping sizes; any byte offset of the block"
void h_size_big_real(void) {
    hx_init();
    void *old = iso_alloc(40);
    void *c = iso_alloc(131072); iso_free(c); iso_flush_caches();
    int ep = sx_choose("entry", E_MAX);
    uint64_t n = bigs[sx_choose("size", sizeof(bigs) / 8)];
    void *p = ep == E_CALLOCN ? iso_calloc((n + 31) / 32, 32) : request(ep, n, old);
    sx_assert(p != NULL, "P02,P08 a request within the limit fails");
    sx_reach("block");
    uint64_t i = sx_u64("i"); sx_assume(i < n);
    ((volatile uint8_t *) p)[i] = 0x5a;
    sx_assert(((volatile uint8_t *) p)[i] == 0x5a, "P01 byte of a big block");
    sx_assert(hx_usize(p) >= n, "P02 recorded size is smaller than the request");
    iso_free(p); iso_flush_caches();
    sx_assert(b_find(_root->big_zone_used, p) == NULL, "P16 a freed big block stays on the in-use list");
}
// sizes up to the small limit
static const uint64_t mids[] = { 1025, 1056, 2048, 2049, 4095, 4097, 8192, 8193, 8224, 8225, 10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 64512, 65504, 65505, 65535, 65536 };
//@job prop=P02,P01,P13 entry=h_size_small cfg=base,small tier=quick timeout=200 reach=block bound="every n in 1..8192 (1..1024 with the small start-up zones) and 24 sizes up to 65536; fresh heap (default zones) plus one private zone, three requests of the same size"
//@job prop=P02,P01,P13 entry=h_size_small cfg=strong,sanity,nothreads,experimental,norand,cpupin,nomask,nocanary tier=thorough timeout=200 reach=block bound="every n in 1..8192 (1..1024 with the small start-up zones) and 24 sizes up to 65536; fresh heap (default zones) plus one private zone, three requests of the same size"
void h_size_small(void) {
    hx_init();
    iso_alloc_zone_handle *h; zone_t *pz = hx_private(4096, &h);
    void *keep = iso_alloc(100);
    uint64_t n;
    int k = sx_choose("large", 1 + sizeof(mids) / 8);
    if(k == 0) { n = sx_u64("n"); sx_assume(n >= 1 && n <= (SMALL_MEM_STARTUP ? 1024 : 8192)); } else n = mids[k - 1];
    sx_fork_region((uint64_t) _root->zones);
    void *p = iso_alloc(n);
    sx_assert(p != NULL, "P02,P08 a small request fails");
    sx_reach("block");
    zone_t *z = z_of((uint64_t) p);
    sx_assert(z != NULL && z->internal && z != pz, "P13 served from a private zone");
    sx_assert(z->chunk_size >= n, "P02 chunk smaller than the request");
    sx_assert(n <= 1024 || z->chunk_size < 8 * ((n + 31) & ~31ull), "P13 wasteful zone for the size");
    sx_assert(hx_live(p, n) && p != keep, "P01 the block is not live");
    *(volatile uint8_t *) ((uint64_t) p + n - 1) = 1;
    void *q = iso_alloc(n), *r = iso_alloc(n);
    sx_assert(p != q && q != r && p != r && hx_live(p, n) && hx_live(q, n) && hx_live(r, n) && hx_live(keep, 100), "P01 three requests of one size overlap");
    hx_no_locks("P25,P02 lock left held");
}
// products: one factor from a list of edge values, the other any 64-bit value
static const uint64_t edge[] = { 0, 1, 2, 3, 1ull << 31, 0xffffffffull, 31, 32, 1ull << 32, (1ull << 32) + 1, 33, 4096, 1ull << 63, ~0ull - 30, 65535, 65537, ~0ull };
#ifndef PART
#define PART 0
#endif
//@job prop=P02,P03 entry=h_calloc cfg=base defs="PART=0" split=2 tier=quick timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 0 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
//@job prop=P02,P03 entry=h_calloc cfg=base defs="PART=1" split=2 tier=quick timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 1 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
//@job prop=P02,P03 entry=h_calloc cfg=base defs="PART=2" split=2 tier=quick timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 2 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
//@job prop=P03 entry=h_calloc cfg=base defs="PART=3" split=6 tier=quick timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 3 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
//@job prop=P02,P03 entry=h_calloc cfg=release,sanitize defs="PART=0" tier=thorough timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 0 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
//@job prop=P02,P03 entry=h_calloc cfg=release,sanitize defs="PART=1" tier=thorough timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 1 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
//@job prop=P02,P03 entry=h_calloc cfg=release,sanitize defs="PART=2" tier=thorough timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 2 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
//@job prop=P02,P03 entry=h_calloc cfg=release,sanitize defs="PART=3" tier=thorough timeout=200 ttimeout=400 reach=null,block,zero bound="calloc: one factor among 17 edge values (part 3 of 4), the other any 64-bit value whose product is 0 or above 65536 or overflows; either order; any byte of the block"
void h_calloc(void) {
    hx_init();
    void *keep = iso_alloc(64); *(uint64_t *) keep = 5;
    int e = sx_choose("edge", PART == 3 ? 5 : 4);
#ifdef SPLIT
    if(PART == 3 && e % 3 != SPLIT >> 1) sx_stop();
#endif
    uint64_t a = edge[e + PART * 4], b = sx_u64("b");
    int swap = sx_choose("swap", 2);
#ifdef SPLIT
    if(swap != (SPLIT & 1)) sx_stop();
#endif
    unsigned __int128 prod = (unsigned __int128) a * b;
    sx_assume(prod == 0 || prod > SMALL_SIZE_MAX);
    env_record_only = 1; env_record_size = 0x100100000ull;
    void *p = swap ? iso_calloc(a, b) : iso_calloc(b, a);
    if(p == NULL) {
        sx_reach("null");
        // sizes are rounded to 32 before the product is formed; the product must fit 32 bits
        uint64_t size = swap ? b : a, cnt = swap ? a : b;
        unsigned __int128 up = size < 32 ? 32 : ((unsigned __int128) size + 31) & ~(unsigned __int128) 31;
        sx_assert(prod > 0x7fffffff || up * cnt > 0xffffffffull, "P02 calloc fails although the product fits");
    } else if(HX_ISZERO(p)) {
        sx_reach("zero");
        sx_assert(prod == 0, "P02,P03 the zero page stands for a non-empty request");
    } else {
        sx_reach("block");
        sx_assert((prod >> 64) == 0 && (uint64_t) prod <= LIMIT, "P02,P03 an overflowing product succeeds");
        uint64_t sz = (uint64_t) prod;
        if(sz != 0) {
            sx_assert(hx_usize(p) >= sz, "P02,P03 block smaller than the product");
            uint64_t i = sx_u64("i");
            sx_assume(i < sz);
            sx_assert(((uint8_t *) p)[i] == 0, "P03 a byte of the zeroed block is not zero");
        }
    }
    sx_assert(*(uint64_t *) keep == 5, "P02 calloc changed another block");
}
// products in the small range, over memory that held data before it was freed
//@job prop=P03,P02 entry=h_calloc_dirty cfg=base,sanitize,tagging,nocanary tier=quick timeout=240 reach=block bound="calloc with element size among {1,3,8,24,100} and any count with product 1..4096; every chunk involved was previously filled with symbolic bytes, freed and flushed"
void h_calloc_dirty(void) {
    hx_init();
    static const uint64_t es[] = { 1, 3, 8, 24, 100 };
    uint64_t e = es[sx_choose("esize", 5)], cnt = sx_u64("cnt");
    sx_assume(cnt > 0 && cnt <= 4096 && e * cnt <= 4096);
    // the rounding makes the block bigger than the product; fix the class by forking
    uint64_t r = e < 32 ? 32 : (e + 31) & ~31ull, cls = 32;
    while(cls < r * cnt && cls < 65536) cls *= 2;
    sx_assume(r * cnt <= 65536);
    cls = sx_concrete(cls);
    // reuse exactly one chunk: free it and make it the only cached slot of its zone
    uint8_t *q = iso_alloc(cls);
    zone_t *z = z_of((uint64_t) q);
    uint8_t v = sx_u8("dirt");
    __builtin_memset(q, v, cls);
    iso_free_size(q, cls);
    z->next_free_bit_slot = ((uint64_t) q - z_user(z)) / z->chunk_size * 2;
    uint8_t *p = iso_calloc(cnt, e);
    sx_assert(p != NULL && hx_usize(p) >= e * cnt, "P02,P03 too small");
    sx_reach("block");
    uint64_t i = sx_u64("i");
    sx_assume(i < e * cnt);
    sx_assert(p[i] == 0, "P03 stale byte in zeroed memory");
}
// a zeroed big block made from a cached one that held data
//@job prop=P03,P16 entry=h_calloc_big cfg=base,sanitize,protbig tier=quick timeout=240 reach=reused,fresh bound="one or two big blocks of 2 sizes with one arbitrary byte value at 7 places each, released in 3 ways, then a zeroed request of 6 sizes with 4 shapes; every byte of the result"
//@job prop=P03,P16 entry=h_calloc_big cfg=release,nomask,tagging,bigguard,sanity,nothreads tier=thorough timeout=240 reach=reused,fresh bound="as above in other builds"
void h_calloc_big(void) {
    hx_init();
    static const uint64_t SZ[] = { 69632, 262144 };
    uint64_t sz = SZ[sx_choose("held", 2)]; int two = sx_choose("two", 2); uint8_t v = sx_u8("dirt"); uint8_t *q[2];
    for(int k = 0; k <= two; k++) {
        q[k] = iso_alloc(sz); uint64_t us = hx_usize(q[k]);
        const uint64_t at[] = { 0, 1, 4095, 65535, us / 2 + 3, us - 4097, us - 1 };
        for(int i = 0; i < 7; i++) q[k][at[i]] = v;
    }
    int how = sx_choose("how", 3);
    for(int k = 0; k <= two; k++) if(how == 0) { iso_free(q[k]); iso_flush_caches(); } else if(how == 1) iso_free_size(q[k], sz); else iso_free_permanently(q[k]);
    const uint64_t N[] = { sz, sz - 31, sz - 4096, sz + 4096, 66000, 2 * sz }; static const uint64_t E[] = { 1, 3, 32, 4100 };
    uint64_t n = N[sx_choose("size", 6)], e = E[sx_choose("element", 4)], cnt = (n + e - 1) / e;
    uint8_t *p = iso_calloc(cnt, e);
    sx_assert(p != NULL && hx_usize(p) >= e * cnt, "P03 too small");
    if(p == q[0] || (two && p == q[1])) sx_reach("reused"); else sx_reach("fresh");
    uint64_t i = sx_u64("i"); sx_assume(i < e * cnt);
    sx_assert(p[i] == 0, "P03 stale byte in zeroed memory");
}
// zero-size requests
static void *zero_req(int k, void *old) {
    void *r = NULL;
    switch(k) {
    case 0: return iso_alloc(0);
    case 1: return iso_calloc(0, 8);
    case 2: return iso_calloc(0, 100);
    case 3: return iso_realloc(NULL, 0) == NULL ? _root->zero_alloc_page : NULL; // resizing to zero frees
    case 4: return hk_malloc(0);
    case 5: return hk_aligned_alloc(16, 0);
    case 6: return hk_memalign(16, 0);
    case 7: return hk_calloc(0, 1);
    case 8: return hk___libc_malloc(0);
    case 9: return hk___libc_memalign(8, 0);
    case 10: return hk___libc_calloc(0, 4);
    }
    return NULL;
}
static void zero_free(int k, void *p) {
    switch(k) {
    case 0: iso_free(p); break;
    case 1: iso_free_permanently(p); break;
    case 2: iso_free_size(p, 0); break;
    case 3: hk_free(p); break;
    case 4: (void) !iso_realloc(p, 0); break;
    case 5: { void *q = iso_realloc(p, 24); sx_assert(q != NULL && hx_live(q, 24), "P18 resizing the zero-size block does not allocate"); iso_free_size(q, 24); break; }
    }
}
//@job prop=P18 entry=h_zero cfg=base,release,nothreads,tagging tier=quick timeout=60 reach=freed bound="11 zero-size request forms, 6 release forms applied twice, any order"
//@job prop=P18 entry=h_zero cfg=sanity,uaf,strong,profiler tier=thorough timeout=60 reach=freed bound="11 zero-size request forms, 6 release forms applied twice, any order"
void h_zero(void) {
    hx_init();
    void *live = iso_alloc(32), *big = iso_alloc(100000);
    int k = sx_choose("entry", 11);
    void *p = zero_req(k, NULL);
    sx_assert(p != NULL, "P18 zero-size request returns NULL");
    sx_assert(p == _root->zero_alloc_page, "P18 zero-size request returns something else");
    sx_assert(sx_prot((uint64_t) p) == 0, "P18 the zero-size block is accessible");
    sx_assert(((uint64_t) p & 4095) == 0 && z_of((uint64_t) p) == NULL && b_find(_root->big_zone_used, p) == NULL, "P18 the zero-size block aliases a real block");
    sx_assert(iso_chunksz(p) == 0, "P17,P18 the zero-size block has a size");
    uint64_t q0 = _root->chunk_quarantine_count;
    int f = sx_choose("free", 6), g = sx_choose("free2", 6);
    zero_free(f, p);
    zero_free(g, p);
    iso_flush_caches();
    sx_assert(_root->chunk_quarantine_count == 0 && q0 == 0, "P18 the zero-size block entered the quarantine");
    sx_assert(iso_alloc(0) == p && sx_prot((uint64_t) p) == 0, "P18 the zero-size address changed");
    sx_assert(hx_live(live, 32) && hx_live(big, 100000), "P18 freeing the zero-size block changed another block");
    hx_no_locks("P18 lock left held");
    sx_reach("freed");
}
//@job prop=P18 entry=h_zero_size_abort cfg=base tier=quick timeout=60 reach=call bound="sized free of the zero-size block with any non-zero 64-bit size"
void h_zero_size_abort(void) {
    hx_init();
    void *p = iso_alloc(0);
    uint64_t n = sx_u64("n");
    sx_assume(n != 0);
    sx_abort_allowed(true);
    sx_reach("call");
    iso_free_size(p, n);
    sx_must_not_return(true, "P15,P18 a sized free of the zero-size block with a size returns");
}
// the very first call is a zero-size request (no constructor ran)
//@job prop=P18,P28 entry=h_zero_first cfg=base,nothreads,uaf,sanity,profiler tier=quick timeout=60 reach=done bound="the first allocator call is one of 9 zero-size requests or a small or big request"
void h_zero_first(void) {
    int k = sx_choose("entry", 11);
    void *p;
    if(k == 9) p = iso_alloc(24);
    else if(k == 10) p = iso_alloc(100000);
    else p = k == 3 ? hk_memalign(8, 0) : zero_req(k, NULL);
    sx_assert(p != NULL, "P18,P28 the first request returns NULL");
    sx_assert(_root != NULL && _root->zero_alloc_page != NULL && sx_prot((uint64_t) _root->zero_alloc_page) == 0, "P18,P28 lazy initialisation leaves no zero page");
    if(k < 9) sx_assert(p == _root->zero_alloc_page, "P18 the first zero-size request returns something else");
    else sx_assert(hx_live(p, 24), "P28 the first request is not served");
#if UAF_PTR_PAGE
    sx_assert(_root->uaf_ptr_page != NULL && sx_prot((uint64_t) _root->uaf_ptr_page) == 0, "P28,P34 lazy initialisation leaves no use-after-free page");
#endif
#if SIGNAL_HANDLER
    sx_assert(env_cnt[EV_SIGACTION] == 1, "P28,P34 lazy initialisation does not install the crash handler");
#endif
    iso_free(p);
    iso_flush_caches();
    sx_assert(iso_alloc(0) == _root->zero_alloc_page, "P18 zero page lost");
    hx_no_locks("P28 lock left held by the first request");
    void *root = _root;
    _iso_alloc_initialize();
    sx_assert(_root == root, "P28 a second initialisation replaced the root");
    void *r = iso_alloc(200000); sx_assert(hx_live(r, 200000), "P28 big block after lazy initialisation"); iso_free(r); iso_flush_caches();
    sx_reach("done");
}
// configurations that abort instead of returning NULL
//@job prop=P02 entry=h_abortnull cfg=abortnull tier=quick timeout=60 reach=call bound="any n above 4 GB"
void h_abortnull(void) {
    hx_init();
    uint64_t n = sx_u64("n");
    sx_assume(n > LIMIT);
    sx_abort_allowed(true);
    sx_reach("call");
    void *p = iso_alloc(n);
    sx_must_not_return(true, "P02 an impossible request returns in an abort-on-null build");
}
