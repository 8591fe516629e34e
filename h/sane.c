// Sampled, page isolated allocations of sanity builds. P24
#include "hx.h"
#include "iso_alloc_sanity.h"
static const uint64_t sizes[] = { 1, 16, 32, 33, 100, 256, 2000, 2048, 4000, 4064 };
static uint64_t rounded(uint64_t n) { return n < 32 ? 32 : (n + 31) & ~31ull; } // sizes are rounded up before they are served
static bool in_zone_or_big(void *p) { return z_of((uint64_t) p) != NULL || (_root->big_zone_used && b_find(_root->big_zone_used, p) != NULL); }
// an allocation that was sampled, with its block at the start (right = 0) or the end (right = 1) of its page
static uint64_t hint[2];
static void start(void) { hx_init(); for(int k = 0; (!hint[0] || !hint[1]) && k < 99999; k++) { uint64_t t = 77 + k * 12345ull, u = t; if(us_rand_uint64(&u) % SANITY_SAMPLE_ODDS == 1) { int r = us_rand_uint64(&u) & 1; if(!hint[r]) hint[r] = t; } } }
static void *sampled(uint64_t n, int right, int zeroed) {
    uint64_t s = hint[right];
    for(int k = 0; k < 40000; k++) {
        _root->seed = k == 0 && s ? s : 991 + k * 777777ull;
        void *p = zeroed ? iso_calloc(1, n) : iso_alloc(n);
        if(!in_zone_or_big(p)) { if((((uint64_t) p & 4095) != 0) == right) { if(k) hint[right] = 991 + k * 777777ull; return p; } }
        iso_free_size(p, 0);
    }
    sx_assert(false, "P24 no allocation is ever sampled this way"); sx_stop();
}
static void isolated(void *p, uint64_t n) {
    uint64_t a = (uint64_t) p, pg = a & ~4095ull;
    sx_assert(a % 8 == 0 && a + n <= pg + 4096, "P24,P01 a sampled block leaves its page or is misaligned");
    sx_assert(sx_prot(pg) == 3, "P24,P01 the page of a sampled block is not accessible");
    sx_assert(sx_prot(pg - 1) == 0 && sx_prot(pg + 4096) == 0, "P24,P12 the page of a sampled block has no guard pages");
    for(unsigned i = 0; i < _root->zones_used; i++) { zone_t *z = &_root->zones[i]; sx_assert(pg + 4096 <= z_user(z) || pg >= z_user(z) + ZONE_USER_SIZE, "P24,P01 a sampled block lies in a zone"); }
}
static void gone(void *p, const char *id) { uint64_t pg = (uint64_t) p & ~4095ull; sx_assert(sx_prot(pg) == 255 && sx_prot(pg - 4096) == 255 && sx_prot(pg + 4096) == 255, id); }
static uint64_t cache_sum(void) { uint64_t n = 0; for(int i = 0; i < SANE_CACHE_SIZE; i++) n += _sane_cache[i]; return n; }
static uint64_t entries(void) { uint64_t n = 0; for(int i = 0; i < MAX_SANE_SAMPLES; i++) n += _sane_allocations[i].address != NULL; return n; }
static void books(uint64_t n) { sx_assert(_sane_sampled == n && entries() == n && cache_sum() == n, "P24 the bookkeeping does not match the live samples"); }
static void release(int how, void *p, uint64_t n) {
    switch(how) { case 0: iso_free(p); break; case 1: iso_free_permanently(p); break; case 2: iso_free_size(p, n); break; default: sx_assert(iso_realloc(p, 0) == NULL, "P24,P04 realloc to 0"); }
}
//@job prop=P24,P01,P03 entry=h_sane_use cfg=sanity tier=quick timeout=200 reach=end bound="10 sizes up to a page, left and right aligned, plain and zeroed, 4 ways to release; any contents of the first, last and a middle word"
//@job prop=P24,P01,P03 entry=h_sane_use cfg=cleanup,sanity_spinlock,sanity_nothreads,sanity_libc,sanity_bigguard,sanity_tagging tier=thorough timeout=300 reach=end bound="as above in other builds"
void h_sane_use(void) {
    start();
    uint64_t n = sizes[sx_choose("size", 10)]; int right = sx_choose("right", 2), zero = sx_choose("zeroed", 2), how = sx_choose("release", 4);
    uint64_t e0 = env_rss_pages; (void) e0;
    void *p = sampled(n, right, zero); isolated(p, n); books(1);
    uint64_t u = iso_chunksz(p); sx_assert(u >= n && u == rounded(n), "P24,P17 usable size of a sampled block");
    if(zero) { bool z = true; for(uint64_t i = 0; i < n; i++) z &= ((uint8_t *) p)[i] == 0; sx_assert(z, "P24,P03 a zeroed sampled block is not zero"); }
    // every byte of the block may be written
    memset(p, 0xa5, u); for(int i = 0; i < 3; i++) { uint64_t o = i == 0 ? 0 : i == 1 ? u - 8 : (u / 2) & ~7ull; *(uint64_t *) ((uint8_t *) p + o) = sx_u64("content"); }
    void *q = sampled(40, right, 0); isolated(q, 40); books(2); memset(q, 1, 64);
    sx_assert(((uint64_t) q >> 12) != ((uint64_t) p >> 12), "P24 two samples share a page");
    release(how, p, n); gone(p, "P24 the pages of a released sample stay mapped"); books(1); isolated(q, 40);
    hx_no_locks("P25,P24 lock left held");
    void *r = iso_alloc(n); sx_assert(r != NULL && hx_live(r, n), "P24,P08 an ordinary allocation after a sampled one"); iso_free_size(r, n);
    release((how + 1) & 3, q, 40); gone(q, "P24 the pages of a released sample stay mapped"); books(0);
    iso_verify_zones(); sx_reach("end");
}
// resizing from and to samples keeps the contents
//@job prop=P24,P04 entry=h_sane_realloc cfg=sanity tier=quick timeout=200 reach=end bound="4 old and 4 new sizes, left and right aligned; any contents of 2 words"
void h_sane_realloc(void) {
    start();
    static const uint64_t ss[] = { 24, 100, 3000, 70000 };
    uint64_t n = ss[sx_choose("old", 3)], m = ss[sx_choose("new", 4)]; int right = sx_choose("right", 2);
    void *p = sampled(n, right, 0); uint64_t u = iso_chunksz(p); memset(p, 0x33, u);
    uint64_t a = sx_u64("first"), b = sx_u64("last"); *(uint64_t *) p = a; *(uint64_t *) ((uint8_t *) p + u - 8) = b;
    uint8_t *r = iso_realloc(p, m); sx_assert(r != NULL && hx_live(r, m), "P24,P04 resizing a sampled block");
    sx_assert(*(uint64_t *) r == a, "P24,P04 resizing a sampled block loses its contents");
    if(m >= u) sx_assert(*(uint64_t *) (r + u - 8) == b && r[u / 2] == 0x33, "P24,P04 resizing a sampled block loses its contents");
    gone(p, "P24,P04 the old sample was not released"); books(0);
    hx_no_locks("P25,P24 lock left held"); sx_reach("end");
}
// any changed byte of the slack is detected, whatever the release
//@job prop=P24 entry=h_sane_slack cfg=sanity tier=quick timeout=200 reach=go bound="4 sizes, left and right aligned, every 8 byte word of the page outside the block changed to any other value, 4 ways to release in turn"
//@job prop=P24 entry=h_sane_slack cfg=cleanup,sanity_spinlock,sanity_nothreads tier=thorough timeout=200 reach=go bound="as above in other builds"
void h_sane_slack(void) {
    start();
    static const uint64_t ss[] = { 1, 1000, 3000, 4064 };
    uint64_t n = ss[sx_choose("size", 4)], u = rounded(n); int right = sx_choose("right", 2);
    uint8_t *p = sampled(n, right, 0), *pg = (uint8_t *) ((uint64_t) p & ~4095ull);
    uint64_t w = sx_choose("word", (4096 - u) / 8), *a = (uint64_t *) (pg + (right ? 0 : u)) + w;
    uint64_t v = sx_u64("value"); sx_assume(v != *a); *a = v; sx_reach("go");
    sx_abort_allowed(true); release(w & 3, p, n);
    sx_must_not_return(true, "P24 a change to the slack of a sampled block goes unnoticed");
}
// interior pointers and sizes that do not fit are no way to release a sample; neither is a second time
//@job prop=P24,P06,P07,P15 entry=h_sane_bad cfg=sanity tier=quick timeout=200 reach=go bound="10 sizes, left and right aligned; every other address in the page, every larger size, released twice"
void h_sane_bad(void) {
    start();
    uint64_t n = sizes[sx_choose("size", 10)], u = rounded(n); int right = sx_choose("right", 2);
    uint8_t *p = sampled(n, right, 0), *q = p; uint64_t s = n; void *other = iso_alloc(500), *b = iso_alloc(80000); (void) other; (void) b;
    int kind = sx_choose("kind", 4);
    if(kind <= 1) { uint64_t o = sx_u64("offset"); sx_assume(o < 4096 && o != ((uint64_t) p & 4095)); q = (uint8_t *) ((uint64_t) p & ~4095ull) + o; if(kind == 0) sx_assume(((uint64_t) o & 7) == 0); sx_fork_region((uint64_t) _sane_cache); }
    if(kind == 2) { s = sx_u64("size"); sx_assume(s > u && s <= 65536); }
    if(kind == 3) iso_free(p);
    sx_abort_allowed(true); sx_reach("go");
    switch(sx_choose("release", 3)) { case 0: if(kind == 2) sx_stop(); iso_free(q); break; case 1: if(kind == 2) sx_stop(); iso_free_permanently(q); break; default: iso_free_size(q, s); }
    iso_flush_caches(); // at the latest when the pending frees are processed
    sx_must_not_return(true, "P24,P06,P07,P15 a bad release of a sampled block goes unnoticed");
}
// the table can be filled and is never exceeded
#ifndef TABLE
#define TABLE 60
#endif
//@job prop=P24 entry=h_sane_table cfg=sanity tier=quick timeout=200 reach=end bound="a table with room for 3 more of its 1024 samples, 5 sampling attempts, released in 2 orders"
void h_sane_table(void) {
    start();
    void *p[8]; int right = sx_choose("right", 2);
    p[0] = sampled(64, right, 0); uint64_t s = _root->seed; (void) s;
    // as if all but 3 samples were live elsewhere: entries whose pages nobody will release
    _sane_allocation_t mine = _sane_allocations[0]; int hole[3] = { 0, 500, MAX_SANE_SAMPLES - 1 }; 
    for(int i = 0; i < MAX_SANE_SAMPLES; i++) if(_sane_allocations[i].address == NULL && i != 500 && i != MAX_SANE_SAMPLES - 1 && i != 7) { _sane_allocations[i].address = (void *) (0x700000000000ull + i * 4096); _sane_allocations[i].orig_size = 32; _sane_cache[SANE_CACHE_IDX(_sane_allocations[i].address)]++; _sane_sampled++; }
    (void) mine; (void) hole; books(MAX_SANE_SAMPLES - 3);
    for(int i = 1; i < 4; i++) p[i] = sampled(64 + i, right, 0);
    books(MAX_SANE_SAMPLES);
    // full: what would have been sampled is served from a zone
    uint64_t t = hint[0];
    for(int i = 4; i < 6; i++) { _root->seed = t; p[i] = iso_alloc(64); sx_assert(hx_live(p[i], 64), "P24,P08 with the sample table full an allocation fails"); }
    books(MAX_SANE_SAMPLES);
    hx_no_locks("P25,P24 lock left held");
    if(sx_choose("order", 2)) for(int i = 0; i < 4; i++) { iso_free(p[i]); gone(p[i], "P24 a sample of a full table is not released"); } else for(int i = 3; i >= 0; i--) { iso_free(p[i]); gone(p[i], "P24 a sample of a full table is not released"); }
    books(MAX_SANE_SAMPLES - 4);
    hx_no_locks("P25,P24 lock left held");
    sx_reach("end");
}
// private zones are never sampled
//@job prop=P24,P13 entry=h_sane_private cfg=sanity tier=quick timeout=100 reach=end bound="3 private chunk sizes, the seed that samples a general allocation"
void h_sane_private(void) {
    start();
    static const uint64_t ss[] = { 32, 1000, 4000 }; iso_alloc_zone_handle *h = iso_alloc_new_zone(ss[sx_choose("size", 3)]);
    void *q = sampled(64, 0, 0); iso_free(q);
    uint64_t t = hint[0];
    for(int i = 0; i < 3; i++) { _root->seed = t; void *p = iso_alloc_from_zone(h); sx_assert(p != NULL && z_of((uint64_t) p) == z_handle(h), "P24,P13 a private zone's allocation is sampled"); }
    books(0); hx_no_locks("P25,P24 lock left held"); sx_reach("end");
}
