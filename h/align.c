// Aligned entry points. P20
#include "hx.h"
#include <errno.h>
void *hk_malloc(size_t); void *hk_aligned_alloc(size_t, size_t); void *hk_memalign(size_t, size_t); void *hk___libc_memalign(size_t, size_t); int hk_posix_memalign(void **, size_t, size_t); int hk___posix_memalign(void **, size_t, size_t); void hk_free(void *);
static bool pow2(uint64_t a) { uint64_t n = 0; for(int i = 0; i < 64; i++) n += (a >> i) & 1; return n == 1; }
//@job prop=P20 entry=h_posix_reject cfg=base,release tier=quick timeout=100 reach=rejected bound="any 64-bit alignment that is not a power of two, any size"
void h_posix_reject(void) {
    hx_init();
    void *keep = iso_alloc(100);
    uint64_t a = sx_u64("alignment"), s = sx_u64("size");
    sx_assume((a & (a - 1)) != 0 || a == 0);
    void *r = keep; int sn = sx_snap(_root->zones, _root->zones_used * sizeof(zone_t)); uint64_t n = env_nev;
    int e = sx_choose("entry", 2) ? hk_posix_memalign(&r, a, s) : hk___posix_memalign(&r, a, s);
    sx_assert(e == EINVAL, "P20 an alignment that is not a power of two is not rejected with EINVAL");
    sx_assert(r == NULL || r == keep, "P20 a rejected request stores a pointer");
    sx_assert(sx_same(sn, (uint64_t) _root->zones, _root->zones_used * sizeof(zone_t)) && env_nev == n, "P20 a rejected request allocates");
    hx_no_locks("P25,P20 lock left held");
    sx_reach("rejected");
}
static int form; static int code;
static void *get(uint64_t a, uint64_t s) {
    void *r = NULL; code = 0;
    switch(form) {
    case 0: code = hk_posix_memalign(&r, a, s); return r;
    case 1: return hk_aligned_alloc(a, s);
    case 2: return hk_memalign(a, s);
    default: return hk___libc_memalign(a, s);
    }
}
// the alignment asked for is the one delivered
static const uint64_t szs[] = { 1, 8, 31, 32, 33, 48, 64, 65, 96, 100, 128, 160, 200, 256, 500, 512, 513, 1000, 1024, 1025, 2048, 3000, 4096, 5000, 8192, 20000, 65536, 65537, 69632, 200000 };
//@job prop=P20,P01,P02 entry=h_align cfg=base tier=quick timeout=200 reach=block,big,raised bound="every power of two as alignment (symbolic up to the size, 40 values above it), 30 sizes; four entry points; fresh heap; two requests"
//@job prop=P20,P01,P02 entry=h_align cfg=release,small,nothreads,tagging,strong tier=thorough timeout=250 reach=block,big,raised bound="every power of two as alignment (symbolic up to the size, 40 values above it), 30 sizes; four entry points; fresh heap; two requests"
void h_align(void) {
    hx_init();
    form = sx_choose("form", 4);
    uint64_t s = szs[sx_choose("size", sizeof(szs) / 8)], a;
    if(sx_choose("above", 2)) { a = 1ull << sx_choose("log2", 41); if(a <= s) return; sx_reach("raised"); }
    else { a = sx_u64("alignment"); sx_assume(a != 0 && (a & (a - 1)) == 0 && (form != 0 || a <= s)); }
    iso_flush_caches();
    for(int i = 0; i < 2; i++) {
        void *p = get(a, s);
        uint64_t need = form == 0 && s < a ? a : s;
        if(p == NULL) { sx_assert(need > 0x100000000ull, "P20,P02 a request within the limits fails"); sx_assert(form != 0 || code == ENOMEM, "P20 a failed request does not report ENOMEM"); return; }
        sx_assert(form != 0 || code == 0, "P20 a block is returned together with an error");
        sx_assert(hx_live(p, s), "P20,P01,P02 the block is not live or smaller than requested");
        sx_reach("block");
        if(z_of((uint64_t) p) == NULL) { sx_reach("big"); sx_assert(((uint64_t) p & 4095) == 0, "P20 a big block is not page aligned"); }
        sx_assert(((uint64_t) p & 31) == 0, "P20 a block is not aligned to 32 bytes");
        if(pow2(need) && need <= 4096) sx_assert(((uint64_t) p & (need - 1)) == 0, "P20 a block whose size is a power of two is not aligned to it");
        sx_assert(((uint64_t) p & (a - 1)) == 0, "P20 misaligned: the block is not aligned as requested");
        hk_free(p);
    }
    hx_no_locks("P25,P20 lock left held");
}
