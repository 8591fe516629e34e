// Whole zones are verified: on request, at shutdown, and before every call in fuzzing builds. P10 P28
#include "hx.h"
#ifndef OTHERS
#define OTHERS 2
#endif
static zone_t *z; static uint64_t nc, cs;
//@job prop=P10,P28 entry=h_verify cfg=base split=4 tier=quick timeout=100 reach=altered,intact bound="one word (any value) at either end of a chunk at up to 6 positions (10 in the thorough run) of 5 zones (private, on demand, default; full qwords or not; last or not) in any of the 4 states; the other chunks all never used or all released; the zone's counters and full flag arbitrary; verification of all zones, of one, at shutdown, or by the next call"
//@job prop=P10,P28 entry=h_verify cfg=fuzz tier=quick timeout=100 reach=altered,intact bound="as above for the default and an on demand zone, by the next call only"
//@job prop=P10,P28 entry=h_verify cfg=base,cleanup0,nomask,sanitize,tagging,nothreads,spinlock,release,small,sanity,profiler,verify,strong,uaf,norand,permrealloc,bigguard_cleanup,nomask_fuzz defs="OTHERS=4 FULL=1" tier=thorough timeout=400 ttimeout=400 reach=altered,intact bound="as above in other builds"
void h_verify(void) {
    hx_init();
    iso_alloc_zone_handle *h = NULL, *h2; iso_alloc_zone_handle *older = iso_alloc_new_zone(4000); (void) older;
#if FUZZ_MODE && !FULL
    int kind = sx_choose("zone", 2) * 2;
#else
    int kind = sx_choose("zone", 5);
#endif
    switch(kind) {
        case 0: z = hx_private(65536, &h); break;
        case 1: z = hx_private(20000, &h); break;
        case 2: z = hx_internal(9000); break;
        case 3: z = z_sized(8192); break;
        case 4: z = hx_private(40000, &h); break;
    }
    if(z == NULL) z = hx_internal(8192);
    if(kind != 0 || sx_choose("last", 2) == 0) h2 = iso_alloc_new_zone(64);
    nc = z->chunk_count; cs = z->chunk_size;
    static const int O[] = { 0, 2, 1, 3 };
    uint64_t others = O[kind == 0 ? sx_choose("others", OTHERS) : kind & 1];
    for(uint64_t c = 0; c < nc; c++) { z_set(z, c, others); z_put_canary(z, c); }
#if FULL
    uint64_t at[] = { 0, nc - 1, 31, 32, nc - 2, 1, 15, 33, 63, nc / 2 };
    uint64_t c = at[sx_choose("chunk", 10)];
#else
    uint64_t at[] = { nc - 1, 31, nc / 2, 0, 32, nc - 2 };
    uint64_t c = at[sx_choose("chunk", kind == 0 ? 6 : 3)];
#endif
    uint64_t st = sx_u64("state"); sx_assume(st < 4);
    z_set(z, c, st);
    // nothing else about the zone matters
    z->is_full = sx_u8("full") & 1; z->af_count = sx_u32("live"); z->alloc_count = sx_u32("lifetime");
    uint64_t a = z_chunk(z, c) + (sx_choose("trailing", 2) ? cs - 8 : 0), v = sx_u64("v");
    *(uint64_t *) a = v;
    bool bad = (st > 1) & (v != z_canary(z, z_chunk(z, c)));
    if(bad) sx_reach("altered"); else sx_reach("intact");
    sx_abort_allowed(bad);
    int s = sx_snap(_root->zones, _root->zones_used * sizeof(zone_t));
#if FUZZ_MODE && !FULL
    int via = 3;
#elif FUZZ_MODE
    int via = sx_choose("via", 4);
#elif FULL
    int via = sx_choose("via", 3);
#else
    int via = kind == 0 ? sx_choose("via", 3) : sx_choose("via", 2) * 2;
#endif
    switch(via) {
        case 0: iso_verify_zones(); break;
        case 1: if(h == NULL) h = b_handle(z); iso_verify_zone(h); break;
        case 2: iso_alloc_destroy(); sx_assert(!bad, "P10,P28 destruction does not notice an overwritten canary"); return;
#if FUZZ_MODE
        case 3: (void) iso_alloc(100); break;
#else
#endif
    }
    sx_assert(!bad, "P10 verification does not notice an overwritten canary");
#if !FUZZ_MODE
    sx_assert(sx_same(s, (uint64_t) _root->zones, _root->zones_used * sizeof(zone_t)), "P10,P26 verification changes a zone");
#endif
    hx_no_locks("P25,P10 lock left held");
}
// canaries: the lowest byte is zero, and two chunks never share one
//@job prop=P10,P29 entry=h_canary_value cfg=base tier=quick timeout=100 reach=end bound="any secret, any two chunks of 4 zones; both words of the chunk; released plainly, by size, permanently or set aside at the start"
//@job prop=P10,P29 entry=h_canary_value cfg=sanitize,nomask,tagging,small,release,nothreads tier=thorough timeout=100 reach=end bound="as above in other builds"
void h_canary_value(void) {
    hx_init();
    static const uint64_t S[] = { 64, 1000, 8192, 65536 };
    iso_alloc_zone_handle *h; z = hx_private(S[sx_choose("size", 4)], &h);
    z->canary_secret = sx_u64("secret");
    uint64_t *a = iso_alloc_from_zone(h), *b = iso_alloc_from_zone(h); cs = z->chunk_size;
    a[0] = sx_u64("user"); a[cs / 8 - 1] = sx_u64("user2"); b[0] = 1;
    int how = sx_choose("how", 3);
    if(how == 0) { iso_free_from_zone(a, h); iso_free_from_zone(b, h); } else if(how == 1) { iso_free_from_zone_permanently(a, h); iso_free_from_zone_permanently(b, h); } else { iso_free(a); iso_free_size(b, cs); iso_flush_caches(); }
    sx_assert(a[0] == a[cs / 8 - 1] && b[0] == b[cs / 8 - 1], "P10 the canaries at both ends differ");
    sx_assert((a[0] & 0xff) == 0 && (b[0] & 0xff) == 0, "P10 the lowest byte of a canary is not zero");
    // the lowest byte is dropped, so only chunks within the same 256 bytes may share one
    sx_assert(((uint64_t) a >> 8) == ((uint64_t) b >> 8) || a[0] != b[0], "P10 two chunks share a canary");
    sx_assert(a[0] == z_canary(z, (uint64_t) a), "P10 a canary does not depend on the secret of its zone");
    sx_reach("end");
}
