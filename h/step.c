// One step from an arbitrary consistent state of one zone: 64 chunks of 65536 bytes, any combination of
// free / used / freed / set aside chunks, any consistent free-slot cache. Induction over histories.
// P01 P05 P06 P07 P08 P09 P10 P14 P15 P29
#include "hx.h"
#define N 64
#define CS 65536ull
#ifndef VIA
#define VIA 0
#endif
static zone_t *z; static iso_alloc_zone_handle *h; static uint64_t *bm, U; static uint64_t b0, b1;
static uint64_t bit_at(uint64_t slot) { return ((slot < 64 ? b0 : b1) >> (slot & 63)) & 1; }
static uint64_t st_at(uint64_t c) { return ((c < 32 ? b0 : b1) >> ((c & 31) * 2)) & 3; }
static int kcache, ucache; static int64_t nextslot, cacheslot[4];
static void setup(void) {
    hx_init();
    z = hx_private(CS, &h);
    sx_assert(z->chunk_count == N && z->max_bitmap_idx == 2, "zone layout");
    U = z_user(z); bm = z_bm(z);
#if !DISABLE_CANARY
    for(int c = 0; c < N; c++) z_put_canary(z, c);
#endif
    b0 = sx_u64("b0"); b1 = sx_u64("b1");
    bm[0] = b0; bm[1] = b1;
    z_nocache(z);
    z->af_count = 70; z->alloc_count = 100;
}
static uint64_t pick(const char *n) {
#ifdef ALL
    return sx_choose(n, N);
#else
    static const uint64_t some[] = { 0, 1, 15, 30, 31, 32, 33, 62, 63 };
    return some[sx_choose(n, 9)];
#endif
}
// a consistent cache: every held slot is free, in range, even, and held once
static void cache(int kmax) {
    nextslot = -1;
    if(sx_choose("hasnext", 2)) { if(kmax > 1) nextslot = 2 * pick("next"); else { nextslot = sx_u64("next"); sx_assume((uint64_t) nextslot < 128 && (nextslot & 1) == 0); } sx_assume(bit_at(nextslot) == 0); z->next_free_bit_slot = nextslot; }
    kcache = sx_choose("k", kmax + 1);
    static const int us[] = { 0, 251 };
    ucache = us[sx_choose("usable", 2)];
    for(int i = 0; i < kcache; i++) {
        cacheslot[i] = i == 0 && nextslot == -1 && kmax > 1 ? 2 * pick("first") : sx_u64("slot"); sx_assume((uint64_t) cacheslot[i] < 128 && (cacheslot[i] & 1) == 0 && bit_at(cacheslot[i]) == 0 && cacheslot[i] != nextslot);
        for(int j = 0; j < i; j++) sx_assume(cacheslot[j] != cacheslot[i]);
        z->free_bit_slots[ucache + i] = cacheslot[i];
    }
    z->free_bit_slots_usable = ucache; z->free_bit_slots_index = ucache + kcache;
}
// is every slot the zone will serve next free, in range and unique? (symbolic over the pair checked)
static void cache_ok(const char *id) {
    uint64_t x0 = bm[0], x1 = bm[1];
    unsigned u = z->free_bit_slots_usable, n = z->free_bit_slots_index;
    sx_assert(n <= ZONE_FREE_LIST_SZ, id);
    if(z->next_free_bit_slot != -1) { uint64_t s = z->next_free_bit_slot; sx_assert(s < 128 && (s & 1) == 0 && (((s < 64 ? x0 : x1) >> (s & 63)) & 1) == 0, id); }
    for(unsigned i = u; i < n; i++) {
        uint64_t s = z->free_bit_slots[i];
        sx_assert(s < 128 && (s & 1) == 0 && (((s < 64 ? x0 : x1) >> (s & 63)) & 1) == 0, id);
        sx_assert((int64_t) s != z->next_free_bit_slot, id);
        for(unsigned j = u; j < i; j++) sx_assert(z->free_bit_slots[j] != (int64_t) s, id);
    }
}
static void unchanged_elsewhere(int s_user, uint64_t c, const char *id) {
    static const uint64_t at[] = { 0, 8, 4096, CS - 8 };
    c = sx_concrete(c);
    uint64_t diff = 0;
    for(uint64_t e = 0; e < N; e++) if(e != c) for(int i = 0; i < 4; i++) diff |= *(uint64_t *) (U + e * CS + at[i]) ^ sx_snap_u64(s_user, U + e * CS + at[i]);
    sx_assert(diff == 0, id);
#ifdef PROBE
    uint64_t a = sx_u64("probe2"); sx_assume(a < ZONE_USER_SIZE && (a & 7) == 0 && (a >> 16) != c);
    sx_assert(*(uint64_t *) (U + a) == sx_snap_u64(s_user, U + a), id);
#endif
    uint64_t m = 3ull << ((c & 31) * 2);
    sx_assert((((bm[0] ^ b0) & ~(c < 32 ? m : 0)) | ((bm[1] ^ b1) & ~(c < 32 ? 0 : m))) == 0, id);
}
static void via(int k, void *p) {
    switch(k) {
    case 0: iso_free_from_zone(p, h); break;
    case 1: iso_free_from_zone_permanently(p, h); break;
    case 2: iso_free_size(p, CS); break;
    case 3: iso_free_permanently(p); break;
    case 4: iso_free(p); iso_flush_caches(); break;
    }
}
//@job prop=P05,P06,P07,P08,P10,P14,P29,P26 entry=h_free_step cfg=base,sanitize,nocanary,verify defs="VIA=0" tier=quick timeout=200 reach=ret,call bound="one release into a private zone of 64 chunks: any states of all 64 chunks, any pointer to or into chunks 0,1,15,30-33,62,63 (all 64 in the thorough tier) and any address outside the zone, one canary word of any chunk overwritten with any value, up to 3 cached slots"
//@job prop=P05,P06,P07,P08,P10,P09,P29 entry=h_free_step cfg=base,sanitize defs="VIA=1" tier=quick timeout=200 reach=ret,call bound="as above, permanent release"
//@job prop=P05,P06,P07,P08,P10,P15,P29 entry=h_free_step cfg=base,nomask defs="VIA=2" tier=quick timeout=200 reach=ret,call bound="as above, sized release, pointers into the zone"
//@job prop=P05,P06,P07,P08,P10,P09 entry=h_free_step cfg=base defs="VIA=3" tier=quick timeout=200 reach=ret,call bound="as above, general permanent release, pointers into the zone"
//@job prop=P05,P06,P07,P08,P10,P11 entry=h_free_step cfg=base,nothreads defs="VIA=4" tier=quick timeout=200 reach=ret,call bound="as above, general release and flush, pointers into the zone"
//@job prop=P05,P06,P07,P08,P10,P14,P29 entry=h_free_step cfg=nomask,release,nothreads,spinlock,tagging,strong defs="VIA=0 ALL=1" tier=thorough timeout=200 ttimeout=300 reach=ret,call bound="one release into a private zone of 64 chunks: any states of all 64 chunks, any pointer to or into chunks 0,1,15,30-33,62,63 (all 64 in the thorough tier) and any address outside the zone, one canary word of any chunk overwritten with any value, up to 3 cached slots"
//@job prop=P05,P06,P07,P08,P10,P15,P11 entry=h_free_step cfg=sanitize,verify,release,spinlock,sanity,permrealloc defs="VIA=4 ALL=1" tier=thorough timeout=200 ttimeout=300 reach=ret,call bound="as above, general release and flush, pointers into the zone"
void h_free_step(void) {
    setup();
    void *other = iso_alloc(64); *(uint64_t *) other = 99;
    bool corrupt = false; uint64_t x = 0; uint64_t val = 0; int end = 0; bool hascorrupt = false;
#if !DISABLE_CANARY
    hascorrupt = sx_choose("corrupt", 2);
    if(hascorrupt) {
        x = sx_u64("x"); sx_assume(x < N); end = sx_choose("end", 2); val = sx_u64("val");
        uint64_t a = U + x * CS; uint64_t *w = (uint64_t *) (end ? a + CS - 8 : a);
        corrupt = val != z_canary(z, a); *w = val;
    }
#endif
    ucache = 0; kcache = 0; nextslot = -1;
#if VIA == 0 || VIA == 1
    if(!hascorrupt) cache(1);
#endif
    uint64_t where = sx_choose("anywhere", 2) ? N : pick("chunk"), p;
    if(where < N) { p = U + where * CS; if(sx_choose("inside", 2)) { uint64_t r = sx_u64("r"); sx_assume(r > 0 && r < CS); p += r; } }
    else { p = sx_u64("p"); sx_assume(p != 0 && p - U >= ZONE_USER_SIZE && VIA < 2); } // anywhere else
    uint64_t off = p - U, c = off / CS;
    bool inzone = off < ZONE_USER_SIZE && off % CS == 0;
    uint64_t st = inzone ? st_at(c) : 0;
    bool valid = inzone && st == C_USED;
    bool nb = corrupt && ((c > 0 && x == c - 1) || (x == c + 1)) && (st_at(x) & 2);
    sx_abort_allowed(!valid || nb);
    uint32_t af = z->af_count;
    int su = sx_snap((void *) U, ZONE_USER_SIZE);
    sx_reach("call");
    via(VIA, (void *) p);
    sx_assert(inzone, "P07 freeing a pointer that is not a chunk start returns");
    sx_assert(!(inzone && st != C_USED && (st & 2)), "P06,P10 freeing a freed or set-aside chunk returns");
    sx_assert(valid, "P06,P07 freeing a chunk that was never allocated returns");
    sx_assert(!nb, "P10 a broken canary next to a freed chunk goes unnoticed");
    sx_reach("ret");
    uint64_t ns = (bm[c >> 5] >> ((c & 31) * 2)) & 3;
#if VIA == 1 || VIA == 3
    sx_assert(ns == C_CANARY, "P09 a permanently released chunk can be handed out again");
#else
    sx_assert(ns == C_FREED, "P05 a released chunk is not marked for reuse");
#endif
    sx_assert(z->af_count == af - 1, "P05,P08 live counter");
#if !DISABLE_CANARY
    sx_assert(*(uint64_t *) p == z_canary(z, p) && *(uint64_t *) (p + CS - 8) == z_canary(z, p), "P10 a released chunk carries no canaries");
#endif
    unchanged_elsewhere(su, c, "P05,P01 releasing one chunk changed another");
    sx_assert(*(uint64_t *) other == 99 && hx_live(other, 64), "P05,P01 releasing one chunk changed another zone");
#if VIA == 0
    sx_assert(z->free_bit_slots_index <= ZONE_FREE_LIST_SZ && z->free_bit_slots[z->free_bit_slots_index - 1] == (int64_t) c * 2, "P05,P29 the slot is not queued for reuse");
    sx_assert(!z->is_full, "P05 the zone still counts as full");
    cache_ok("P29 free-slot cache inconsistent after a release");
#endif
#if VIA == 1
    sx_assert(z->free_bit_slots_index == ucache + kcache, "P09,P29 a permanently released slot is queued for reuse");
    cache_ok("P29 free-slot cache inconsistent after a permanent release");
#endif
    z_rest(z, U, (uint64_t) bm);
    hx_no_locks("P25,P05 lock left held");
}
//@job prop=P01,P08,P10,P14,P29,P05,P26 entry=h_alloc_step cfg=base,nocanary,nomask tier=quick timeout=200 reach=block,call bound="one request to a private zone of 64 chunks: any states of all chunks, next slot and up to 3 cached slots, one canary word of any chunk overwritten with any value"
//@job prop=P01,P08,P10,P14,P29,P05 entry=h_alloc_step cfg=sanitize,verify,release,nothreads,spinlock,tagging,strong,sanity defs="ALL=1" tier=thorough timeout=200 ttimeout=300 reach=block,call bound="one request to a private zone of 64 chunks: any states of all chunks, next slot and up to 3 cached slots, one canary word of any chunk overwritten with any value"
void h_alloc_step(void) {
    setup();
    bool hascorrupt = !DISABLE_CANARY && sx_choose("corrupt", 2);
    cache(hascorrupt ? 2 : 3);
    sx_assume(nextslot != -1 || kcache > 0);
    int64_t want = nextslot != -1 ? nextslot : cacheslot[0];
    bool corrupt = false; uint64_t x = 0, val; int end;
#if !DISABLE_CANARY
    if(hascorrupt) {
        x = ((uint64_t) want >> 1) + sx_choose("x", 3); if(x >= N) x -= N; end = sx_choose("end", 2); val = sx_u64("val");
        uint64_t a = U + x * CS; uint64_t *w = (uint64_t *) (end ? a + CS - 8 : a);
        corrupt = val != z_canary(z, a); *w = val;
    }
#endif
    uint64_t wc = (uint64_t) want >> 1;
    bool broken = corrupt && x == wc && st_at(wc) == C_FREED;
    sx_abort_allowed(broken);
    uint32_t af = z->af_count;
    int su = sx_snap((void *) U, ZONE_USER_SIZE);
    sx_reach("call");
    uint64_t p = (uint64_t) iso_alloc_from_zone(h);
    sx_assert(!broken, "P10 a chunk with a broken canary is handed out");
    sx_assert(p != 0, "P08,P14 a request fails although the zone has a free slot");
    sx_reach("block");
    uint64_t off = p - U, c = off / CS;
    sx_assert(off < ZONE_USER_SIZE && off % CS == 0, "P01,P14 the block is outside the zone");
    sx_assert(st_at(c) == C_FREE || st_at(c) == C_FREED, "P01,P29 a chunk that is in use or set aside is handed out");
    sx_assert(((bm[c >> 5] >> ((c & 31) * 2)) & 3) == C_USED, "P01,P05 the block is not marked in use");
    sx_assert(z->af_count == af + 1, "P08 live counter");
    unchanged_elsewhere(su, c, "P01,P05 a request changed another chunk");
    cache_ok("P29,P01 free-slot cache inconsistent after a request");
    z_rest(z, U, (uint64_t) bm);
    hx_no_locks("P25,P01 lock left held");
}
// whatever the cache says, a chunk in use is never handed out
//@job prop=P29,P01 entry=h_cache_corrupt cfg=base,nocanary,verify tier=quick timeout=100 reach=call bound="the next slot and two cached slots hold any in-range even values, also of used and set-aside chunks; any states of 64 chunks"
void h_cache_corrupt(void) {
    setup();
    if(sx_choose("hasnext", 2)) { z->next_free_bit_slot = sx_u64("next"); sx_assume((uint64_t) z->next_free_bit_slot < 128 && (z->next_free_bit_slot & 1) == 0); }
    else { z->free_bit_slots[0] = sx_u64("s0"); z->free_bit_slots[1] = sx_u64("s1"); z->free_bit_slots_index = 2; sx_assume((uint64_t) z->free_bit_slots[0] < 128 && (z->free_bit_slots[0] & 1) == 0 && (uint64_t) z->free_bit_slots[1] < 128 && (z->free_bit_slots[1] & 1) == 0); }
    sx_abort_allowed(true);
    sx_reach("call");
    uint64_t p = (uint64_t) iso_alloc_from_zone(h), off = p - U, c = off / CS;
    if(p == 0) return;
    sx_assert(off < ZONE_USER_SIZE && off % CS == 0 && (st_at(c) & 1) == 0, "P29,P01 a chunk that is in use or set aside is handed out");
}
// the cache is empty: the bitmap decides
#ifndef ZS
#define ZS 65536
#endif
//@job prop=P01,P08,P14,P05,P29,P26 entry=h_alloc_scan cfg=base,nocanary defs="ZS=65536" tier=quick timeout=200 reach=block,full bound="request with an empty cache; chunks at 5 edge positions in any state, the others uniformly in any of the 4 states; zone of 64 chunks; 3 seeds; then a second request"
//@job prop=P01,P08,P14,P05,P29,P26 entry=h_alloc_scan cfg=base,norand defs="ZS=8192" tier=quick timeout=200 reach=block,full bound="as above with a zone of 512 chunks"
//@job prop=P01,P08,P14,P05,P29 entry=h_alloc_scan cfg=base defs="ZS=20000" tier=quick timeout=200 reach=block,full bound="as above with a zone whose chunk size does not divide the zone"
//@job prop=P01,P08,P14,P05,P29 entry=h_alloc_scan cfg=base,experimental,verify,spinlock,sanity defs="ZS=32768" tier=thorough timeout=200 reach=block,full bound="as above with a zone of 128 chunks"
//@job prop=P01,P08,P14,P05,P29 entry=h_alloc_scan cfg=base,release defs="ZS=1024" tier=thorough timeout=300 ttimeout=400 reach=block,full bound="as above with a zone of 4096 chunks"
void h_alloc_scan(void) {
    hx_init();
    z = hx_private(ZS, &h);
    U = z_user(z); bm = z_bm(z);
    uint64_t n = z->chunk_count, q = z->max_bitmap_idx, cs = z->chunk_size;
    sx_assert(cs >= ZS && n * cs <= ZONE_USER_SIZE && (n + 31) / 32 <= q, "P01 zone layout");
    static const uint64_t pat[4] = { 0, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, ~0ull };
    int rest = sx_choose("rest", 4);
    for(uint64_t i = 0; i < q; i++) bm[i] = pat[rest];
#if !DISABLE_CANARY
    for(uint64_t c = 0; c < n; c++) z_put_canary(z, c);
#endif
    uint64_t edges[5] = { 0, 31, 32 % n, n - 2, n - 1 };
    for(int i = 0; i < 5; i++) { uint64_t s = sx_choose("state", i < 3 ? 2 : 4); z_set(z, edges[i], i < 3 ? s * 3 ^ 1 : s); } // first three: used or freed
    z_nocache(z);
    // slots past the last chunk are not chunks
    for(uint64_t c = n; c < q * 32; c++) z_set(z, c, C_CANARY);
    env_rand_state = 1000 * sx_choose("seed", 3);
    z->af_count = z_count(z, C_USED);
    uint64_t old[q]; for(uint64_t i = 0; i < q; i++) old[i] = bm[i];
    uint64_t nfree = z_count(z, C_FREE) + z_count(z, C_FREED);
    uint64_t last = 0;
    for(int k = 0; k < 2; k++) {
        uint64_t p = (uint64_t) iso_alloc_from_zone(h);
        if(p == 0) { sx_reach("full"); sx_assert(nfree == k, "P08,P05,P14 a request fails although the zone has a free chunk"); sx_assert(z->is_full, "P29 full flag"); z_rest(z, U, (uint64_t) bm); break; }
        sx_reach("block");
        uint64_t off = p - U, c = off / cs;
        sx_assert(off % cs == 0 && c < n && ((old[c >> 5] >> ((c & 31) * 2)) & 1) == 0, "P01,P29 a chunk that is in use or set aside is handed out");
        sx_assert(p != last, "P01 the same chunk is handed out twice");
        sx_assert(z_state(z, c) == C_USED, "P01 the block is not marked in use");
        last = p;
        z_rest(z, U, (uint64_t) bm);
        uint64_t d = 0; for(uint64_t i = 0; i < q; i++) { uint64_t diff = bm[i] ^ old[i]; d += diff != 0; }
        sx_assert(d <= (uint64_t) k + 1, "P01,P05 a request changed the state of another chunk");
    }
    hx_no_locks("P25,P01 lock left held");
}
