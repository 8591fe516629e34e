// The dangling pointer search and the crash handler. P34
#include "hx.h"
#include <signal.h>
#ifndef NBYTES
#define NBYTES 12
#endif
void *_iso_alloc_ptr_search(void *n, bool poison);
//@job prop=P34 entry=h_search cfg=uaf split=4 tier=quick timeout=200 opts="--max-steps 900000000" reach=found,none bound="12 (thorough: 16) arbitrary bytes at one of 5 places (start, middle, last bytes) of the user pages of either of two zones, every 64-bit value looked for (not zero); with and without poisoning"
//@job prop=P34 entry=h_search cfg=uaf_tagging,uaf_nomask,uaf_nothreads,base split=4 tier=thorough timeout=500 defs="NBYTES=16" opts="--max-steps 900000000" reach=found,none bound="as above in other builds"
void h_search(void) {
    hx_init();
    // keep the search short: two zones only
    _root->zones_used = 2;
    static const uint64_t OFF[] = { 0, 4096, 65536 * 3 + 5, ZONE_USER_SIZE - 24, ZONE_USER_SIZE - NBYTES };
    unsigned zi = sx_choose("zone", 2); zone_t *z = &_root->zones[zi];
    uint64_t at = z_user(z) + OFF[sx_choose("place", 5)];
    for(unsigned i = 0; i < _root->zones_used; i++) sx_zero(z_user(&_root->zones[i]), ZONE_USER_SIZE); // canaries would match arbitrary values
    uint8_t b[NBYTES]; sx_bytes(b, NBYTES, "bytes");
    for(int i = 0; i < NBYTES; i++) ((uint8_t *) at)[i] = b[i];
    uint64_t v = sx_u64("value"); sx_assume((v & 0xff00000000000000ull) == 0 && v > 0xffffffffffull);
    bool poison = sx_choose("poison", UAF_PTR_PAGE ? 2 : 1); // nothing asks for poisoning in other builds
#ifdef SPLIT
    if((zi | poison << 1) != SPLIT) sx_stop();
#endif
    int snap = sx_snap((void *) at, NBYTES);
    uint8_t *r = _iso_alloc_ptr_search((void *) v, poison);
    // the oracle: the lowest position in this zone at which the eight bytes are v; positions outside hold zeroes
    uint64_t want = 0;
    for(int64_t i = NBYTES - 1; i >= -7; i--) { if(at + i < z_user(z) || at + i + 8 > z_user(z) + ZONE_USER_SIZE) continue; uint64_t w = 0; for(int k = 7; k >= 0; k--) { int64_t x = i + k; w = w << 8 | (x >= 0 && x < NBYTES ? b[x] : 0); } want = w == v ? at + i : want; }
    sx_assert((uint64_t) r == want, "P34 the search does not return the place of the value");
    if(r == NULL) { sx_reach("none"); sx_assert(sx_same(snap, at, NBYTES), "P34 a search that finds nothing changes memory"); }
    else {
        sx_reach("found");
        uint64_t o = sx_u64("o"); sx_assume(o < NBYTES); uint64_t d = at + o - (uint64_t) r;
#if UAF_PTR_PAGE
        if(poison) { uint64_t now = 0; for(int k = 7; k >= 0; k--) now = now << 8 | r[k]; sx_assert(now == (uint64_t) _root->uaf_ptr_page && sx_prot(now) == 0, "P34 the value is not redirected to the inaccessible page"); }
        if(!poison || d >= 8)
#endif
            sx_assert(((uint8_t *) at)[o] == b[o], "P34 the search changes other memory");
    }
    hx_no_locks("P34 lock leaked");
}
#if SIGNAL_HANDLER
void handle_signal(int sig, siginfo_t *si, void *ctx);
//@job prop=P34 entry=h_signal cfg=uaf tier=quick timeout=60 opts="--printf" reach=start bound="every 64-bit fault address, with the diagnostic formatted"
void h_signal(void) {
    hx_init(); siginfo_t si; __builtin_memset(&si, 0, sizeof(si)); si.si_addr = (void *) sx_u64("address");
    sx_reach("start"); sx_abort_allowed(true);
    handle_signal(11, &si, NULL);
    sx_assert(false, "P34 the crash handler returns");
}
#endif
#if UAF_PTR_PAGE
uint64_t us_rand_uint64(uint64_t *seed);
//@job prop=P34,P05,P08 entry=h_uaf_free cfg=uaf_small split=4 tier=quick timeout=200 opts="--max-steps 900000000" reach=end,redirected bound="release (4 ways) of a block of 2 sizes whose address is or is not stored in another live block, with the search forced; first and last byte positions"
//@job prop=P34,P05,P08 entry=h_uaf_free cfg=uaf_small_nomask,uaf_small_nothreads,uaf_small_tagging tier=thorough timeout=400 opts="--max-steps 900000000" reach=end,redirected bound="as above in other builds"
void h_uaf_free(void) {
    hx_init(); uint64_t hit = 0;
    for(uint64_t k = 0; k < 9999999 && !hit; k++) { uint64_t t = 1 + k, u = t; if(us_rand_uint64(&u) % UAF_PTR_PAGE_ODDS == 1) hit = t; }
    static const uint64_t S[] = { 64, 1024 };
    uint64_t sz = S[sx_choose("size", 2)]; uint64_t *holder = iso_alloc(256), *other = iso_alloc(256); for(int i = 0; i < 32; i++) holder[i] = other[i] = 0x123456;
    iso_alloc_zone_handle *h = iso_alloc_new_zone(512);
    int how = sx_choose("how", 4);
#ifdef SPLIT
    if(how != SPLIT) sx_stop();
#endif
    void *p = how == 3 ? iso_alloc_from_zone(h) : iso_alloc(sz);
    bool st = sx_choose("stored", 2); int at = sx_choose("end", 2) ? 31 : 0; if(st) holder[at] = (uint64_t) p;
    _root->seed = hit;
    switch(how) { case 0: iso_free(p); _root->seed = hit; iso_flush_caches(); break; case 1: iso_free_permanently(p); break; case 2: iso_free_size(p, sz); break; case 3: iso_free_from_zone(p, h); break; }
    sx_assert(!hx_live(p, 1), "P34,P05 the block was not released");
    for(int i = 0; i < 32; i++) { sx_assert(other[i] == 0x123456, "P34,P05 another block changed"); if(!st || i != at) sx_assert(holder[i] == 0x123456, "P34,P05 a word that does not hold the address changed"); }
    if(st) { sx_assert(holder[at] == (uint64_t) p || (holder[at] == (uint64_t) _root->uaf_ptr_page && sx_prot(holder[at]) == 0), "P34 a dangling pointer is redirected somewhere else"); if(holder[at] != (uint64_t) p) sx_reach("redirected"); }
    iso_verify_zones(); hx_no_locks("P34 lock leaked");
    sx_reach("end");
}
#endif
