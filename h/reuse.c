// Released memory is used again: a new zone is made only when no zone that may serve the request has room.
// P36 P05 P08 P13
#include "inv.h"
static uint64_t blk[800]; static int nb;
static const uint64_t cls[] = { 65536, 40000, 12288, 8192 };
static uint64_t zones_of(uint64_t cs) { uint64_t n = 0; for(unsigned i = 0; i < _root->zones_used; i++) n += _root->zones[i].chunk_size == cs && _root->zones[i].internal; return n; }
static void get(uint64_t n) { void *p = iso_alloc(n); sx_assert(p != NULL, "P08 a request fails although memory is available"); blk[nb++] = (uint64_t) p; }
// put other zones into the thread's cache
static void others(void) { static const uint64_t s[] = { 64, 128, 256, 512, 1024, 2048, 4096 }; for(int i = 0; i < 7; i++) { void *p = iso_alloc(s[i]); iso_free_size(p, s[i]); } }
#ifndef CLS
#define CLS 0
#endif
//@job prop=P36,P05,P08 entry=h_reuse cfg=base,nothreads defs="CLS=0" tier=quick timeout=200 reach=end,spare bound="up to 3 zones of 64 KB chunks filled by requests; one of 18 chunks released in 4 ways, thread cache as it was or cold; with or without the zone of a destroyed private zone to fill next; then a request of 4 sizes the zone may serve"
//@job prop=P36,P05,P08 entry=h_reuse cfg=base defs="CLS=1" tier=quick timeout=200 reach=end,spare bound="as above, 40000-byte chunks"
//@job prop=P36,P05,P08 entry=h_reuse cfg=base defs="CLS=3" tier=quick timeout=300 reach=end bound="as above, 8192-byte chunks of a default zone and one made on demand"
//@job prop=P36,P05,P08 entry=h_reuse cfg=small,tagging,strong,release,sanitize,nocanary,norand,spinlock,nomask defs="CLS=0" tier=thorough timeout=300 reach=end bound="up to 3 zones of 64 KB chunks filled by requests; one of 18 chunks released in 4 ways, thread cache as it was or cold; with or without the zone of a destroyed private zone to fill next; then a request of 4 sizes the zone may serve"
//@job prop=P36,P05,P08 entry=h_reuse cfg=base,strong defs="CLS=2" tier=thorough timeout=300 reach=end bound="as above, 12288-byte chunks"
void h_reuse(void) {
    hx_init();
    uint64_t cs = cls[CLS], want = CLS == 3 ? 1 : CLS == 2 ? 2 : 3;
    get(cs);
    uint64_t used = _root->zones_used, z0 = zones_of(cs);
    sx_assert(z0 == 1, "P36 setup: one zone of this size");
    zone_t *z = z_of(blk[0]); uint64_t cap = z->chunk_count - z_count(z, C_CANARY);
    while(nb < 780) {
        get(cs);
        z = z_of(blk[nb - 1]); sx_assert(z != NULL && z->chunk_size == cs, "P13,P36 zone of a block");
        sx_assert(_root->zones_used == used || z_count(z, C_USED) == 1, "P36 a new zone is made while another one has room");
        if(_root->zones_used != used) {
            sx_assert((uint64_t) nb == cap + 1, "P36 a new zone is made while another one has room");
            used = _root->zones_used; cap += z->chunk_count - z_count(z, C_CANARY);
        }
        if(zones_of(cs) == want && (uint64_t) nb == cap) break;
    }
    sx_assert((uint64_t) nb == cap && zones_of(cs) == want, "P36 setup: zones full");
    if(sx_choose("cold", 2)) { others(); used = _root->zones_used; }
    // the memory of a destroyed private zone serves general requests
    if(sx_choose("spare", 2)) {
        iso_alloc_zone_handle *h; zone_t *s = hx_private(cs, &h); sx_assert(iso_alloc_from_zone(h) != NULL, "P14 a private zone");
        iso_alloc_destroy_zone(h); used = _root->zones_used; uint64_t room = s->chunk_count - z_count(s, C_CANARY);
        for(uint64_t i = 0; i < room; i++) { void *p = iso_alloc(cs - (i & 1)); sx_assert(p != NULL && _root->zones_used == used && z_of((uint64_t) p) == s, "P36 a new zone is made while another one has room"); }
        sx_reach("spare");
    }
    static const int64_t at[] = { 0, 1, 31, 32, -2, -1 };
    int64_t a = at[sx_choose("chunk", 6)]; uint64_t per = cap / want, zi = sx_choose("zone", want), k = zi * per + (a < 0 ? per + a : a);
    int via = sx_choose("via", 4); void *p = (void *) blk[k];
    switch(via) { case 0: iso_free(p); iso_flush_caches(); break; case 1: iso_free_size(p, cs); break; case 2: iso_free_permanently(p); break; case 3: iso_free(p); break; }
    static const uint64_t n1[4][4] = { { 65536, 65505, 30000, 8193 }, { 40000, 39970, 20000, 8193 }, { 12288, 12257, 9000, 8193 }, { 8192, 8170, 5000, 4097 } };
    uint64_t n = n1[CLS][sx_choose("n", 4)];
    void *q = iso_alloc(n);
    sx_assert(q != NULL && hx_live(q, n), "P01,P08,P36 the next request fails");
    if(via < 2) { sx_assert(_root->zones_used == used, "P36 a new zone is made while another one has room"); sx_assert(q == p, "P36,P05 the only free chunk is not used again"); }
    else { sx_assert(q != p, "P36,P09,P11 a chunk that may not be used again is handed out"); sx_assert(_root->zones_used == used + 1, "P36 zones of a full heap"); }
    for(uint64_t i = 0; i < (uint64_t) nb; i++) if(i != k && (i < 2 || i + 2 > (uint64_t) nb || i + 1 == k || i == k + 1)) sx_assert(hx_live((void *) blk[i], cs) && blk[i] != (uint64_t) q, "P05,P01 another block was lost");
    hx_no_locks("P25,P36 lock left held");
    sx_reach("end");
}
static bool unused(zone_t *z) { uint64_t *b = z_bm(z), r = 0; for(int64_t i = 0; i < z->max_bitmap_idx; i++) r |= b[i] & ~(b[i] >> 1) & 0x5555555555555555ull; return r == 0; }
// rounds of requests and releases: what a program holds is bounded, and so is what the allocator holds
//@job prop=P36,P08,P12 entry=h_steady cfg=base,nothreads tier=quick timeout=200 reach=end,retired bound="3 rounds of 1, 64, 65 or 130 blocks of 2 sizes, released 3 ways in either order; any number of lifetime requests before"
//@job prop=P36,P08,P12 entry=h_steady cfg=small,tagging,strong,release,sanitize,nocanary,norand,spinlock,nomask defs="ROUNDS=4" tier=thorough timeout=300 reach=end,retired bound="as above, 4 rounds"
#ifndef ROUNDS
#define ROUNDS 3
#endif
void h_steady(void) {
    hx_init(); env_strict_unmap = 1; uint64_t z0 = _root->zones_used;
    static const uint64_t ms[] = { 1, 64, 65, 130 };
    uint64_t n = sx_choose("size", 2) ? 12288 : 65536, m = ms[sx_choose("m", 4)], used = 0, rss = 0; int via = sx_choose("via", 3), rev = sx_choose("order", 2);
    for(int r = 0; r < ROUNDS; r++) {
        nb = 0; for(uint64_t i = 0; i < m; i++) get(n);
        zone_t *z = z_of(blk[0]); uint64_t user = z_user(z);
        if(r == 0) { uint32_t c = sx_u32("alloc_count"); sx_assume(c >= m); z->alloc_count = c; }
        for(uint64_t i = 0; i < m; i++) { void *p = (void *) blk[rev ? m - 1 - i : i]; switch(via) { case 0: iso_free(p); break; case 1: iso_free_size(p, n); break; case 2: if(i & 1) iso_free(p); else iso_free_size(p, n); break; } }
        iso_flush_caches();
        if(z_user(z) != user) sx_reach("retired");
        if(r == 0) { used = _root->zones_used; rss = env_rss_pages; sx_assert(used <= z0 + 1 + (m - 1) / 64, "P36 more zones than the blocks need"); }
        sx_assert(_root->zones_used == used, "P36 the zone table grows although nothing is live");
        sx_assert(env_rss_pages == rss, "P36,P12 the memory of the process grows although nothing is live");
        for(unsigned i = 0; i < _root->zones_used; i++) sx_assert(unused(&_root->zones[i]), "P36,P05 a released block counts as live");
    }
    hx_no_locks("P25,P36 lock left held");
    sx_reach("end");
}
