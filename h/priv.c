// Private zones: creation, use, destruction and replacement in any order; bitmaps shared by zones; masking at rest.
// P13 P14 P26 P15 P21 P29
#include "inv.h"
#define MAXZ 48
static struct { iso_alloc_zone_handle *h; zone_t *z; uint64_t p, v; } pz[MAXZ]; static int np;
static const uint64_t sizes[] = { 65536, 16000, 1000, 100000 };
// a zone nobody has used yet: every chunk free or set aside, every counter zero
static void fresh(zone_t *z, uint64_t sz, bool internal) {
    uint64_t *b = z_bm(z), set = 0, aside = 0;
    for(int64_t i = 0; i < z->max_bitmap_idx; i++) { set += __builtin_popcountll(b[i]); aside += (b[i] & 3) == 3; if(z->chunk_size > 8192) sx_assert(b[i] == 0, "P14,P08 a new zone starts with used chunks"); else sx_assert(b[i] == 0 || b[i] == 3, "P14,P08 a new zone starts with used chunks"); }
    sx_assert(set == 2 * aside && aside <= z->chunk_count >> 7, "P14 a new zone sets aside more than one percent of its chunks");
    sx_assert(z->chunk_size >= sz && z->chunk_size < sz + 64 && z->internal == internal && !z->is_full && z->af_count == 0 && z->alloc_count == 0, "P14 state of a new zone");
    sx_assert((uint64_t) z->chunk_count * z->chunk_size <= ZONE_USER_SIZE && ((uint64_t) z->chunk_count + 1) * z->chunk_size > ZONE_USER_SIZE - 32 * z->chunk_size, "P14 capacity of a new zone");
    sx_assert(z == &_root->zones[z->index], "P14 index of a new zone");
}
// addresses are stored only under the zone's own secret
static void masked(zone_t *z) {
#if MASK_PTRS
    uint64_t u = z_user(z), bm = z_bitmap(z), *w = (uint64_t *) z;
    sx_assert(z->pointer_mask != 0 && z->canary_secret != 0, "P26,P29 a zone without secrets");
    for(unsigned i = 0; i < sizeof(zone_t) / 8; i++) sx_assert(w[i] != u && w[i] != bm, "P26 a zone stores an address unmasked at rest");
    for(unsigned i = 0; i < _root->zones_used; i++) if(&_root->zones[i] != z) sx_assert(_root->zones[i].pointer_mask != z->pointer_mask && _root->zones[i].canary_secret != z->canary_secret, "P26,P29 two zones share a secret");
    sx_assert(z->canary_secret != z->pointer_mask, "P26,P29 the two secrets of a zone are the same");
#endif
}
static void world(bool all) {
    for(int i = 0; i < np; i++) if(pz[i].h) {
        zone_t *z = pz[i].z;
        zones_apart(z); zone_ok(z);
        sx_assert(z_handle(pz[i].h) == z && !z->internal, "P13,P14 a private zone lost its place");
#if MASK_PTRS
        sx_assert((void *) pz[i].h != (void *) z, "P26 a handle is the address of the zone");
#endif
        if(pz[i].p) { sx_assert(hx_live((void *) pz[i].p, z->chunk_size) && *(uint64_t *) pz[i].p == pz[i].v, "P14,P05 destroying or creating a zone changes a block of another zone"); }
        sx_assert(z->af_count == (pz[i].p != 0), "P14,P21 count of live blocks of a zone");
    }
    if(!all) { hx_no_locks("P25,P14 lock left held"); return; }
    for(unsigned i = 0; i <= SMALL_SIZE_MAX >> 4; i++) { unsigned k = _root->zone_lookup_table[i]; if(k) { zone_t *z = &_root->zones[k]; for(int n = 0; n < 60; n++) { sx_assert(z->internal && SZ_TO_ZONE_LOOKUP_IDX(z->chunk_size) == i, "P13,P08 the list of zones of a size holds another zone"); if(!z->next_sz_index) break; z = &_root->zones[z->next_sz_index]; sx_assert(n < 59, "P08 the list of zones of a size has a cycle"); } } }
    for(unsigned i = 0; i < _root->zones_used; i++) masked(&_root->zones[i]);
    hx_no_locks("P25,P14 lock left held");
}
static void create(uint64_t sz) {
    iso_alloc_zone_handle *h; uint64_t used = _root->zones_used; zone_t *z = hx_private(sz, &h);
    if(sz > 65536) { sx_assert(h == NULL && _root->zones_used == used, "P14 a zone for chunks that are too large"); return; }
    sx_assert(h != NULL && _root->zones_used == used + 1, "P14 creating a private zone fails");
    fresh(z, sz, false);
    for(int i = 0; i < np; i++) sx_assert(!pz[i].h || pz[i].z != z, "P14 a new private zone takes the place of another one");
    pz[np].h = h; pz[np].z = z; pz[np].p = 0; np++;
}
static void destroy(int i) {
    uint64_t cs = pz[i].z->chunk_size, u = z_user(pz[i].z), rss = env_rss_pages;
    zone_t *z = pz[i].z;
    iso_alloc_destroy_zone(pz[i].h); pz[i].h = NULL; pz[i].p = 0;
    sx_assert(sx_prot(u) == 255 && env_rss_pages <= rss, "P14,P12 destroying a zone does not release its memory");
    fresh(z, cs, true); zones_apart(z); zone_ok(z);
}
static void take(int i) { void *p = iso_alloc_from_zone(pz[i].h); sx_assert(p != NULL && z_of((uint64_t) p) == pz[i].z, "P13,P14 a private zone does not serve its own request"); pz[i].v = sx_u64("data"); *(uint64_t *) p = pz[i].v; pz[i].p = (uint64_t) p; }
#ifndef STEPS
#define STEPS 3
#endif
//@job prop=P14,P13,P26 entry=h_priv cfg=base split=5 tier=quick timeout=200 reach=end bound="every history of 3 of: create a zone of 4 sizes, destroy, take a block, release it, general requests; after one zone per size; every zone, list and secret after each"
//@job prop=P14,P13,P26,P29 entry=h_priv cfg=tagging,nothreads defs="STEPS=2" tier=quick timeout=200 reach=end bound="as above with 2 calls"
//@job prop=P14,P13,P26,P08 entry=h_priv cfg=base defs="STEPS=4" split=5 tier=thorough timeout=800 ttimeout=800 reach=end bound="as above with 4 calls"
//@job prop=P14,P13,P26,P08 entry=h_priv cfg=strong,small,sanitize,spinlock,release,nocanary,tagging tier=thorough timeout=300 reach=end bound="as the first, 3 calls"
void h_priv(void) {
    hx_init();
    env_strict_unmap = 1;
    for(int i = 0; i < 3; i++) create(sizes[i]);
    take(0); take(2);
    void *gen = iso_alloc(1000), *g2 = iso_alloc(20000);
    for(int k = 0; k < STEPS; k++) {
        int op = sx_choose("op", 5);
#ifdef SPLIT
        if(k == 0 && op != SPLIT) sx_stop();
#endif
        switch(op) {
        case 0: create(sizes[sx_choose("size", 4)]); break;
        case 1: { int i = sx_choose("zone", np); if(pz[i].h) destroy(i); break; }
        case 2: { int i = sx_choose("zone", np); if(pz[i].h && !pz[i].p) take(i); break; }
        case 3: { int i = sx_choose("zone", np); if(pz[i].h && pz[i].p) { switch(sx_choose("via", 3)) { case 0: iso_free_from_zone((void *) pz[i].p, pz[i].h); break; case 1: iso_free_size((void *) pz[i].p, pz[i].z->chunk_size); break; case 2: iso_free((void *) pz[i].p); iso_flush_caches(); break; } pz[i].p = 0; } break; }
        case 4: { uint64_t n = sizes[sx_choose("size", 3)]; void *p = iso_alloc(n); zone_t *z = z_of((uint64_t) p); sx_assert(z && z->internal, "P13,P14 a private zone serves a general request"); sx_assert(hx_live(p, n) && p != gen && p != g2, "P01,P14 general request"); iso_free_size(p, n); break; }
        }
        world(false);
    }
    world(true);
    sx_assert(hx_live(gen, 1000) && hx_live(g2, 20000), "P14,P05 a block of a general zone was lost");
    sx_reach("end");
}
// more zones than a shared bitmap page can serve, some destroyed and created again
//@job prop=P14,P12,P01 entry=h_many cfg=base tier=quick timeout=200 reach=end bound="36 private zones with bitmaps of 16 or 32 bytes, up to 3 of them destroyed and as many created"
//@job prop=P14,P12,P01 entry=h_many cfg=tagging,nothreads,small,release tier=thorough timeout=300 reach=end bound="36 private zones with bitmaps of 16 or 32 bytes, up to 3 of them destroyed and as many created"
void h_many(void) {
    hx_init();
    env_strict_unmap = 1;
    uint64_t sz = sx_choose("bucket", 2) ? 65536 : 30000;
    for(int i = 0; i < 36; i++) { create(sz); if(i % 3 == 0) take(i); }
    static const int which[] = { 0, 1, 30, 31, 32, 33, 35 };
    int d = sx_choose("n", 3) + 1;
    for(int k = 0; k < d; k++) { int i = which[sx_choose("which", 7)]; if(!pz[i].h) sx_stop(); destroy(i); }
    for(int k = 0; k < d; k++) { create(sz); take(np - 1); }
    world(true);
    sx_reach("end");
}
// a private zone's capacity, also when its slot of the bitmap page or of the zone table was used before
//@job prop=P14,P08,P05 entry=h_capacity cfg=base,nocanary,tagging tier=quick timeout=200 reach=end bound="zones of 64 to 512 chunks (5 sizes), new or after a full zone of the same size was destroyed; filled to exhaustion, then one more after a release 3 ways"
//@job prop=P14,P08 entry=h_capacity cfg=strong,small,nothreads,sanitize,verify,release,spinlock tier=thorough timeout=300 reach=end bound="zones of 64 to 512 chunks (5 sizes), new or after a full zone of the same size was destroyed; filled to exhaustion, then one more after a release 3 ways"
void h_capacity(void) {
    hx_init();
    static const uint64_t cs[] = { 65536, 65504, 40000, 16384, 8192 };
    uint64_t n = cs[sx_choose("size", 5)];
    bool again = sx_choose("again", 2);
    for(int r = 0; r <= again; r++) {
        create(n);
        zone_t *z = pz[np - 1].z; iso_alloc_zone_handle *h = pz[np - 1].h;
        uint64_t adv = iso_zone_chunk_count(h), got = 0; void *last = NULL, *p;
        sx_assert(adv >= 1 && adv <= z->chunk_count && adv + (z->chunk_count >> 7) >= z->chunk_count, "P14 advertised capacity");
        uint64_t used = _root->zones_used;
        while((p = iso_alloc_from_zone(h)) != NULL) { sx_assert(z_of((uint64_t) p) == z && p != last && ((uint64_t) p - z_user(z)) % z->chunk_size == 0 && hx_live(p, n), "P14,P01 a block of a private zone"); last = p; if(++got > 600) break; }
        sx_assert(got >= adv && got == z->chunk_count - z_count(z, C_CANARY), "P14 a private zone does not deliver its capacity");
        sx_assert(z_count(z, C_USED) == got && z->af_count == got && _root->zones_used == used, "P14,P01 two requests got the same chunk");
        hx_no_locks("P14,P25 lock left held when a zone is exhausted");
        if(r < again) { destroy(np - 1); continue; }
        switch(sx_choose("via", 3)) { case 0: iso_free_from_zone(last, h); break; case 1: iso_free_size(last, n); break; case 2: iso_free(last); sx_assert(iso_alloc_from_zone(h) == NULL, "P11,P14 a block in the quarantine is handed out"); iso_flush_caches(); break; }
        p = iso_alloc_from_zone(h);
        sx_assert(p == last, "P05,P14 a released block of a full zone is not available again");
        sx_assert(iso_alloc_from_zone(h) == NULL, "P14 a private zone serves more than its chunks");
    }
    sx_reach("end");
}
// which zone serves a request when zones of other sizes are at hand (cached for the thread, or the only ones with room)
static void served(void *p, uint64_t n) {
    sx_assert(p != NULL, "P08,P13 a request fails although memory is available");
    zone_t *z = z_of((uint64_t) p);
    sx_assert(z != NULL && z->internal, "P13,P14 a private zone serves a general request");
    sx_assert(z->chunk_size >= n && hx_live(p, n), "P01,P13 chunk too small");
    sx_assert(n <= 1024 || z->chunk_size < 8 * ((n + 31) & ~31ull), "P13 a request is placed in a chunk eight or more times its size");
}
static const uint64_t firsts[] = { 65536, 8448, 16384, 32768, 60000, 9000 };
static const uint64_t classes[] = { 32, 512, 1024, 1056, 1088, 1120, 1152, 2048, 2080, 4096, 4128, 7488, 7520, 8192, 8224, 65536 };
//@job prop=P13 entry=h_waste cfg=base,small tier=quick timeout=200 reach=end bound="two zones of 6 large sizes created and used just before (in the thread's cache), any subset of zones full; then two requests of either end of 16 rounding classes around one eighth of the chunk sizes"
//@job prop=P13 entry=h_waste cfg=strong,nothreads,release,nomask,norand,cpupin tier=thorough timeout=300 reach=end bound="two zones of 6 large sizes created and used just before (in the thread's cache), any subset of zones full; then two requests of either end of 16 rounding classes around one eighth of the chunk sizes"
void h_waste(void) {
    hx_init();
    iso_alloc_zone_handle *h; zone_t *z = hx_private(20000, &h), *z2 = hx_private(1200, NULL);
    int a = sx_choose("first", 6), b = sx_choose("second", 3);
    void *p = iso_alloc(firsts[a]), *q = iso_alloc(firsts[b]);
    uint64_t n = classes[sx_choose("class", 16)] - 31 * sx_choose("low", 2);
    if(sx_choose("full", 2)) for(unsigned i = 0; i < _root->zones_used; i++) if(_root->zones[i].internal) { uint8_t f = sx_u8("is_full"); sx_assume(f <= 1); _root->zones[i].is_full = f; }
    sx_fork_region((uint64_t) _root->zones);
    void *r = iso_alloc(n); served(r, n);
    void *s = iso_alloc(n); served(s, n);
    sx_assert(r != s && r != p && r != q && s != p && s != q, "P01,P13 a block is handed out twice");
    sx_assert(z->af_count == 0 && z2->af_count == 0, "P13 a general request uses a private zone");
    sx_reach("end");
}
