// A pointer that may be anything, given to every entry point that takes a block.
// P06 P07 P15 P17 P05 P09
#include "hx.h"
#ifndef VIA
#define VIA 0
#endif
#define CSA 65536ull
#define CSB 20000ull
static zone_t *za, *zb; static iso_alloc_zone_handle *ha, *hb;
static uint64_t live[8], usz[8]; static int nlive;
static uint64_t isfreed[8]; static int nfreed; static uint64_t waiting; // a block in the quarantine
static bool is_live(uint64_t p) { bool r = false; for(int i = 0; i < nlive; i++) r |= p == live[i]; return r; }
static void add(void *p, uint64_t s) { sx_assert(p != NULL, "P08 setup"); live[nlive] = (uint64_t) p; usz[nlive++] = s; *(uint64_t *) p = 7000 + nlive; *(uint64_t *) ((uint64_t) p + s - 8) = 8000 + nlive; }
static void heap(void) {
    hx_init();
    za = hx_private(CSA, &ha); zb = hx_private(CSB, &hb);
    void *x = iso_alloc_from_zone(ha); add(iso_alloc_from_zone(ha), CSA); // x is freed again below
    void *y = iso_alloc_from_zone(hb); add(iso_alloc_from_zone(hb), CSB);
    add(iso_alloc(24), hx_usize(iso_alloc(24)));
    void *b1 = iso_alloc(100000); add(iso_alloc(200000), 200704);
    add(iso_alloc(70000), 73728);
    void *s = iso_alloc(24);
    iso_free_from_zone(x, ha); iso_free_from_zone_permanently(y, hb); iso_free(b1); iso_free_size(s, 24); iso_flush_caches();
    isfreed[nfreed++] = (uint64_t) x; isfreed[nfreed++] = (uint64_t) y; isfreed[nfreed++] = (uint64_t) b1; isfreed[nfreed++] = (uint64_t) s;
    void *w = iso_alloc_from_zone(ha); iso_free(w); waiting = (uint64_t) w;
}
// p ranges over the whole address space, cut into regions so that each stays small for the solver
static uint64_t anyptr(void) {
    uint64_t p = sx_u64("p");
    uint64_t e = z_user(zb);
    switch(sx_choose("region", 9)) {
    case 0: { uint64_t c = sx_choose("chunk", 64); sx_assume(p - z_chunk(za, c) < CSA); p = z_chunk(za, c) + (p - z_chunk(za, c)); break; }
    case 1: sx_assume(p - e < 4 * CSB); break;
    case 2: sx_assume(p - (e + 207 * CSB) < ZONE_USER_SIZE - 207 * CSB); break; // the tail, with the gap past the last chunk
    case 3: { uint64_t k = sx_choose("big", 2) + nlive - 2; sx_assume(p - (live[k] - 8192) < usz[k] + 3 * 8192); break; }
    case 4: { uint64_t k = sx_choose("freed", 4); static const int64_t d[] = { 0, -8, 8, 16, 4096 }; sx_assume(p == isfreed[k] + d[sx_choose("delta", 5)]); p = sx_concrete(p); break; }
    case 5: { // set-aside and never allocated chunks, bitmaps and guards of the default zones
        zone_t *z = &_root->zones[sx_choose("zone", 8)]; uint64_t q;
        switch(sx_choose("what", 6)) {
        case 0: q = z_user(z) + ZONE_USER_SIZE - z->chunk_size; break;
        case 1: q = z_bitmap(z); break;
        case 2: q = z_user(z) - 4096; break;
        case 3: q = z_user(z) + ZONE_USER_SIZE; break;
        case 4: { uint64_t c = 0; while(c < z->chunk_count && z_state(z, c) != C_CANARY) c++; q = z_chunk(z, c == z->chunk_count ? 0 : c); break; }
        default: q = live[2] + 8 + 16 * sx_choose("in", 2); break;
        }
        sx_assume(p == q); p = q; break; }
    case 6: { uint64_t qs[] = { (uint64_t) _root, (uint64_t) _root->zones, (uint64_t) _root->chunk_quarantine, (uint64_t) _root->chunk_lookup_table, (uint64_t) b_unmask(_root->big_zone_used), (uint64_t) &p, (uint64_t) &nlive, (uint64_t) _root->bitmaps[0].bitmap };
        uint64_t q = qs[sx_choose("meta", 8)] + 8 * sx_choose("word", 3); sx_assume(p == q); p = q; break; }
    case 7: sx_assume(p > 0x7fffffffffffull || p < 0x100000000ull); sx_assume(p != 0); break;
    case 8: { int i = sx_choose("live", nlive); sx_assume(p == live[i]); p = live[i]; break; }
    }
    return p;
}
static void others(uint64_t p, const char *id) {
    for(int i = 0; i < nlive; i++) if(p != live[i]) { sx_assert(*(uint64_t *) live[i] == 7001 + i && *(uint64_t *) (live[i] + usz[i] - 8) == 8001 + i, id); sx_assert(hx_live((void *) live[i], usz[i]), id); }
}
//@job prop=P07,P06,P05 entry=h_free_any cfg=base,nomask defs="VIA=0" tier=quick timeout=240 reach=call,ret bound="one release of any 64-bit value into a heap of 10 zones and 3 big blocks, 5 live, 4 freed, 1 waiting in the quarantine"
//@job prop=P07,P06,P09 entry=h_free_any cfg=base defs="VIA=1" tier=quick timeout=240 reach=call,ret bound="as above, permanent release"
//@job prop=P07,P06,P15 entry=h_free_any cfg=base,nothreads defs="VIA=2" tier=quick timeout=240 reach=call,ret bound="as above, sized release with any size"
//@job prop=P07,P06,P05 entry=h_free_any cfg=base defs="VIA=3" tier=quick timeout=240 reach=call,ret bound="as above, release through malloc family"
//@job prop=P07,P06,P04 entry=h_free_any cfg=base,permrealloc defs="VIA=4" tier=quick timeout=240 reach=call,ret bound="as above, resize to 40 bytes"
//@job prop=P07,P06,P14 entry=h_free_any cfg=base defs="VIA=5" tier=quick timeout=240 reach=call,ret bound="as above, release through the handle of a private zone"
//@job prop=P07,P06,P05 entry=h_free_any cfg=release,spinlock,nocanary,bigguard,protbig,verify,tagging,sanity,profiler,strong,uaf defs="VIA=0" tier=thorough timeout=300 reach=call,ret bound="one release of any 64-bit value into a heap of 10 zones and 3 big blocks, 5 live, 4 freed, 1 waiting in the quarantine"
//@job prop=P07,P06,P09,P15 entry=h_free_any cfg=nomask,sanitize,bigguard,protbig,tagging defs="VIA=2" tier=thorough timeout=300 reach=call,ret bound="as above, sized release with any size"
void hk_free(void *); size_t hk_malloc_usable_size(void *);
void h_free_any(void) {
    heap();
    uint64_t p = anyptr(), n = 0;
    if(p == (uint64_t) _root->zero_alloc_page) return;
    sx_fork_region((uint64_t) _root->zones);
    bool ok = is_live(p) && p != waiting;
#if VIA == 2
    n = sx_u64("n");
    uint64_t cap = 0; for(int i = 0; i < nlive; i++) if(p == live[i]) cap = usz[i];
    bool big = p == live[3] || p == live[4], fits = n <= cap && (big ? n > SMALL_SIZE_MAX : 1);
    // sizes that fit are accepted; a size that does not fit is refused. A big block with a small size may be refused
    ok = ok && fits;
    sx_abort_allowed(!ok);
#elif VIA == 5
    ok = p == live[0];
    sx_abort_allowed(!ok);
#else
    sx_abort_allowed(!ok);
#endif
    uint32_t used = _root->big_zone_used_count;
    bool wasbig = b_find(_root->big_zone_used, (void *) p) != NULL;
    sx_reach("call");
    void *r = NULL;
#if VIA == 0
    iso_free((void *) p); iso_flush_caches();
#elif VIA == 1
    iso_free_permanently((void *) p); iso_flush_caches();
#elif VIA == 2
    iso_free_size((void *) p, n); iso_flush_caches();
#elif VIA == 3
    hk_free((void *) p); iso_flush_caches();
#elif VIA == 4
    sx_fault_allowed(!ok); // copying from a bad pointer may crash before it is released
    r = iso_realloc((void *) p, 40);
#elif VIA == 5
    iso_free_from_zone((void *) p, ha); iso_flush_caches();
#endif
#if VIA == 2
    if(is_live(p)) sx_assert(n <= cap, "P15 a sized release with a size that does not fit returns");
    sx_assert(is_live(p), "P07,P06 releasing something that is not a live block returns");
#elif VIA == 5
    sx_assert(ok, "P07,P14 a block of another zone is released through a private handle");
#elif VIA == 4
    iso_flush_caches();
    sx_assert(ok, "P07,P06,P04 resizing something that is not a live block returns");
#else
    sx_assert(ok, "P07,P06 releasing something that is not a live block returns");
#endif
    sx_reach("ret");
    sx_assert(r == (void *) p || !hx_live((void *) p, 8), "P05 the block still counts as live after its release");
    if(wasbig) sx_assert(_root->big_zone_used_count == used - 1, "P16,P05 count of big blocks in use");
    else sx_assert(_root->big_zone_used_count == used, "P16,P05 count of big blocks in use");
    others(p, "P05,P01 another live block was changed");
    hx_no_locks("P25,P05 lock left held");
}
//@job prop=P17 entry=h_chunksz_any cfg=base,nomask,nothreads tier=quick timeout=240 reach=call,small,big,free bound="usable size of any 64-bit value in a heap of 10 zones and 3 big blocks; then every block is released"
//@job prop=P17 entry=h_chunksz_any cfg=release,spinlock,bigguard,sanity,tagging,protbig,profiler tier=thorough timeout=300 reach=call,small,big,free bound="usable size of any 64-bit value in a heap of 10 zones and 3 big blocks; then every block is released"
void h_chunksz_any(void) {
    heap();
    iso_flush_caches();
    uint64_t p = anyptr();
    if(p == (uint64_t) _root->zero_alloc_page) { sx_assert(iso_chunksz((void *) p) == 0, "P17 usable size of the zero-size block"); return; }
    sx_fork_region((uint64_t) _root->zones);
    bool ok = is_live(p);
    zone_t *z = z_of(p);
    sx_abort_allowed(!ok);
    int s1 = sx_snap(_root, sizeof(*_root)), s2 = sx_snap(_root->zones, 12 * sizeof(zone_t));
    uint64_t bl[4]; int k = 0; for(big_t *b = b_unmask(_root->big_zone_used); b && k < 4; b = b->next ? b_unmask(b->next) : NULL) bl[k++] = (uint64_t) b;
    sx_reach("call");
    uint64_t n = sx_choose("viamalloc", 2) ? hk_malloc_usable_size((void *) p) : iso_chunksz((void *) p);
    bool inbig = false; for(int i = nlive - 2; i < nlive; i++) inbig |= p == live[i];
    sx_assert(z != NULL || inbig, "P17 a foreign pointer gets a usable size");
    if(z) { sx_reach("small"); sx_assert(n == z->chunk_size, "P17 usable size of a chunk"); }
    else { sx_reach("big"); for(int i = nlive - 2; i < nlive; i++) if(p == live[i]) sx_assert(n == usz[i], "P17 usable size of a big block"); }
    for(uint64_t o = 0; o < sizeof(*_root); o += 8) if(o < offsetof(iso_alloc_root, zone_lookup_table) || o >= offsetof(iso_alloc_root, bitmaps)) {
#if THREAD_SUPPORT
#if USE_SPINLOCK
        if(o == (offsetof(iso_alloc_root, big_zone_free_flag) & ~7ull)) continue;
#else
        if(o >= offsetof(iso_alloc_root, big_zone_free_mutex) && o < offsetof(iso_alloc_root, zone_retirement_shf)) continue;
#endif
#endif
        sx_assert(*(uint64_t *) ((uint64_t) _root + o) == sx_snap_u64(s1, (uint64_t) _root + o), "P17 asking for a size changed the allocator's state");
    }
    for(int i = 0; i < 10; i++) { zone_t *y = &_root->zones[i]; for(uint64_t o = 0; o + 8 <= sizeof(zone_t); o += 8) sx_assert(*(uint64_t *) ((uint64_t) y + o) == sx_snap_u64(s2, (uint64_t) y + o), "P17 asking for a size changed a zone"); }
    int m = 0; for(big_t *b = b_unmask(_root->big_zone_used); b && m < 4; b = b->next ? b_unmask(b->next) : NULL) { sx_assert(m < k && bl[m] == (uint64_t) b, "P17,P16 asking for a size changed the list of big blocks"); m++; }
    sx_assert(m == k && _root->big_zone_used_count == k, "P17,P16 asking for a size changed the list of big blocks");
    others(0, "P17 asking for a size changed a block");
    if(ok) { sx_reach("free"); int i = sx_choose("order", nlive); for(int j = 0; j < nlive; j++) iso_free((void *) live[(i + j) % nlive]); iso_flush_caches(); for(int j = 0; j < nlive; j++) sx_assert(!hx_live((void *) live[j], 8), "P17 a block cannot be released after its size was asked for"); }
    hx_no_locks("P25,P17 lock left held");
}
//@job prop=P17 entry=h_chunksz_trivial cfg=base,sanity tier=quick timeout=60 reach=ok bound="null pointer and zero-size block"
void h_chunksz_trivial(void) {
    hx_init();
    sx_assert(iso_chunksz(NULL) == 0 && hk_malloc_usable_size(NULL) == 0, "P17 usable size of a null pointer");
    void *z = iso_alloc(0);
    sx_assert(iso_chunksz(z) == 0 && hk_malloc_usable_size(z) == 0, "P17 usable size of the zero-size block");
    sx_reach("ok");
}
// Chunk sizes whose bitmap is too short for the whole zone leave a gap of unused memory past the last chunk. The bitmap
// of the next zone lies right behind, so an address in the gap must be refused whatever that zone's chunks are doing.
//@job prop=P07,P05,P15 entry=h_gap cfg=base,nomask tier=quick timeout=240 reach=call bound="release of any address past the last chunk of a zone whose bitmap shares a page, through 6 entry points; the first chunk of the zone behind live, freed or unused"
//@job prop=P07,P05,P15 entry=h_gap cfg=release,tagging,permrealloc,nothreads,strong,verify tier=thorough timeout=300 reach=call bound="release of any address past the last chunk of a zone whose bitmap shares a page, through 6 entry points; the first chunk of the zone behind live, freed or unused"
void h_gap(void) {
    hx_init();
    static const uint64_t css[] = { 32032, 17008 };
    uint64_t cs = css[sx_choose("size", 2)];
    za = hx_private(cs, &ha); zb = hx_private(cs, &hb);
    uint64_t end = (uint64_t) za->chunk_count * cs, used[128]; int nu = 0, st;
    sx_assert(za->bitmap_size < 4096 && end < ZONE_USER_SIZE, "P14 setup: a zone with a short bitmap");
    add(iso_alloc_from_zone(ha), cs);
    // one of the first chunks of the zone behind is in the wanted state; reaching them takes as many requests as there are chunks
    st = sx_choose("state", 3);
    if(st) while(nu < 128) { void *q = iso_alloc_from_zone(hb); if(!q) break; used[nu++] = (uint64_t) q; }
    sx_assert(!st || nu >= 120, "P08 setup: a zone cannot be filled");
    if(st == 2) for(int i = 0; i < nu; i++) if(used[i] < z_user(zb) + 32 * cs) iso_free_from_zone((void *) used[i], hb);
    iso_flush_caches();
    sx_fork_region((uint64_t) _root->zones);
    uint64_t p = sx_u64("p"), s = z_user(za);
    sx_assume(p - (s + end) < ZONE_USER_SIZE - end);
    sx_assume(((p - s) % 16) == 0);
    sx_abort_allowed(true);
    sx_reach("call");
    switch(sx_choose("via", 6)) {
    case 0: iso_free((void *) p); break;
    case 1: iso_free_permanently((void *) p); break;
    case 2: iso_free_size((void *) p, cs); break;
    case 3: hk_free((void *) p); break;
    case 4: iso_free_from_zone((void *) p, ha); break;
    case 5: sx_fault_allowed(true); iso_realloc((void *) p, 40); break;
    }
    iso_flush_caches();
    sx_assert(false, "P07,P05 an address past the last chunk of a zone is released");
}
