// Leak and usage reports. P21
#include "hx.h"
#ifndef W
#define W 3
#endif
static const uint64_t sizes[] = { 32, 1024, 8192, 20000, 65536 };
// a zone in any state within a window of W chunks (states, contents of permanently freed chunks), a fixed pattern elsewhere
static zone_t *z; static iso_alloc_zone_handle *h; static uint64_t c0, n0, live, base_live;
static void build(void) {
    uint64_t sz = sizes[sx_choose("size", 5)];
    z = hx_private(sz, &h);
    uint64_t nc = z->chunk_count; int pat = sx_choose("pattern", 2); static const uint64_t p[] = { 0, 1 };
    // start from nothing in use but the chunks set aside at creation
    base_live = 0;
    if(pat) for(uint64_t i = 0; i < 64 && i < nc; i++) if(z_state(z, i) == C_FREE) { uint64_t st = i % 3 == 0 ? C_USED : i % 3 == 1 ? C_FREED : C_CANARY; z_set(z, i, st); if(st == C_USED) base_live++; if(st == C_CANARY) z_put_canary(z, i); }
    (void) p;
    switch(sx_choose("where", 3)) { case 0: c0 = 0; break; case 1: c0 = nc / 2; break; default: c0 = nc - W; }
    n0 = 0;
    for(int i = 0; i < W; i++) {
        uint64_t c = c0 + i; if(z_state(z, c) == C_USED && c < 64 && pat) base_live--;
        uint64_t st = sx_u64("state"); sx_assume(st < 4); z_set(z, c, st);
        uint64_t a = z_chunk(z, c), good = z_canary(z, a);
        uint64_t x = sx_u64("head"), y = sx_u64("tail");
        *(uint64_t *) a = x; *(uint64_t *) (a + z->chunk_size - 8) = y;
#if DISABLE_CANARY
        bool set_aside = true;
#else
        bool set_aside = x == good && y == good;
#endif
        n0 += (st == C_USED) | ((st == C_CANARY) & !set_aside);
    }
    live = base_live + n0;
}
//@job prop=P21,P26 entry=h_leak cfg=base,nomask,nocanary tier=quick timeout=150 reach=end bound="5 chunk sizes; any states and contents of 3 neighbouring chunks at the start, middle or end of the zone; elsewhere all free or a mixture"
//@job prop=P21,P26 entry=h_leak cfg=tagging,sanity,nothreads,spinlock,profiler defs="W=4" tier=thorough timeout=250 reach=end bound="as above, 4 chunks"
void h_leak(void) {
    hx_init();
    build();
    int s1 = sx_snap(z, sizeof(*z)), s2 = sx_snap((void *) z_bitmap(z), z->bitmap_size), s3 = sx_snap(_root, sizeof(iso_alloc_root)); uint64_t w = z_chunk(z, c0), e = env_nev, cs = z->chunk_size; int s4 = sx_snap((void *) w, W * cs);
    uint64_t got = iso_alloc_detect_zone_leaks(h);
    sx_assert(got == live, "P21 the leak report of a zone differs from its live blocks");
    sx_assert(sx_same(s1, (uint64_t) z, sizeof(*z)), "P21,P26 the leak report changes the zone");
    sx_assert(sx_same(s2, z_bitmap(z), z->bitmap_size), "P21 the leak report changes the bitmap");
    sx_assert(sx_same(s3, (uint64_t) _root, sizeof(iso_alloc_root)), "P21 the leak report changes the root");
    for(int i = 0; i < W; i++) for(int k = 0; k < 4; k++) { uint64_t a = w + i * cs + (k < 2 ? k * 8 : cs - 32 + k * 8); sx_assert(*(uint64_t *) a == sx_snap_u64(s4, a), "P21 the leak report changes user memory"); }
    sx_assert(env_nev == e, "P21 the leak report calls the operating system");
    hx_no_locks("P25,P21 lock left held");
    sx_reach("end");
}
// real histories: the count follows allocations and frees
#ifndef STEPS
#define STEPS 3
#endif
//@job prop=P21 entry=h_leak_hist cfg=base,small tier=quick timeout=100 reach=end bound="3 operations out of 5, private zone and default zones, frees flushed"
//@job prop=P21 entry=h_leak_hist cfg=nothreads,spinlock,sanitize,nomask,nocanary,tagging defs="STEPS=4" tier=thorough timeout=200 reach=end bound="4 operations out of 5, private zone and default zones, frees flushed"
void h_leak_hist(void) {
    hx_init();
    iso_alloc_zone_handle *g = iso_alloc_new_zone(128); void *p[8]; int n = 0; void *q[8]; int m = 0; uint64_t bigs = 0; void *b = NULL;
    for(int k = 0; k < STEPS; k++) switch(sx_choose("op", 5)) {
        case 0: p[n++] = iso_alloc_from_zone(g); break;
        case 1: q[m++] = iso_alloc(200); break;
        case 2: if(n) { n--; if(sx_choose("permanent", 2)) iso_free_from_zone_permanently(p[n], g); else iso_free_from_zone(p[n], g); } break;
        case 3: if(m) { m--; if(sx_choose("permanent", 2)) iso_free_permanently(q[m]); else { iso_free(q[m]); iso_flush_caches(); } } break;
        case 4: if(b) { iso_free_size(b, 70000); b = NULL; } else b = iso_alloc(70000); break;
    }
    bigs = b ? 73728 : 0;
    sx_assert(iso_alloc_detect_zone_leaks(g) == n, "P21 the leak report of a private zone differs from its live blocks");
    sx_assert(iso_alloc_detect_leaks() == n + m + bigs, "P21 the leak report differs from the live blocks plus the bytes of big blocks in use");
    for(int i = 0; i < n; i++) iso_free_from_zone(p[i], g);
    sx_assert(iso_alloc_detect_zone_leaks(g) == 0, "P21 an emptied zone reports leaks");
    hx_no_locks("P25,P21 lock left held");
    sx_reach("end");
}
//@job prop=P21 entry=h_usage cfg=base,bigguard,nomask tier=quick timeout=100 reach=end bound="2 big blocks in use and 1 cached, each of any size up to 4 GB; 0 to 2 private zones"
//@job prop=P21 entry=h_usage cfg=nothreads,spinlock,small,tagging tier=thorough timeout=100 reach=end bound="2 big blocks in use and 1 cached, each of any size up to 4 GB; 0 to 2 private zones"
void h_usage(void) {
    hx_init();
    iso_alloc_zone_handle *g = NULL; int nz = sx_choose("zones", 3); for(int i = 0; i < nz; i++) g = iso_alloc_new_zone(i ? 64 : 40000);
    void *b[3]; for(int i = 0; i < 3; i++) b[i] = iso_alloc(70000 + i * 30000);
    iso_free_size(b[2], 70000);
    uint64_t bytes = 0, used = 0, extra = 0;
    for(int i = 0; i < 3; i++) { big_t *x = b_find(i == 2 ? _root->big_zone_free : _root->big_zone_used, b[i]); x->size = sx_u64("size"); sx_assume((x->size & 4095) == 0 && x->size > 65536 && x->size <= 0x100000000ull); used += x->size; extra += 4096 * 5; }
    for(unsigned i = 0; i < _root->zones_used; i++) bytes += ZONE_USER_SIZE + _root->zones[i].bitmap_size;
    int s3 = sx_snap(_root, sizeof(iso_alloc_root)), s1 = sx_snap(_root->zones, _root->zones_used * sizeof(zone_t)); uint64_t e = env_nev;
    uint64_t r = iso_alloc_mem_usage();
    uint64_t lo = (bytes + used) / MEGABYTE_SIZE, hi = (bytes + used + extra) / MEGABYTE_SIZE;
    sx_assert(r + 2 >= lo && r <= hi, "P21 the usage report is not the mapped megabytes (each part rounded down)");
    if(g) { uint64_t zr = iso_alloc_zone_mem_usage(g); sx_assert(zr == (ZONE_USER_SIZE + z_handle(g)->bitmap_size) / MEGABYTE_SIZE, "P21 the usage report of a zone"); }
    sx_assert(iso_alloc_detect_leaks() == used - b_find(_root->big_zone_free, b[2])->size, "P21 big blocks in use are not all reported as leaked");
    sx_assert(iso_alloc_zone_mem_usage(NULL) == 0 && iso_alloc_detect_zone_leaks(NULL) == 0, "P21 report without a zone");
    sx_assert(sx_same(s3, (uint64_t) _root, sizeof(iso_alloc_root)) && sx_same(s1, (uint64_t) _root->zones, _root->zones_used * sizeof(zone_t)) && env_nev == e, "P21,P26 a report changes the allocator's state");
    hx_no_locks("P25,P21 lock left held");
    sx_reach("end");
}
