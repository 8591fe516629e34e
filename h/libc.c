// Checked memory functions of the libc hooks. P23
#include "hx.h"
void *hk_memcpy(void *, const void *, size_t); void *hk_memmove(void *, const void *, size_t); void *hk_memset(void *, int, size_t);
static uint8_t buf[160], ref[160];
#ifndef LEN
#define LEN 40
#endif
// what the C standard says, byte by byte, on a copy of the buffer taken before
static void expect(int op, int d, int s, int n, uint8_t v) {
    uint8_t t[160]; for(int i = 0; i < 160; i++) t[i] = ref[i];
    for(int i = 0; i < n; i++) ref[d + i] = op == 2 ? v : t[s + i];
}
//@job prop=P23 entry=h_mem_exact cfg=libc tier=quick timeout=150 reach=end bound="any bytes; every length up to 40; 5 pairs of offsets, overlapping both ways (move) or apart (copy, fill); memory outside the zones, within a chunk, and before initialisation"
//@job prop=P23 entry=h_mem_exact cfg=libc_nomask,libc_nothreads,libc_spinlock defs="LEN=60" tier=thorough timeout=250 reach=end bound="any bytes; every length up to 60; otherwise as above"
void h_mem_exact(void) {
    uint8_t *b; int where = sx_choose("where", 3);
    if(where) hx_init();
    if(where == 2) b = (uint8_t *) iso_alloc(160); else b = buf;
    for(int i = 0; i < 160; i++) ref[i] = 0;
    int op = sx_choose("op", 3), n = sx_choose("n", LEN + 1), d, s; uint8_t v = sx_u8("fill");
    if(op == 1) switch(sx_choose("overlap", 5)) { case 0: d = 30; s = 30; break; case 1: d = 31; s = 30; break; case 2: d = 30; s = 31; break; case 3: d = 30; s = 48; break; default: d = 60; s = 20; }
    else switch(sx_choose("apart", 2)) { case 0: d = 5; s = 80; break; default: d = 80; s = 80 - LEN; }
    sx_bytes(b, 160, "b"); for(int i = 0; i < 160; i++) ref[i] = b[i];
    expect(op, d, s, n, v);
    void *r = op == 0 ? hk_memcpy(b + d, b + s, n) : op == 1 ? hk_memmove(b + d, b + s, n) : hk_memset(b + d, v | (sx_u32("high") << 8), n);
    sx_assert(r == b + d, "P23 the result is not the destination");
    bool ok = true; for(int i = 0; i < 160; i++) ok &= b[i] == ref[i];
    sx_assert(ok, "P23 the bytes after the call are not what the C standard says");
    sx_reach("end");
}
// accesses that start in a chunk: they abort exactly when they leave it
#if MEMCPY_SANITY
static const uint64_t sizes[] = { 64, 32, 96, 256, 1000, 1024, 4096, 10000 };
//@job prop=P23 entry=h_mem_bound cfg=libc tier=quick timeout=150 reach=fits,beyond bound="8 chunk sizes, first, some and last chunk, 6 offsets in the chunk, any length; copy and move (chunk as source or destination) and fill; private and default zones"
//@job prop=P23 entry=h_mem_bound cfg=libc_nomask,libc_nothreads,libc_spinlock,libc_sanity,libc_small tier=thorough timeout=250 reach=fits,beyond bound="as above in other builds"
void h_mem_bound(void) {
    hx_init();
    uint64_t sz = sizes[sx_choose("size", 8)]; zone_t *z;
    if(sx_choose("private", 2)) z = hx_private(sz, NULL); else { z = hx_internal(sz); }
    sx_assert(z != NULL, "P23,P08 no zone");
    uint64_t cs = z->chunk_size, c, d, n = sx_u64("n");
    void *q; // make sure the lookup table knows the zone
    _root->chunk_lookup_table[ADDR_TO_CHUNK_TABLE((void *) z_user(z))] = z->index;
    switch(sx_choose("chunk", 3)) { case 0: c = 0; break; case 1: c = 7; break; default: c = z->chunk_count - 1; }
    switch(sx_choose("offset", 6)) { case 0: d = 0; break; case 1: d = 1; break; case 2: d = 8; break; case 3: d = cs - 17; break; case 4: d = cs - 1; break; default: d = cs - 9; }
    uint8_t *p = (uint8_t *) (z_chunk(z, c) + d); uint64_t room = cs - d; q = buf; (void) q;
    int op = sx_choose("op", 5);
    static uint8_t other[16384];
    if(sx_choose("fits", 2)) { // lengths on both sides of the threshold below which nothing is checked
        uint64_t ks[] = { 0, 1, 16, 17, room - 1, room }; n = ks[sx_choose("len", 6)]; sx_assume(n <= room);
        for(unsigned i = 0; i < 64 && i < n; i++) p[i] = other[i] = i;
        switch(op) { case 0: hk_memcpy(p, other, n); break; case 1: hk_memcpy(other, p, n); break; case 2: hk_memmove(p, other, n); break; case 3: hk_memmove(other, p, n); break; default: hk_memset(p, 7, n); }
        if(n) sx_assert(op == 4 ? p[n - 1] == 7 : p[n - 1] == other[n - 1], "P23 an access that fits was not carried out");
        sx_reach("fits");
    } else {
        sx_assume(n > room && n > SMALLEST_CHUNK_SZ); sx_reach("beyond"); // less are documented as unchecked
        uint64_t next = (uint64_t) p + room; int s = next < z_user(z) + ZONE_USER_SIZE ? sx_snap((void *) next, 8) : -1; (void) s;
        sx_abort_allowed(true);
        switch(op) { case 0: hk_memcpy(p, other, n); break; case 1: hk_memcpy(other, p, n); break; case 2: hk_memmove(p, other, n); break; case 3: hk_memmove(other, p, n); break; default: hk_memset(p, 7, n); }
        sx_must_not_return(true, "P23 a copy or fill longer than its chunk does not abort");
    }
}
// whole blocks that were handed out can always be copied and filled
//@job prop=P23,P08 entry=h_mem_live cfg=libc tier=quick timeout=150 reach=end bound="12 requested sizes up to 100000 bytes, private zones, blocks of zones missing from the lookup table; whole usable size"
//@job prop=P23,P08 entry=h_mem_live cfg=libc_nomask,libc_nothreads,libc_sanity,libc_small,libc_bigguard tier=thorough timeout=200 reach=end bound="as above in other builds"
void h_mem_live(void) {
    hx_init();
    static const uint64_t ss[] = { 1, 17, 32, 100, 250, 1000, 1024, 3000, 8192, 20000, 65536, 100000 };
    uint64_t n = ss[sx_choose("size", 12)]; void *a, *b; iso_alloc_zone_handle *h = NULL;
    if(n <= 65536 && sx_choose("private", 2)) { h = iso_alloc_new_zone(n); a = iso_alloc_from_zone(h); b = iso_alloc_from_zone(h); } else { a = iso_alloc(n); b = iso_alloc(n); }
    if(sx_choose("forgotten", 2)) memset(_root->chunk_lookup_table, 0, 131070);
    uint64_t u = iso_chunksz(a);
    sx_assert(u >= n && u == hx_usize(a), "P23,P17 usable size");
    hk_memset(a, 0x5a, u); hk_memcpy(b, a, u); hk_memmove(a, b, u);
    sx_assert(((uint8_t *) a)[u - 1] == 0x5a && ((uint8_t *) b)[u - 1] == 0x5a && ((uint8_t *) b)[0] == 0x5a, "P23 whole blocks are not copied");
    // into the middle and across both
    if(n >= 64) { hk_memcpy((uint8_t *) a + n / 2, b, n / 2); hk_memset((uint8_t *) b + 8, 1, u - 8); }
    if(h) { iso_free_from_zone(a, h); iso_free_from_zone(b, h); iso_alloc_destroy_zone(h); } else { iso_free(a); iso_free(b); iso_flush_caches(); }
    static uint8_t o1[64], o2[64]; hk_memcpy(o1, o2, 64); hk_memset(o1, 1, 64); hk_memmove(o2, o1, 64);
    iso_verify_zones();
    hx_no_locks("P25,P23 lock left held");
    sx_reach("end");
}
#endif
