// Memory tags of private zones. P22
#include "hx.h"
#define ADDR(p) ((uint64_t) (p) & 0x00ffffffffffffffull)
#define TAG(p) ((uint8_t) ((uint64_t) (p) >> 56))
static const uint64_t sizes[] = { 16, 33, 100, 256, 1000, 1024, 4096, 8192, 10000, 20000, 50000, 65536 };
static zone_t *z; static iso_alloc_zone_handle *h; static uint64_t c, nc, cs; static void *p;
// where the tags are kept (MEMORY_TAGGING.md): below the user pages with one guard page between
static uint8_t *tags(void) { return (uint8_t *) (z_user(z) - 4096 - ((nc + 4095) & ~4095ull)); }
static void pick(int n) {
    h = iso_alloc_new_zone(sizes[sx_choose("size", n)]); z = z_handle(h); nc = z->chunk_count; cs = z->chunk_size;
    switch(sx_choose("chunk", 4)) { case 0: c = 0; break; case 1: c = 1; break; case 2: c = nc / 2 + 1; break; default: c = nc - 1; }
    p = (void *) z_chunk(z, c);
}
static uint64_t near(int i) { switch(i) { case 0: return c ? c - 1 : c + 1; case 1: return c + 1 < nc ? c + 1 : c - 1; case 2: return c < 8 ? nc - 1 : 0; default: return c >= 8 ? c - 7 : c + 7 < nc ? c + 7 : c ? c - 1 : 1; } }
//@job prop=P22 entry=h_tag cfg=tagging tier=quick timeout=150 reach=end,bad bound="12 chunk sizes from 16 to 65536, first, second, middle and last chunk, every tag of the chunk and its neighbours, every top byte of the pointer"
//@job prop=P22 entry=h_tag cfg=tagging_cleanup,tagging_nothreads,tagging_spinlock,tagging_sanitize,tagging_nomask tier=thorough timeout=200 reach=end,bad bound="as above in other builds"
void h_tag(void) {
    hx_init();
    pick(12);
    uint8_t *t = tags(); uint8_t v = sx_u8("tag"); t[c] = v;
    uint8_t nb[4]; for(int i = 0; i < 4; i++) { nb[i] = sx_u8("neighbour"); if(near(i) != c) t[near(i)] = nb[i]; }
    int s1 = sx_snap(z, sizeof(*z)), s2 = sx_snap(_root, sizeof(iso_alloc_root)), s3 = sx_snap(t, nc);
    sx_assert(iso_alloc_get_mem_tag(p, h) == v, "P22 the tag of a chunk is not its own");
    void *q = iso_alloc_tag_ptr(p, h);
    sx_assert(ADDR(q) == (uint64_t) p && TAG(q) == v, "P22 tagging a pointer does not put the chunk's tag in its top byte");
    sx_assert(iso_alloc_untag_ptr(q, h) == p, "P22 untagging a tagged pointer does not give it back");
    iso_alloc_verify_ptr_tag(q, h);
    for(int i = 0; i < 4; i++) { uint64_t o = near(i); if(o == c) continue; void *r = (void *) z_chunk(z, o); sx_assert(iso_alloc_get_mem_tag(r, h) == t[o], "P22 the tag of a neighbour"); sx_assert(iso_alloc_untag_ptr(iso_alloc_tag_ptr(r, h), h) == r, "P22 the pointer to a neighbour does not round-trip"); }
    sx_assert(iso_alloc_tag_ptr(NULL, h) == NULL && iso_alloc_untag_ptr(NULL, h) == NULL && iso_alloc_get_mem_tag(NULL, h) == 0, "P22 a null pointer gets a tag"); iso_alloc_verify_ptr_tag(NULL, h);
    sx_assert(sx_same(s1, (uint64_t) z, sizeof(*z)) && sx_same(s2, (uint64_t) _root, sizeof(iso_alloc_root)), "P22,P26 a tag query changes the allocator's state");
    sx_assert(sx_same(s3, (uint64_t) t, nc), "P22 a tag query changes a tag");
    hx_no_locks("P25,P22 lock left held");
    sx_reach("end");
    // any other top byte is rejected, and untagging it does not give a usable pointer
    uint8_t w = sx_u8("wrong"); sx_assume(w != v); sx_reach("bad");
    void *bad = (void *) ((uint64_t) p | (uint64_t) w << 56);
    sx_assert(iso_alloc_untag_ptr(bad, h) != p, "P22 a pointer with a wrong tag untags to a usable pointer");
    sx_abort_allowed(true);
    iso_alloc_verify_ptr_tag(bad, h);
    sx_must_not_return(true, "P22 a wrong tag passes verification");
}
// pointers that are not the start of a chunk of this zone have no tag
//@job prop=P22,P07 entry=h_tag_foreign cfg=tagging tier=quick timeout=100 reach=go bound="4 kinds of pointer that is no chunk of the zone, 5 operations"
void h_tag_foreign(void) {
    hx_init();
    iso_alloc_zone_handle *g = iso_alloc_new_zone(256); void *o = iso_alloc_from_zone(g);
    h = iso_alloc_new_zone(512); z = z_handle(h); void *x = iso_alloc(200);
    switch(sx_choose("kind", 4)) { case 0: p = o; break; case 1: p = x; break; case 2: { uint64_t d = sx_u64("offset"); sx_assume(d < 512 && d != 0); p = (void *) (z_user(z) + 1024 + d); break; } default: p = (void *) (sx_choose("side", 2) ? z_user(z) - 8 : z_user(z) + ZONE_USER_SIZE); }
    sx_abort_allowed(true); sx_reach("go");
    switch(sx_choose("op", 4)) { case 0: (void) iso_alloc_get_mem_tag(p, h); break; case 1: (void) iso_alloc_tag_ptr(p, h); break; case 2: (void) iso_alloc_untag_ptr(p, h); break; default: iso_alloc_verify_ptr_tag(p, h); }
    sx_must_not_return(true, "P22 a pointer outside the zone's chunks has a tag");
}
// allocate tagged, free with any top byte: the right tag or none frees exactly that chunk and changes its tag only
//@job prop=P22,P05,P07 entry=h_tag_free cfg=tagging tier=quick timeout=150 reach=freed,kept bound="5 chunk sizes, 5 chunk tags, every top byte (2 wrong ones for chunk sizes that are no power of two), plain and permanent free"
//@job prop=P22,P05,P07 entry=h_tag_free cfg=tagging_cleanup,tagging_nothreads,tagging_spinlock,tagging_sanitize,tagging_nomask tier=thorough timeout=200 reach=freed,kept bound="as above in other builds"
void h_tag_free(void) {
    hx_init();
    static const uint64_t ss[] = { 16, 100, 1024, 10000, 65536 };
    h = iso_alloc_new_zone(ss[sx_choose("size", 5)]); z = z_handle(h); nc = z->chunk_count; cs = z->chunk_size;
    void *a[3]; for(int i = 0; i < 3; i++) { a[i] = iso_alloc_from_zone_tagged(h); sx_assert(iso_alloc_untag_ptr(a[i], h) == (void *) ADDR(a[i]) && hx_live((void *) ADDR(a[i]), cs), "P22,P01 a tagged allocation is not a live block"); }
    p = (void *) ADDR(a[1]); c = ((uint64_t) p - z_user(z)) / cs;
    static const uint8_t vs[] = { 0, 1, 0x7f, 0x80, 0xff };
    uint8_t *t = tags(); uint8_t v = vs[sx_choose("tag", 5)]; t[c] = v;
    uint8_t w = sx_u8("top"); if(w == v) w = v; else if(w == 0) w = 0; else if(cs & (cs - 1)) w = v ^ (sx_choose("bit", 2) ? 1 : 0x80);
    void *q = (void *) ((uint64_t) p | (uint64_t) w << 56);
    int s3 = sx_snap(t, nc);
    bool good = w == v || w == 0; sx_abort_allowed(!good);
    int perm = sx_choose("permanent", 2);
    if(perm) iso_free_from_zone_permanently(q, h); else iso_free_from_zone(q, h);
    sx_assert(good, "P22,P07 a pointer with a wrong tag is released");
    sx_assert(z_state(z, c) == (perm ? C_CANARY : C_FREED), "P22,P05 the block was not released");
    sx_assert(hx_live((void *) ADDR(a[0]), cs) && hx_live((void *) ADDR(a[2]), cs), "P22,P05 another block was released");
    for(uint64_t i = 0; i < nc; i++) if(i != c) { if(t[i] != sx_snap_u8(s3, (uint64_t) (t + i))) { sx_assert(false, "P22 the tag of another chunk changed"); break; } if(i > c + 40 && i + 40 < nc) i = nc - 40; }
    iso_alloc_verify_ptr_tag(a[0], h); iso_alloc_verify_ptr_tag(a[2], h);
    sx_assert(sx_prot(z_user(z) - 1) == 0 && sx_prot((uint64_t) t - 1) == 0 && sx_prot(z_user(z) + ZONE_USER_SIZE) == 0, "P22,P12 guard page");
    hx_no_locks("P25,P22 lock left held");
    if(perm) sx_reach("kept"); else sx_reach("freed");
}
// the tags of freed chunks change (random: all of them staying the same has a chance of 2^-64)
//@job prop=P22 entry=h_tag_change cfg=tagging tier=quick timeout=100 reach=one,all bound="4 chunk sizes, 8 chunks freed plainly or permanently; zones before and after a quarter of their retirement age"
//@job prop=P22 entry=h_tag_change cfg=tagging_cleanup,tagging_nothreads,tagging_spinlock,tagging_nomask tier=thorough timeout=100 reach=one,all bound="as above in other builds"
void h_tag_change(void) {
    hx_init();
    static const uint64_t ss[] = { 64, 1000, 8192, 65536 };
    h = iso_alloc_new_zone(ss[sx_choose("size", 4)]); z = z_handle(h); nc = z->chunk_count; cs = z->chunk_size;
    void *a[8]; for(int i = 0; i < 8; i++) a[i] = iso_alloc_from_zone_tagged(h);
    int aged = sx_choose("aged", 2);
    if(aged) z->alloc_count = (uint64_t) nc * 1024 * 4; // older than any configured age
    uint8_t *t = tags(); int s3 = sx_snap(t, nc), s4 = sx_snap((void *) z_user(z), 64);
    int perm = sx_choose("permanent", 2);
    for(int i = 0; i < 8; i++) { if(perm) iso_free_from_zone_permanently(a[i], h); else iso_free_from_zone(a[i], h); }
    int same = 0; for(int i = 0; i < 8; i++) same += iso_alloc_get_mem_tag((void *) ADDR(a[i]), h) == TAG(a[i]);
    sx_assert(same < 4, "P22 the tags of freed chunks do not change");
    uint64_t changed = 0, others = 0; for(uint64_t i = 0; i < nc; i++) { bool mine = false; for(int k = 0; k < 8; k++) mine |= z_chunk(z, i) == ADDR(a[k]); if(mine) continue; others++; changed += t[i] != sx_snap_u8(s3, (uint64_t) (t + i)); }
    sx_assert(aged ? changed > others / 2 : changed == 0, aged ? "P22 the tags of an old empty zone are not refreshed" : "P22 freeing a block changes the tags of others");
    // still consistent and usable
    for(int i = 0; i < 8; i++) { void *q = iso_alloc_from_zone_tagged(h); iso_alloc_verify_ptr_tag(q, h); sx_assert(iso_alloc_untag_ptr(q, h) == (void *) ADDR(q), "P22 round trip after the tags changed"); }
    iso_verify_zone(h);
    sx_assert(sx_prot(z_user(z) - 1) == 0 && sx_prot((uint64_t) t - 1) == 0, "P22,P12 guard page");
    hx_no_locks("P25,P22 lock left held");
    if(aged) sx_reach("all"); else sx_reach("one");
    iso_alloc_destroy_zone(h);
    sx_assert(sx_prot((uint64_t) t) == 255, "P22,P12 the tags of a destroyed zone stay mapped");
}
