// Page protections around everything the allocator maps
#ifndef INV_H
#define INV_H
#include "hx.h"
// n bytes at p are accessible and the pages before and after them are not
HX void bracket(uint64_t p, uint64_t n, const char *in, const char *lo, const char *hi) {
    uint64_t e = (p + n + 4095) & ~4095ull;
    sx_assert(hx_pages(p, n, 3), in);
    sx_assert(sx_prot((p & ~4095ull) - 1) == 0, lo);
    sx_assert(sx_prot(e) == 0, hi);
}
HX void zone_ok(zone_t *z) {
    bracket(z_user(z), ZONE_USER_SIZE, "P12,P35,P01 user pages of a zone are not accessible", "P12 no guard page below the user pages of a zone", "P12 no guard page above the user pages of a zone");
    uint64_t bm = z_bitmap(z);
    sx_assert((uint64_t) z->chunk_size * z->chunk_count <= ZONE_USER_SIZE && z->chunk_count <= 4 * (uint64_t) z->bitmap_size && z->max_bitmap_idx * 8 <= z->bitmap_size, "P12,P35,P01 a zone describes more chunks than it has room for");
    if(z->preallocated_bitmap_idx == -1) bracket(bm, z->bitmap_size, "P12,P35 the bitmap of a zone is not accessible", "P12 no guard page below a bitmap", "P12 no guard page above a bitmap");
    else {
        bracket(bm & ~4095ull, 4096, "P12,P35 a shared bitmap page is not accessible", "P12 no guard page below a shared bitmap page", "P12 no guard page above a shared bitmap page");
        sx_assert((bm & 4095) + z->bitmap_size <= 4096, "P12,P35 a bitmap leaves its shared page");
    }
#if MEMORY_TAGGING
    if(z->tagged) { uint64_t t = (z->chunk_count + 4095ull) & ~4095ull; bracket(z_user(z) - 4096 - t, t, "P12,P35,P22 the tags of a zone are not accessible", "P12 no guard page below the tags", "P12 no guard page above the tags"); }
#endif
}
// two zones never share user pages or bitmap bytes
HX void zones_apart(zone_t *z) {
    for(unsigned i = 0; i < _root->zones_used; i++) {
        zone_t *o = &_root->zones[i]; if(o == z) continue;
        uint64_t a = z_user(o), b = z_bitmap(o);
        sx_assert(z_user(z) >= a + ZONE_USER_SIZE || a >= z_user(z) + ZONE_USER_SIZE, "P12,P35,P01 two zones share user pages");
        sx_assert(z_bitmap(z) >= b + o->bitmap_size || b >= z_bitmap(z) + z->bitmap_size, "P12,P35,P01 two zones share a bitmap");
    }
}
HX void meta_ok(void) {
    bracket((uint64_t) _root, sizeof(iso_alloc_root), "P12,P35,P27 the root is not accessible", "P12,P27 no guard page below the root", "P12,P27 no guard page above the root");
    sx_assert(_root->zones_size >= MAX_ZONES * sizeof(zone_t), "P12,P35 the zone table is too small");
    bracket((uint64_t) _root->zones, _root->zones_size, "P12,P35 the zone table is not accessible", "P12 no guard page below the zone table", "P12 no guard page above the zone table");
    bracket((uint64_t) _root->chunk_lookup_table, 65535 * 2, "P12,P35 the chunk table is not accessible", "P12 no guard page below the chunk table", "P12 no guard page above the chunk table");
    bracket((uint64_t) _root->chunk_quarantine, 64 * 8, "P12,P35,P11 the quarantine is not accessible", "P12 no guard page below the quarantine", "P12 no guard page above the quarantine");
#if NO_ZERO_ALLOCATIONS
    sx_assert(sx_prot((uint64_t) _root->zero_alloc_page) == 0, "P12,P35,P18 the zero size page is accessible");
#endif
#if UAF_PTR_PAGE
    sx_assert(sx_prot((uint64_t) _root->uaf_ptr_page) == 0, "P12,P35,P34 the page for dangling pointers is accessible");
#endif
}
HX void big_ok(void *p) {
    big_t *b = b_find(_root->big_zone_used, p);
    sx_assert(b != NULL && hx_pages((uint64_t) p, b->size, 3), "P12,P35,P01 a big block is not accessible");
    sx_assert(sx_prot((uint64_t) b) == 3 && ((uint64_t) b & 4095) <= 4096 - sizeof(big_t), "P12,P35 metadata of a big block");
    sx_assert(((uint64_t) b >> 12) - ((uint64_t) p >> 12) >= (b->size >> 12) || ((uint64_t) b >> 12) < ((uint64_t) p >> 12), "P12,P35,P16 metadata of a big block lies in its user pages");
#if BIG_ZONE_GUARD
    sx_assert(sx_prot((uint64_t) p - 1) == 0, "P12,P35 no guard page below a big block"); sx_assert(sx_prot((uint64_t) p + b->size) == 0, "P12 no guard page above a big block");
#endif
#if BIG_ZONE_META_DATA_GUARD
    uint64_t m = (uint64_t) b & ~4095ull; sx_assert(sx_prot(m - 1) == 0, "P12,P35 no guard page below the metadata of a big block"); sx_assert(sx_prot(m + 4096) == 0, "P12 no guard page above the metadata of a big block");
#endif
}
HX void all_ok(void) { meta_ok(); for(unsigned i = 0; i < _root->zones_used; i++) zone_ok(&_root->zones[i]); }
#endif
