// Helpers shared by the harnesses. Everything here looks at the allocator through its public
// entry points and the fields of its data structures.
#ifndef HX_H
#define HX_H
#include "iso_alloc_internal.h"
#include "env.h"
#include "sx.h"
#define HX static __attribute__((unused))
typedef iso_alloc_zone_t zone_t;
typedef iso_alloc_big_zone_t big_t;
// bit pairs of a chunk: bit 0 in use, bit 1 was used / set aside
enum { C_FREE = 0, C_USED = 1, C_FREED = 2, C_CANARY = 3 };

HX void hx_init(void) { iso_alloc_initialize(); }

HX uint64_t z_user(zone_t *z) {
#if MASK_PTRS
    return (uint64_t) z->user_pages_start ^ z->pointer_mask;
#else
    return (uint64_t) z->user_pages_start;
#endif
}
HX uint64_t z_bitmap(zone_t *z) {
#if MASK_PTRS
    return (uint64_t) z->bitmap_start ^ z->pointer_mask;
#else
    return (uint64_t) z->bitmap_start;
#endif
}
HX uint64_t *z_bm(zone_t *z) { return (uint64_t *) z_bitmap(z); }
HX int z_state(zone_t *z, uint64_t c) { return (z_bm(z)[c >> 5] >> ((c & 31) * 2)) & 3; }
HX void z_set(zone_t *z, uint64_t c, uint64_t st) { uint64_t *b = z_bm(z) + (c >> 5); unsigned k = (c & 31) * 2; *b = (*b & ~(3ull << k)) | (st << k); }
HX uint64_t z_chunk(zone_t *z, uint64_t c) { return z_user(z) + c * z->chunk_size; }
HX uint64_t z_canary(zone_t *z, uint64_t p) { return (z->canary_secret ^ p) & 0xffffffffffffff00ull; }
HX void z_put_canary(zone_t *z, uint64_t c) { uint64_t p = z_chunk(z, c), v = z_canary(z, p); *(uint64_t *) p = v; *(uint64_t *) (p + z->chunk_size - 8) = v; }
HX zone_t *z_handle(iso_alloc_zone_handle *h) {
#if MASK_PTRS
    return (zone_t *) ((uint64_t) h ^ _root->zone_handle_mask);
#else
    return (zone_t *) h;
#endif
}
HX iso_alloc_zone_handle *b_handle(zone_t *z) { return (iso_alloc_zone_handle *) z_handle((iso_alloc_zone_handle *) z); }
HX big_t *b_unmask(void *p) {
#if MASK_PTRS
    return (big_t *) ((uint64_t) p ^ _root->big_zone_next_mask);
#else
    return (big_t *) p;
#endif
}
HX void *b_mask(void *p) { return (void *) b_unmask(p); }
// the zone whose user pages contain p, or NULL (independent of the allocator's own lookup)
HX zone_t *z_of(uint64_t p) { for(unsigned i = 0; i < _root->zones_used; i++) { zone_t *z = &_root->zones[i]; if(p - z_user(z) < ZONE_USER_SIZE) return z; } return NULL; }
HX zone_t *z_sized(uint64_t sz) { for(unsigned i = 0; i < _root->zones_used; i++) if(_root->zones[i].chunk_size == sz && _root->zones[i].internal) return &_root->zones[i]; return NULL; }
HX unsigned z_count(zone_t *z, int st) { unsigned n = 0; for(unsigned c = 0; c < z->chunk_count; c++) n += z_state(z, c) == st; return n; }
// a new private zone and the structure behind its handle
HX zone_t *hx_private(uint64_t sz, iso_alloc_zone_handle **h) { iso_alloc_zone_handle *x = iso_alloc_new_zone(sz); if(h) *h = x; return z_handle(x); }
// an internal zone of the given chunk size
HX zone_t *hx_internal(uint64_t sz) { void *p = iso_alloc(sz); zone_t *z = z_of((uint64_t) p); (void) z; iso_free_size(p, sz); return z; }
// drop everything cached about which slot comes next: the zone starts from its bitmap
HX void z_nocache(zone_t *z) { z->next_free_bit_slot = -1; z->free_bit_slots_index = 0; z->free_bit_slots_usable = 0; z->is_full = false; for(int i = 0; i < ZONE_FREE_LIST_SZ; i++) z->free_bit_slots[i] = -1; }
HX void hx_no_locks(const char *id) { sx_assert(sx_locks_held() == 0, id); }
// quarantine without leaving the default free path
HX bool hx_quarantined(void *p) { for(unsigned i = 0; i < _root->chunk_quarantine_count; i++) if(_root->chunk_quarantine[i] == (uintptr_t) p) return true; return false; }
// the big block that starts at p on the list (NULL if none); walks at most 200 entries
HX big_t *b_find(big_t *head, void *p) { int k = 0; for(big_t *b = head ? b_unmask(head) : NULL; b != NULL && k < 200; k++) { if(b->user_pages_start == p) return b; b = b->next ? b_unmask(b->next) : NULL; } return NULL; }
HX unsigned b_len(big_t *head) { unsigned k = 0; for(big_t *b = head ? b_unmask(head) : NULL; b != NULL && k < 200; k++) b = b->next ? b_unmask(b->next) : NULL; return k; }
// every page of [p, p+n) has protection prot
HX bool hx_pages(uint64_t p, uint64_t n, int prot) { for(uint64_t a = p & ~4095ull; a < p + n; a += 4096) if(sx_prot(a) != prot) return false; return true; }
// p is a live block of at least n bytes as far as the allocator's own records and the page protections go
HX bool hx_held(void *p, uint64_t n) {
    zone_t *z = z_of((uint64_t) p);
    if(z != NULL) {
        uint64_t off = (uint64_t) p - z_user(z), c = off / z->chunk_size;
        return off % z->chunk_size == 0 && c < z->chunk_count && z->chunk_size >= n && z_state(z, c) == C_USED && off + z->chunk_size <= ZONE_USER_SIZE && sx_prot((uint64_t) p) == 3 && sx_prot((uint64_t) p + z->chunk_size - 1) == 3;
    }
    big_t *b = b_find(_root->big_zone_used, p);
    return b != NULL && b->size >= n && !b->free && sx_prot((uint64_t) p) == 3 && sx_prot((uint64_t) p + b->size - 1) == 3;
}
// ... and nobody has released it yet
HX bool hx_live(void *p, uint64_t n) { return hx_held(p, n) && !hx_quarantined(p); }
HX uint64_t hx_usize(void *p) { zone_t *z = z_of((uint64_t) p); if(z) return z->chunk_size; big_t *b = b_find(_root->big_zone_used, p); return b ? b->size : 0; }
// between calls the structure of a zone holds its addresses only under its secret
HX void z_rest(zone_t *z, uint64_t user, uint64_t bm) {
#if MASK_PTRS
    sx_assert(z->pointer_mask != 0 && (uint64_t) z->user_pages_start == (user ^ z->pointer_mask) && (uint64_t) z->bitmap_start == (bm ^ z->pointer_mask), "P26 an address of a zone is not stored under its secret");
#endif
}
#define HX_ISZERO(p) ((p) != NULL && (p) == _root->zero_alloc_page)
#endif
