// Histories of calls against a model of which blocks are live.
// P01 P04 P05 P08 P11 P13 P14 P16 P06 P28
#include "hx.h"
#define MAXB 100
static struct { uint64_t p, n, v, live; } blk[MAXB]; static int nb;
static void put(int i) { uint64_t *w = (uint64_t *) blk[i].p; if(blk[i].n >= 8) { w[0] = blk[i].v; *(uint64_t *) (blk[i].p + (blk[i].n & ~7ull) - 8) = blk[i].v; } }
static int rec(void *p, uint64_t n, const char *id) {
    sx_assert(p != NULL, "P08,P14 a request fails although memory is available");
    if(n == 0) { sx_assert(HX_ISZERO(p), "P18 zero-size request"); return -1; }
    for(int i = 0; i < nb; i++) if(blk[i].live) sx_assert((uint64_t) p + n <= blk[i].p || blk[i].p + blk[i].n <= (uint64_t) p, "P01,P11 a new block overlaps a live or waiting one");
    sx_assert(((uint64_t) p & 7) == 0, "P01 a block is not 8-byte aligned");
    sx_assert(hx_live(p, n) && hx_pages((uint64_t) p, n, 3), "P01 a new block is not usable for its size");
    blk[nb].p = (uint64_t) p; blk[nb].n = n; blk[nb].live = 1; blk[nb].v = sx_u64("data"); put(nb); return nb++;
}
static void intact(const char *id) { for(int i = 0; i < nb; i++) if(blk[i].live == 1 && blk[i].n >= 8) { sx_assert(*(uint64_t *) blk[i].p == blk[i].v && *(uint64_t *) (blk[i].p + (blk[i].n & ~7ull) - 8) == blk[i].v, "P01,P05 the contents of a live block changed"); sx_assert(hx_live((void *) blk[i].p, blk[i].n), "P01,P05 a live block is no longer usable"); } }
static void quar_ok(void) {
    sx_assert(_root->chunk_quarantine_count <= 64, "P11 the quarantine holds more than 64 entries");
    for(unsigned i = 0; i < _root->chunk_quarantine_count; i++) for(unsigned j = 0; j < i; j++) sx_assert(_root->chunk_quarantine[i] != _root->chunk_quarantine[j], "P11 a block waits twice");
    // live == 2: released by the user. It either waits or has been released, never both
    for(int i = 0; i < nb; i++) if(blk[i].live == 2) { bool w = hx_quarantined((void *) blk[i].p); sx_assert(w == hx_held((void *) blk[i].p, 1), "P11,P05 a released block was lost or left the quarantine early"); if(!w) blk[i].live = 0; }
    for(int i = 0; i < nb; i++) if(blk[i].live == 1) sx_assert(!hx_quarantined((void *) blk[i].p), "P11 a live block waits in the quarantine");
}
static void ufree(int i) { iso_free((void *) blk[i].p); blk[i].live = 2; sx_assert(hx_quarantined((void *) blk[i].p) && hx_held((void *) blk[i].p, blk[i].n), "P11 a freed block does not wait in the quarantine"); }
static bool z_none(zone_t *z) { uint64_t *b = z_bm(z), r = 0; for(int64_t i = 0; i < z->max_bitmap_idx; i++) r |= b[i] & ~(b[i] >> 1) & 0x5555555555555555ull; return r == 0; }
#ifndef STEPS
#define STEPS 3
#endif
//@job prop=P11 entry=h_quar cfg=base,nothreads tier=quick timeout=200 reach=step,end bound="quarantine filled to 0,1,62,63 or 64 entries; then 3 calls of: release of a private, internal or big block, flush, request, destruction of a private zone; then flush or shutdown"
//@job prop=P11,P05,P08,P06 entry=h_quar cfg=sanitize,spinlock,nocanary,tagging,verify,protbig,permrealloc defs="STEPS=4" tier=thorough timeout=300 reach=step,end bound="as above with 4 calls"
void h_quar(void) {
    hx_init();
    iso_alloc_zone_handle *h, *hd; zone_t *z = hx_private(65536, &h), *zd = hx_private(32768, &hd);
    static const int qs[] = { 0, 1, 62, 63, 64 };
    int q0 = qs[sx_choose("fill", 5)];
    for(int i = 0; i < 64; i++) rec(iso_alloc_from_zone(h), 65536, "");
    sx_assert(z->is_full || iso_alloc_from_zone(h) == NULL, "P14 capacity");
    rec(iso_alloc(40), 40, ""); rec(iso_alloc(90000), 90000, ""); rec(iso_alloc_from_zone(hd), 32768, "");
    int next = 0, zalive = 1;
    for(; next < q0; next++) ufree(next);
    quar_ok();
    sx_assert(_root->chunk_quarantine_count == q0, "P11 entries waiting");
    int small = 64, big = 65, dz = 66;
    for(int k = 0; k < STEPS; k++) {
        sx_reach("step");
        switch(sx_choose("op", 6)) {
        case 0: if(next < 64) ufree(next++); break;
        case 1: if(blk[small].live == 1) ufree(small); break;
        case 2: if(blk[big].live == 1) ufree(big); break;
        case 3: iso_flush_caches(); sx_assert(_root->chunk_quarantine_count == 0, "P11 a flush leaves entries waiting"); break;
        case 4: { void *p = iso_alloc_from_zone(h); unsigned u = z_count(z, C_USED); if(p) rec(p, 65536, ""); else sx_assert(u == 64, "P14,P08 a private zone with free chunks refuses a request"); break; }
        case 5: if(zalive) { if(blk[dz].live == 1) { if(sx_choose("freefirst", 2)) ufree(dz); } zalive = 0; if(blk[dz].live == 1) blk[dz].live = 0; quar_ok(); iso_alloc_destroy_zone(hd); blk[dz].live = 0; sx_assert(_root->chunk_quarantine_count == 0, "P11 destroying a zone leaves entries waiting"); } break;
        }
        quar_ok(); intact("");
        hx_no_locks("P25,P11 lock left held");
    }
    if((q0 & 1) == 0) iso_flush_caches(); else iso_alloc_destroy();
    sx_assert(_root->chunk_quarantine_count == 0, "P11,P28 a flush or shutdown leaves entries waiting");
    for(int i = 0; i < 64; i++) { uint64_t c = (blk[i].p - z_user(z)) / 65536; bool reused = false; for(int j = 64; j < nb; j++) reused |= blk[j].p == blk[i].p && blk[j].live; sx_assert(z_state(z, c) == (blk[i].live == 1 || reused ? C_USED : C_FREED), "P11,P05 a released block was lost"); }
    sx_reach("end");
}
// a zone that has served its time is replaced once it is empty
#ifndef SZ
#define SZ 16
#endif
//@job prop=P08,P05,P12,P01,P36 entry=h_retire cfg=base,nomask defs="SZ=16" tier=quick timeout=120 reach=retired,kept bound="a default zone of 16-byte chunks, any number of lifetime requests, emptied; 3 live neighbours in other zones"
//@job prop=P08,P05,P12,P01,P36 entry=h_retire cfg=base,small,nothreads defs="SZ=1024" tier=quick timeout=120 reach=retired,kept bound="as above, 1024-byte chunks"
//@job prop=P08,P05,P12,P01,P36 entry=h_retire cfg=base defs="SZ=8192" tier=quick timeout=120 reach=retired,kept bound="as above, 8192-byte chunks"
//@job prop=P08,P05,P12,P01,P36 entry=h_retire cfg=base defs="SZ=9000" tier=quick timeout=120 reach=retired,kept bound="as above, a zone created on demand"
//@job prop=P08,P05,P12,P01,P36 entry=h_retire cfg=sanitize,tagging,spinlock,verify,strong,nocanary,release defs="SZ=512" tier=thorough timeout=120 reach=retired,kept bound="as above, 512-byte chunks"
void h_retire(void) {
    hx_init();
    env_strict_unmap = 1;
    static const uint64_t other[] = { 40, 200, SZ > 4096 ? 2000 : 5000, 70000 };
    for(int i = 0; i < 4; i++) rec(iso_alloc(other[i]), other[i], "");
    iso_flush_caches();
    int b = rec(iso_alloc(SZ), SZ, "");
    zone_t *z = z_of(blk[b].p);
    uint64_t cs = z->chunk_size, idx = z->index, user = z_user(z), bm = z_bitmap(z), nxt = z->next_sz_index, first = _root->zone_lookup_table[SZ_TO_ZONE_LOOKUP_IDX(cs)], used = _root->zones_used, cc = z->chunk_count;
    bool pre = z->preallocated_bitmap_idx != -1;
    uint32_t n = sx_u32("alloc_count"); sx_assume(n >= 1);
    z->alloc_count = n;
    sx_assume(z->af_count == 1);
    bool retire = n > (cc << 5);
    int how = sx_choose("how", 3);
    uint64_t rss = env_rss_pages;
    blk[b].live = 0;
    switch(how) { case 0: iso_free((void *) blk[b].p); sx_assert(z_user(z) == user, "P11 zone replaced too early"); iso_flush_caches(); break; case 1: iso_free_permanently((void *) blk[b].p); break; case 2: iso_free_size((void *) blk[b].p, SZ); break; }
    sx_assert(_root->zones_used == used && z->index == idx && z == &_root->zones[idx] && z->chunk_size == cs && z->internal && z->chunk_count == cc, "P08,P36 the replaced zone is not where it was");
    sx_assert(_root->zone_lookup_table[SZ_TO_ZONE_LOOKUP_IDX(cs)] == (first ? first : _root->zone_lookup_table[SZ_TO_ZONE_LOOKUP_IDX(cs)]) && z->next_sz_index == nxt, "P08 the list of zones of this size changed");
    if(z_user(z) != user) {
        sx_reach("retired");
        sx_assert(retire, "P08 a zone is replaced before its time");
        sx_assert(sx_prot(user) == 255 && sx_prot(user + ZONE_USER_SIZE - 1) == 255 && sx_prot(user - 4096) == 255 && sx_prot(user + ZONE_USER_SIZE) == 255, "P12,P08 the old zone is still mapped");
        if(!pre) sx_assert(sx_prot(bm) == 255 && sx_prot(bm - 4096) == 255, "P12 the old bitmap is still mapped");
        sx_assert(env_rss_pages <= rss, "P12,P36 replacing a zone leaves pages behind");
        sx_assert(z->af_count == 0 && z->alloc_count == 0, "P08 counters of a new zone");
        sx_assert(z_count(z, C_USED) == 0 && z_count(z, C_FREED) == 0, "P08 a new zone has used chunks");
    } else { sx_reach("kept"); sx_assert(!retire || cs >= 16384, "P08,P36 a zone is kept past its time"); }
    sx_assert(sx_prot(z_user(z) - 1) == 0 && sx_prot(z_user(z) + ZONE_USER_SIZE) == 0, "P12 guard pages of the zone");
    intact("");
    for(int i = 0; i < 3; i++) rec(iso_alloc(SZ), SZ, "");
    sx_assert(z_of(blk[nb - 1].p) == z || how == 1, "P08,P36 the replaced zone is not used");
    intact("");
    iso_verify_zones();
    for(int i = 0; i < nb; i++) if(blk[i].live) { iso_free((void *) blk[i].p); blk[i].live = 0; }
    iso_flush_caches();
    hx_no_locks("P25,P08 lock left held");
}
// short histories over every kind of block, contents symbolic
#ifndef FIRST
#define FIRST -1
#endif
static iso_alloc_zone_handle *ph;
static void step_check(void) { quar_ok(); intact(""); hx_no_locks("P25,P01 lock left held"); }
static void release(int i) {
    switch(sx_choose("via", 3)) {
    case 0: ufree(i); break;
    case 1: iso_free_permanently((void *) blk[i].p); blk[i].live = 0; break;
    case 2: iso_free_size((void *) blk[i].p, blk[i].n); blk[i].live = 0; break;
    }
}
static const uint64_t sizes[] = { 16, 100, 9000, 70000, 65536 };
//@job prop=P01,P08 entry=h_hist cfg=base defs="STEPS=3" split=7 tier=quick timeout=400 reach=end,moved bound="every history of 3 calls (allocate 5 sizes, release 3 ways, resize to 5 sizes, flush, private zone) after 3 allocations, contents symbolic"
//@job prop=P01,P04,P05,P08,P11,P13,P14 entry=h_hist cfg=base,permrealloc,protbig defs="STEPS=2" tier=quick timeout=200 reach=end,moved bound="as above with 2 calls"
//@job prop=P01,P04,P05,P08,P11,P13,P14 entry=h_hist cfg=sanitize,nomask,tagging,strong,sanity,bigguard,spinlock,nothreads,nocanary,small,profiler,verify,fuzz defs="STEPS=2" tier=thorough timeout=300 reach=end,moved bound="as above with 2 calls"
//@job prop=P04,P05,P11,P13,P14 entry=h_hist cfg=base defs="STEPS=3" split=7 tier=thorough timeout=400 ttimeout=400 reach=end,moved bound="as above with 3 calls"
//@job prop=P01,P04,P05,P08,P11,P13,P14 entry=h_hist cfg=base defs="STEPS=4" split=7 tier=thorough timeout=800 ttimeout=800 reach=end,moved bound="as above with 4 calls"
void h_hist(void) {
    hx_init();
    hx_private(1000, &ph);
    rec(iso_alloc(24), 24, ""); rec(iso_alloc(100000), 100000, ""); rec(iso_alloc_from_zone(ph), 1000, "");
    for(int k = 0; k < STEPS; k++) {
        int op = sx_choose("op", 5);
#ifdef SPLIT
        if(k == 0 && op != (SPLIT >= 5 ? 2 : SPLIT)) sx_stop();
#endif
        switch(op) {
        case 0: { uint64_t n = sizes[sx_choose("size", 5)]; rec(iso_alloc(n), n, ""); break; }
        case 1: { int i = sx_choose("blk", nb); if(blk[i].live == 1) release(i); break; }
        case 2: {
            int i = sx_choose("blk", nb);
#ifdef SPLIT
            if(k == 0 && i != (SPLIT == 2 ? 0 : SPLIT - 4)) sx_stop();
#endif
            uint64_t n = sizes[sx_choose("size", 5)], old = blk[i].n, v = blk[i].v, op = blk[i].p; if(blk[i].live != 1) break;
            sx_reach("moved");
            uint64_t us = hx_usize((void *) op);
            void *q = iso_realloc((void *) op, n);
            sx_assert(q != NULL && (uint64_t) q != op, "P04 a resize fails");
            sx_assert(*(uint64_t *) q == v, "P04 a resize loses contents");
            if(n >= old) sx_assert(*(uint64_t *) ((uint64_t) q + (old & ~7ull) - 8) == v, "P04 a resize loses contents");
#if PERM_FREE_REALLOC
            sx_assert(!hx_held((void *) op, 1), "P04 the old block of a resize is still live");
#else
            sx_assert(!hx_held((void *) op, 1) || hx_quarantined((void *) op), "P04 the old block of a resize is still live");
#endif
            sx_assert(!hx_quarantined((void *) op) || blk[i].live, "P04 old block");
            blk[i].live = hx_quarantined((void *) op) ? 2 : 0;
            rec(q, n, ""); break; }
        case 3: iso_flush_caches(); break;
        case 4: { void *p = iso_alloc_from_zone(ph); int i = rec(p, 1000, ""); sx_assert(z_of((uint64_t) p) == z_handle(ph), "P13,P14 a private request is served elsewhere"); break; }
        }
        step_check();
    }
    for(int i = 0; i < nb; i++) if(blk[i].live == 1) sx_assert(z_of(blk[i].p) != z_handle(ph) || blk[i].n == 1000, "P13,P14 a private zone serves a general request");
    for(int i = 0; i < nb; i++) if(blk[i].live == 1) { iso_free((void *) blk[i].p); blk[i].live = 2; }
    iso_flush_caches();
    quar_ok();
    for(unsigned i = 0; i < _root->zones_used; i++) sx_assert(_root->zones[i].af_count == 0 && z_none(&_root->zones[i]), "P05,P21 blocks still counted as live after everything was released");
    sx_assert(_root->big_zone_used_count == 0 && _root->big_zone_used == NULL, "P16,P05 big blocks still in use after everything was released");
    sx_reach("end");
}
