// Concurrent calls: data races (happens-before), deadlocks, re-acquired and leaked locks, results as if serialised. P25
#include "hx.h"
typedef struct { int op; void *small, *small2, *big, *priv; uint64_t word; void *r; uint64_t rn; int rpriv; uint64_t val; int live_small, live_big, live_priv; iso_alloc_zone_handle *nz; } th_t;
#define SHSZ 2048
static th_t T[3]; static iso_alloc_zone_handle *sh;
#ifndef OPS
#define OPS 26
#endif
static void keep(th_t *t, void *p, uint64_t n) { t->r = p; t->rn = n; if(p && n) { *(uint64_t *) p = t->word; *(uint64_t *) ((uint8_t *) p + n - 8) = t->word; } }
static void act(th_t *t, int op) {
    switch(op) {
        case 0: keep(t, iso_alloc(64), 64); break;
        case 1: iso_free(t->small); t->live_small = 0; break;
        case 2: iso_free_permanently(t->small); t->live_small = 0; break;
        case 3: iso_free_size(t->small, 64); t->live_small = 0; break;
        case 4: keep(t, iso_alloc(70000), 70000); break;
        case 5: iso_free(t->big); iso_flush_caches(); t->live_big = 0; break;
        case 6: iso_free_size(t->big, 70000); t->live_big = 0; break;
        case 7: keep(t, iso_alloc_from_zone(sh), SHSZ); t->rpriv = 1; break;
        case 8: iso_free_from_zone(t->priv, sh); t->live_priv = 0; break;
        case 9: sx_assert(iso_chunksz(t->small) >= 64 && iso_chunksz(t->big) >= 70000, "P25,P17 usable size under concurrency"); break;
        case 10: { uint64_t *q = iso_realloc(t->small, 200); sx_assert(q && *q == t->word, "P25,P04 resize under concurrency"); t->live_small = 0; keep(t, q, 200); break; }
        case 11: { uint8_t *q = iso_calloc(2, 40); sx_assert(q != NULL, "P25,P03 zeroed allocation under concurrency"); bool z = true; for(int i = 0; i < 80; i++) z &= q[i] == 0; sx_assert(z, "P25,P03 zeroed allocation under concurrency"); keep(t, q, 80); break; }
        case 12: iso_flush_caches(); break;
        case 13: iso_verify_zones(); break;
        case 14: iso_verify_zone(sh); break;
        case 15: { iso_alloc_zone_handle *g = iso_alloc_new_zone(256); sx_assert(g != NULL, "P25,P14 no private zone under concurrency"); void *q = iso_alloc_from_zone(g); sx_assert(q != NULL, "P25,P14 no memory in a private zone under concurrency"); iso_free_from_zone(q, g); iso_alloc_destroy_zone(g); break; }
        case 16: t->val = iso_alloc_detect_leaks(); break;
        case 17: t->val = iso_alloc_mem_usage(); break;
        case 18: t->val = iso_alloc_detect_zone_leaks(sh) + iso_alloc_zone_mem_usage(sh); break;
        case 19: iso_alloc_protect_root(); iso_alloc_unprotect_root(); break;
        case 20: { char *q = iso_strdup("concurrent words and more"); sx_assert(q && q[24] == 'e' && q[25] == 0, "P25,P19 duplicated string under concurrency"); keep(t, q, 26); *(uint64_t *) (q + 18) = t->word; break; }
        case 21: iso_free_permanently(t->big); t->live_big = 0; break;
        case 22: iso_free_from_zone_permanently(t->priv, sh); t->live_priv = 0; break;
        case 23: keep(t, iso_alloc(0), 0); t->r = NULL; break;
        case 24: { static char nm[] = "zone"; iso_alloc_name_zone(sh, nm); break; }
        case 25: { uint64_t *q = iso_realloc(t->big, 90000); sx_assert(q && *q == t->word, "P25,P04 resize of a big block under concurrency"); t->live_big = 0; keep(t, q, 90000); break; }
        case 26: t->nz = iso_alloc_new_zone(4000); break;
#if MEMORY_TAGGING
        case 27: { void *q = iso_alloc_from_zone_tagged(sh); iso_alloc_verify_ptr_tag(q, sh); q = iso_alloc_untag_ptr(q, sh); keep(t, q, SHSZ); t->rpriv = 1; break; }
        case 28: { void *q = iso_alloc_tag_ptr(t->priv, sh); iso_free_from_zone(q, sh); t->live_priv = 0; break; }
#endif
#if EXPERIMENTAL
        case 29: iso_alloc_search_stack(t->small); break;
#endif
    }
    sx_assert(sx_locks_held() == 0, "P25 a call returns with a lock held");
}
#define NEW_ZONE 26
static void body(void *a) { act(a, ((th_t *) a)->op); }
#ifdef TWO
static void body2(void *a) { th_t *t = a; int o = t->op; act(t, o / 100); if(t->r && !t->rpriv) { uint64_t w = *(uint64_t *) t->r; sx_assert(w == t->word, "P25,P01 contents of a fresh block changed"); } t->op = o % 100; act(t, t->op); }
#endif
static void prep(int n) {
    hx_init(); sh = iso_alloc_new_zone(SHSZ);
    void *pad[4]; for(int i = 0; i < 4; i++) pad[i] = iso_alloc(64);
    for(int i = 0; i < n; i++) {
        th_t *t = &T[i]; t->word = 0x1111111111111111ull * (i + 1);
        t->small = iso_alloc(64); t->small2 = iso_alloc(64); t->big = iso_alloc(70000); t->priv = iso_alloc_from_zone(sh);
        *(uint64_t *) t->small = t->word; *(uint64_t *) t->big = t->word; *(uint64_t *) t->priv = t->word; *(uint64_t *) t->small2 = t->word;
        t->live_small = t->live_big = t->live_priv = 1;
    }
    void *b = iso_alloc(70000); iso_free_size(b, 70000); // one cached big block
    iso_free(pad[0]); iso_free_permanently(pad[1]);      // one pending free
}
static bool intact(void *p, uint64_t n, uint64_t w) { return hx_live(p, n) && *(uint64_t *) p == w; }
static uint64_t used_chunks(zone_t *z) { uint64_t n = 0, *b = z_bm(z); for(unsigned i = 0; i < z->max_bitmap_idx; i++) if(b[i]) n += __builtin_popcountll(b[i] & ~(b[i] >> 1) & 0x5555555555555555ull); return n; }
static void finish(int n) {
    int priv = 0;
    for(int i = 0; i < n; i++) {
        th_t *t = &T[i];
        sx_assert(intact(t->small2, 64, t->word), "P25,P05 a bystander block was changed or released");
        if(t->live_small) sx_assert(intact(t->small, 64, t->word), "P25,P05 a live block was changed or released");
        if(t->live_big) sx_assert(intact(t->big, 70000, t->word), "P25,P05 a live big block was changed or released");
        if(t->live_priv) { sx_assert(intact(t->priv, SHSZ, t->word) && z_of((uint64_t) t->priv) == z_handle(sh), "P25,P05 a live private block was changed or released"); priv++; }
        if(t->r) {
            sx_assert(intact(t->r, t->rn, t->word), "P25,P01 an allocation under concurrency is not a live block of its own");
            if(t->rpriv) priv++; else { zone_t *z = z_of((uint64_t) t->r); sx_assert(z == NULL || z->internal, "P25,P13 a general allocation lies in a private zone"); }
            for(int k = 0; k < n; k++) { th_t *o = &T[k]; void *q[5] = { o->live_small ? o->small : NULL, o->small2, o->live_big ? o->big : NULL, o->live_priv ? o->priv : NULL, k == i ? NULL : o->r }; for(int m = 0; m < 5; m++) sx_assert(q[m] == NULL || q[m] != t->r, "P25,P01 two live blocks share memory"); }
        }
        if(t->nz) { zone_t *z = z_handle(t->nz); sx_assert(z >= _root->zones && z < _root->zones + _root->zones_used && z->chunk_size == 4000 + 0 || z->chunk_size == 4000 || z->chunk_size == 4000 - 4000 % 32 + 32, "P25,P14 a private zone created under concurrency"); for(int k = 0; k < i; k++) sx_assert(T[k].nz != t->nz, "P25,P14 two private zones are the same"); void *q = iso_alloc_from_zone(t->nz); sx_assert(q != NULL && z_of((uint64_t) q) == z, "P25,P14 a private zone created under concurrency"); }
    }
    iso_flush_caches();
    sx_assert(iso_alloc_detect_zone_leaks(sh) == priv, "P25,P21 the private zone lost or duplicated a block");
    sx_assert(_root->chunk_quarantine_count == 0, "P25,P11 pending frees after a flush");
    unsigned used = 0; for(int i = 0; i < n; i++) used += T[i].live_big + (T[i].r && T[i].rn >= 70000);
    sx_assert(b_len(_root->big_zone_used) == used && _root->big_zone_used_count == used, "P25,P16 big blocks in use are lost or duplicated");
    sx_assert(b_len(_root->big_zone_free) == _root->big_zone_free_count, "P25,P16 cached big blocks are lost or duplicated");
    iso_verify_zone(sh);
    for(unsigned i = 0; i < _root->zones_used; i++) { zone_t *z = &_root->zones[i]; if(z->chunk_size != 0 && z_user(z) != 0) sx_assert(z->af_count == used_chunks(z), "P25,P21 the count of live blocks of a zone is wrong"); }
    sx_assert(sx_locks_held() == 0, "P25 a lock is left held");
}
//@job prop=P25 entry=h_conc_pair cfg=base tier=quick timeout=250 opts="--preempt 2" reach=end bound="2 threads, one call each out of 27 (378 unordered pairs), at most 2 preemptions, at lock operations; races by happens-before"
//@job prop=P25 entry=h_conc_pair cfg=spinlock tier=quick timeout=200 opts="--preempt 1" reach=end bound="2 threads, one call each out of 27 (378 unordered pairs), at most 1 preemption, at lock operations; races by happens-before"
//@job prop=P25 entry=h_conc_pair cfg=release,sanity,profiler,bigguard,nomask,sanitize,uaf,small,nocanary,permrealloc,protbig,cpupin tier=thorough timeout=300 opts="--preempt 3" reach=end bound="as above, at most 3 preemptions, in other builds"
void h_conc_pair(void) {
    prep(2);
    T[0].op = sx_choose("first", OPS + 1); T[1].op = sx_choose("second", OPS + 1); if(T[0].op < T[1].op) sx_stop();
    sx_races(1);
    for(int i = 0; i < 2; i++) sx_spawn(body, &T[i]);
    sx_join(); sx_races(0);
    finish(2); sx_reach("end");
}
#if MEMORY_TAGGING || EXPERIMENTAL
//@job prop=P25 entry=h_conc_more cfg=tagging,experimental tier=quick timeout=200 opts="--preempt 2" reach=end bound="2 threads, a tag or search call against each of 30 calls, at most 2 preemptions"
void h_conc_more(void) {
    prep(2);
#if MEMORY_TAGGING
    T[0].op = 27 + sx_choose("first", 2);
#else
    T[0].op = 29;
#endif
    T[1].op = sx_choose("second", 30);
    sx_races(1);
    for(int i = 0; i < 2; i++) sx_spawn(body, &T[i]);
    sx_join(); sx_races(0);
    finish(2); sx_reach("end");
}
#endif
// a selection that takes different locks, three threads
static const int sel[] = { 0, 1, 3, 4, 6, 8, 10, 13, 15, 16, 19 };
//@job prop=P25 entry=h_conc_three cfg=base tier=quick timeout=200 opts="--preempt 1" defs="SEL=7" reach=end bound="3 threads, one call each out of 7, at most 1 preemption"
//@job prop=P25 entry=h_conc_three cfg=base,spinlock,sanity,profiler tier=thorough timeout=400 opts="--preempt 2" defs="SEL=11" reach=end bound="3 threads, one call each out of 11, at most 2 preemptions"
#ifndef SEL
#define SEL 11
#endif
void h_conc_three(void) {
    prep(3);
    int pick7[] = { 0, 1, 4, 6, 10, 13, 19 };
    for(int i = 0; i < 3; i++) { int k = sx_choose("op", SEL); T[i].op = SEL == 7 ? pick7[k] : sel[k]; if(i && T[i].op > T[i - 1].op) sx_stop(); }
    sx_races(1);
    for(int i = 0; i < 3; i++) sx_spawn(body, &T[i]);
    sx_join(); sx_races(0);
    finish(3); sx_reach("end");
}
// the first calls ever
static void *first[2]; static int fop[2];
static void starter(void *a) {
    int i = *(int *) a;
    switch(fop[i]) { case 0: first[i] = iso_alloc(64); break; case 1: first[i] = iso_alloc(0); break; case 2: first[i] = iso_calloc(3, 20); break; case 3: first[i] = iso_alloc(80000); break; default: first[i] = iso_strdup("first"); break; }
    sx_assert(sx_locks_held() == 0, "P25 a call returns with a lock held");
}
#if AUTO_CTOR_DTOR
//@job prop=P25,P28 entry=h_conc_first cfg=base,spinlock tier=quick timeout=200 opts="--preempt 2" reach=end bound="2 threads whose first calls are the first ever, 5 calls each, at most 2 preemptions"
//@job prop=P25,P28 entry=h_conc_first cfg=sanity,profiler,release,small tier=thorough timeout=300 opts="--preempt 2" reach=end bound="as above in other builds"
void h_conc_first(void) {
    static int id[2] = { 0, 1 };
    fop[0] = sx_choose("first", 5); fop[1] = sx_choose("second", 5); if(fop[0] < fop[1]) sx_stop();
    sx_races(1);
    for(int i = 0; i < 2; i++) sx_spawn(starter, &id[i]);
    sx_join(); sx_races(0);
    for(int i = 0; i < 2; i++) if(fop[i] == 1) sx_assert(first[i] != NULL && HX_ISZERO(first[i]), "P25,P18,P28 a first zero size request"); else sx_assert(hx_live(first[i], fop[i] == 0 ? 64 : fop[i] == 2 ? 60 : fop[i] == 3 ? 80000 : 6), "P25,P28 a first allocation");
    sx_assert(fop[0] == 1 && fop[1] == 1 || first[0] != first[1], "P25,P01 two first allocations share memory");
    iso_verify_zones(); sx_assert(sx_locks_held() == 0, "P25 a lock is left held");
    sx_reach("end");
}
#endif
