// String duplication. P19
#include "hx.h"
#ifndef M
#define M 36
#endif
#define SRC 0x500000000000ull
// the source ends at the end of its page: reading past it faults
static char *source(void) {
    sx_map(SRC, 4096, 3);
    for(int i = 0; i < 4096 - M; i++) ((volatile char *) SRC)[i] = 'x';
    char *s = (char *) (SRC + 4096 - M);
    sx_bytes(s, M, "str");
    return s;
}
// chunks of the zone that serves the request hold old bytes
static void dirty(zone_t *z) { for(unsigned i = 0; i < 4096; i += 8) { uint64_t a = z_user(z) + i; unsigned c = i / z->chunk_size; if(z_state(z, c) == C_FREE) *(uint64_t *) a = 0x4141414141414141ull; } }
static void check(char *p, char *s, uint64_t len, zone_t *z, int sn, int ss) {
    sx_assert(p != NULL, "P19,P08 duplicating a string fails although memory is available");
    uint64_t c = ((uint64_t) p - z_user(z)) / z->chunk_size; (void) c;
    sx_assert(hx_live(p, len + 1) , "P19,P01 the duplicate does not fit its block");
    for(uint64_t i = 0; i < len; i++) sx_assert(p[i] == s[i], "P19 a character of the duplicate differs");
    sx_assert(p[len] == 0, "P19 the duplicate is not terminated");
    uint64_t u = (uint64_t) p, e = u + hx_usize(p), lo = z_user(z_of(u));
    for(uint64_t a = u > lo + 64 ? u - 64 : lo; a < u; a += 8) sx_assert(*(uint64_t *) a == sx_snap_u64(sn, a), "P19 bytes before the duplicate change");
    for(uint64_t a = e; a < e + 64 && a < lo + ZONE_USER_SIZE; a += 8) sx_assert(*(uint64_t *) a == sx_snap_u64(sn, a), "P19 bytes after the duplicate change");
    sx_assert(sx_same(ss, SRC, 4096), "P19 the source changes");
    hx_no_locks("P25,P19 lock left held");
}
//@job prop=P19 entry=h_strdup cfg=base defs="M=70" tier=quick timeout=120 reach=empty,full bound="strdup of every string of at most 69 bytes, ending at an unmapped page; chunks hold old bytes"
//@job prop=P19 entry=h_strdup cfg=libc,tagging,nothreads,release,sanitize defs="M=140" tier=thorough timeout=200 reach=empty,full bound="strdup of every string of at most 139 bytes, ending at an unmapped page; chunks hold old bytes"
void h_strdup(void) {
    hx_init();
    iso_flush_caches();
    dirty(&_root->zones[0]); dirty(&_root->zones[1]);
    char *s = source(); sx_assume(s[M - 1] == 0);
    int ss = sx_snap((void *) SRC, 4096);
    iso_alloc_zone_handle *h = NULL;
    int how = sx_choose("how", 2); zone_t *z = &_root->zones[0];
    if(how == 1) { z = hx_private(M, &h); dirty(z); }
    int s0 = sx_snap((void *) z_user(&_root->zones[0]), ZONE_USER_SIZE), s1 = sx_snap((void *) z_user(&_root->zones[1]), ZONE_USER_SIZE), sp = sx_snap((void *) z_user(z), ZONE_USER_SIZE);
    char *p = how ? iso_strdup_from_zone(h, s) : iso_strdup(s);
    uint64_t len = 0; while(s[len] != 0) len++;
    if(how == 0) { z = z_of((uint64_t) p); sp = z == &_root->zones[0] ? s0 : s1; sx_assert(z == &_root->zones[0] || z == &_root->zones[1] || len > 63, "P13 zone of a short string"); if(len > 63) { sp = sx_snap((void *) z_user(z), ZONE_USER_SIZE); } }
    else sx_assert(z_of((uint64_t) p) == z, "P13,P19 a string is not taken from its private zone");
    check(p, s, len, z, sp, ss);
    if(len == 0) sx_reach("empty"); if(len == M - 1) sx_reach("full");
}
//@job prop=P19 entry=h_strndup cfg=base defs="M=66" tier=quick timeout=200 reach=zero,cut,whole bound="strndup of every string of at most 65 bytes, terminated or not, any n up to 2^64-1 that stays within it"
//@job prop=P19 entry=h_strndup cfg=libc,tagging,nothreads,release,sanitize defs="M=136" tier=thorough timeout=300 reach=zero,cut,whole bound="strndup of every string of at most 135 bytes, terminated or not, any n up to 2^64-1 that stays within it"
void h_strndup(void) {
    hx_init();
    iso_flush_caches();
    dirty(&_root->zones[0]); dirty(&_root->zones[1]);
    char *s = source(); uint64_t n = sx_u64("n");
    int ss = sx_snap((void *) SRC, 4096);
    iso_alloc_zone_handle *h = NULL;
    int how = sx_choose("how", 2); zone_t *z = &_root->zones[0];
    if(how == 1) { z = hx_private(M + 1, &h); dirty(z); }
    sx_assume(n <= M || s[M - 1] == 0);
    int s0 = sx_snap((void *) z_user(&_root->zones[0]), ZONE_USER_SIZE), s1 = sx_snap((void *) z_user(&_root->zones[1]), ZONE_USER_SIZE), sp = sx_snap((void *) z_user(z), ZONE_USER_SIZE);
    char *p = how ? iso_strndup_from_zone(h, s, n) : iso_strndup(s, n);
    uint64_t len = 0; while(len < n && s[len] != 0) len++;
    if(how == 0) { z = z_of((uint64_t) p); sp = z == &_root->zones[0] ? s0 : s1; if(len > 63) sp = sx_snap((void *) z_user(z), ZONE_USER_SIZE); }
    else sx_assert(z_of((uint64_t) p) == z, "P13,P19 a string is not taken from its private zone");
    check(p, s, len, z, sp, ss);
    if(len == 0) sx_reach("zero"); else if(len == n) sx_reach("cut"); else sx_reach("whole");
}
// strings that do not fit the private zone, strings longer than any zone, the null string
//@job prop=P19,P02 entry=h_str_edges cfg=base,abortnull tier=quick timeout=100 reach=null,small,big,none bound="null source; a string too long for its private zone; 70000 characters; exhausted private zone"
void h_str_edges(void) {
    hx_init();
    iso_alloc_zone_handle *h; zone_t *z = hx_private(32, &h);
    switch(sx_choose("case", 4)) {
    case 0: { sx_reach("null"); uint64_t n = sx_u64("n"); sx_assert(iso_strdup(NULL) == NULL && iso_strndup(NULL, n) == NULL && iso_strdup_from_zone(h, NULL) == NULL && iso_strndup_from_zone(h, NULL, n) == NULL, "P19 a null string is duplicated"); break; }
    case 1: { sx_reach("small"); static char s[64]; for(int i = 0; i < 40; i++) s[i] = 'a'; char *p; sx_abort_allowed(true); p = sx_choose("n", 2) ? iso_strdup_from_zone(h, s) : iso_strndup_from_zone(h, s, 35); sx_assert(p == NULL || z_of((uint64_t) p) != z, "P19,P01 a string that does not fit its private zone is written into it"); break; }
    case 2: { sx_reach("big"); uint64_t a = 0x500000000000ull; sx_map(a, 0x12000, 3); for(int i = 0; i < 70000; i++) ((char *) a)[i] = 'a' + i % 26; sx_bytes((void *) (a + 65530), 8, "c"); for(int i = 0; i < 8; i++) sx_assume(((char *) a)[65530 + i] != 0); ((char *) a)[70000] = 0; char *p = sx_choose("n", 2) ? iso_strndup((char *) a, 70000) : iso_strdup((char *) a); for(int i = 0; i <= 70000; i++) sx_assert(p[i] == ((char *) a)[i], "P19 a long string differs"); sx_assert(hx_live(p, 70001), "P19,P01 a long string does not fit its block"); break; }
    case 3: {
        for(uint64_t i = 0; i < z->bitmap_size / 8; i++) z_bm(z)[i] = 0x5555555555555555ull;
        z->free_bit_slots_index = z->free_bit_slots_usable = 255; z->next_free_bit_slot = -1; for(int i = 0; i < 255; i++) z->free_bit_slots[i] = -1;
        sx_reach("none");
#if ABORT_ON_NULL
        sx_abort_allowed(true);
#endif
        char *p = sx_choose("n", 2) ? iso_strdup_from_zone(h, "ab") : iso_strndup_from_zone(h, "ab", 1);
        sx_assert(p == NULL, "P19,P14 a string is taken from an exhausted private zone"); break; }
    }
    hx_no_locks("P25,P19 lock left held");
}
