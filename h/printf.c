// Diagnostics: text of each conversion, order of arguments, no write outside the buffer, no heap. P32
#include "hx.h"
#define INTERNAL_HIDDEN
void _iso_alloc_printf(int32_t fd, const char *f, ...);
// reads back a number in base b from env_out[i..n)
static bool digits(uint64_t i, uint64_t n, unsigned b, uint64_t *v) {
    if(i >= n || n - i > 20) return false;
    bool ok = true; uint64_t r = 0;
    for(uint64_t k = i; k < n; k++) { uint8_t c = env_out[k]; uint64_t d; if(c >= '0' && c <= '9') d = c - '0'; else if(b == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else { ok = false; d = 0; } r = r * b + d; }
    if(n - i > 1) ok &= env_out[i] != '0';
    *v = r; return ok;
}
//@job prop=P32 entry=h_num cfg=base tier=quick timeout=150 opts="--printf" reach=end bound="%x %p %lx: all 64-bit values; %d %u %ld %lu %zu: all values in the 256-value blocks at and below 0, 2^31, 2^32, 2^63, 10^19 and 10^6"
//@job prop=P32 entry=h_num cfg=base defs="WIDE=13" tier=thorough timeout=800 opts="--printf" reach=end bound="as above with blocks of 8192"
//@job prop=P32 entry=h_num cfg=nothreads,release tier=thorough timeout=200 opts="--printf" reach=end bound="as above in other builds"
#ifndef WIDE
#define WIDE 8
#endif
void h_num(void) {
    env_capture = 1;
    static const char *F[] = { "%x", "%p", "%lx", "%d", "%u", "%ld", "%lu", "%zu" };
    int f = sx_choose("conv", 8);
    uint64_t v;
    if(f < 3) v = sx_u64("v");
    else { static const uint64_t A[] = { 0, 1ull << 31, 1ull << 32, 1ull << 63, 10000000000000000000ull, 1000000 }; uint64_t o = sx_u32("o") & ((1u << WIDE) - 1); v = ((A[sx_choose("around", 6)] >> WIDE) - sx_choose("below", 2)) << WIDE | o; }
    uint64_t n = _root == NULL;
    switch(f) {
        case 3: _iso_alloc_printf(1, F[f], (int32_t) v); break;
        case 4: _iso_alloc_printf(1, F[f], (uint32_t) v); break;
        default: _iso_alloc_printf(1, F[f], v); break;
    }
    uint64_t i = 0, r = 0;
    uint64_t want = f == 3 ? (uint64_t)(int64_t)(int32_t) v : f == 4 ? (uint32_t) v : v;
    if((f == 3 || f == 5) && (int64_t) want < 0) { sx_assert(env_out[0] == '-', "P32 sign"); i = 1; want = -want; }
    if(f < 3) {
        uint64_t n = env_nout; bool ok = n >= 1 && n <= 16;
        for(uint64_t k = 0; k < n; k++) { uint8_t d = (want >> 4 * (n - 1 - k)) & 15; sx_assert(env_out[k] == (d < 10 ? '0' + d : 'a' + d - 10), "P32 wrong value"); }
        sx_assert(ok && (n == 16 || want >> 4 * n == 0) && (n == 1 || want >> 4 * (n - 1) != 0), "P32 wrong value");
        sx_reach("end"); sx_stop();
    }
    sx_assert(digits(i, env_nout, 10, &r), "P32 not a number");
    sx_assert(r == want, "P32 wrong value");
    sx_assert(n == (_root == NULL) && env_cnt[EV_MMAP] == 0 && env_cnt[EV_WRITE] == 1 && sx_locks_held() == 0, "P32 formatting used the heap");
    sx_reach("end");
}
//@job prop=P32 entry=h_mix cfg=base tier=quick timeout=150 opts="--printf" reach=end bound="up to 3 tokens out of 13 (text byte, 9 conversions, %%, unknown conversion, lone percent at the end), any text byte, strings of up to 3 arbitrary bytes"
//@job prop=P32 entry=h_mix cfg=base,nothreads,release defs="TOKENS=4" tier=thorough timeout=200 opts="--printf" reach=end bound="up to 4 tokens"
#ifndef TOKENS
#define TOKENS 3
#endif
void h_mix(void) {
    env_capture = 1;
    static const char *F[] = { "%d", "%u", "%x", "%p", "%s", "%ld", "%lu", "%zu", "%lx" };
    static const uint64_t V[] = { 0, 7, 12345, 0xfffffff0ull, 0x1234567890ull };
    char fmt[64], want[256]; unsigned nf = 0, nw = 0; uint64_t a[4] = { 0 }; unsigned na = 0; static char st[4][4];
    unsigned k = 1 + sx_choose("tokens", TOKENS);
    for(unsigned i = 0; i < k; i++) {
        unsigned t = sx_choose("token", i + 1 < k ? 11 : 12);
        if(t < 9) {
            for(const char *q = F[t]; *q; q++) fmt[nf++] = *q;
            if(t == 4) { unsigned l = sx_choose("len", 4); for(unsigned m = 0; m < l; m++) { st[na][m] = sx_u8("s"); sx_assume(st[na][m] != 0); want[nw++] = st[na][m]; } st[na][l] = 0; a[na] = (uint64_t) st[na]; na++; }
            else {
                uint64_t v = V[(i * 3 + t) % 5]; a[na++] = v; char d[24]; unsigned c = 0; unsigned b = t == 2 || t == 3 || t == 8 ? 16 : 10;
                if(t == 0) { int64_t s = (int32_t) v; if(s < 0) { want[nw++] = '-'; s = -s; } v = s; } else if(t == 1) v = (uint32_t) v;
                do { d[c++] = "0123456789abcdef"[v % b]; v /= b; } while(v);
                while(c) want[nw++] = d[--c];
            }
        } else if(t == 9) { uint8_t c = sx_u8("text"); sx_assume(c != 0 && c != '%'); fmt[nf++] = c; want[nw++] = c; }
        else if(t == 10) { fmt[nf++] = '%'; fmt[nf++] = '%'; want[nw++] = '%'; }
        else fmt[nf++] = '%';
    }
    fmt[nf] = 0;
    _iso_alloc_printf(1, fmt, a[0], a[1], a[2], a[3]);
    sx_assert(env_nout == nw, "P32 length of the message");
    bool ok = true; for(unsigned i = 0; i < nw; i++) ok &= env_out[i] == (uint8_t) want[i];
    sx_assert(ok, "P32 text of the message");
    sx_assert(env_cnt[EV_MMAP] == 0 && sx_locks_held() == 0, "P32 formatting used the heap");
    sx_reach("end");
}
//@job prop=P32 entry=h_long cfg=base,release,nothreads tier=quick timeout=150 opts="--printf" reach=end bound="messages up to twice the size of the buffer: strings of 8 lengths around the limit followed by each conversion"
static char big[140000];
void h_long(void) {
    static const char *F[] = { "%s", "%s%d", "%s%s", "%sabcdef", "%s%x", "%s%%%%%%", "%s%d%d%d%d", "%s%u%s" };
    static const unsigned L[] = { 65500, 65530, 65532, 65533, 65534, 65535, 65536, 130000 };
    unsigned l = L[sx_choose("length", 8)], f = sx_choose("format", 8);
    for(unsigned i = 0; i < l; i++) big[i] = 'a';
    env_capture = 1;
    if(f == 2) _iso_alloc_printf(1, F[f], big, big); else if(f == 7) _iso_alloc_printf(1, F[f], big, 4000000000u, "tail"); else if(f == 4) _iso_alloc_printf(1, F[f], big, (uint64_t)(int64_t) -123456); else _iso_alloc_printf(1, F[f], big, -123456, -123456, -123456, -123456);
    bool ok = true; for(unsigned i = 0; i < env_nout; i++) ok &= env_out[i] == 'a';
    sx_assert(env_nout == sizeof(env_out) && ok, "P32 text of a long message");
    static const unsigned X[] = { 0, 7, 0, 6, 16, 3, 28, 14 }; unsigned total = l + (f == 2 ? l : X[f]);
    sx_assert(env_cnt[EV_WRITE] == 1 && env_ev[env_nev - 1].op == EV_WRITE && env_ev[env_nev - 1].a == 1 && (total <= 65534 ? env_ev[env_nev - 1].n == total : env_ev[env_nev - 1].n <= total), "P32 length of a long message");
    sx_reach("end");
}
//@job prop=P32,P28 entry=h_anywhere cfg=base,nothreads,nomask,tagging,sanity,profiler,uaf tier=quick timeout=100 opts="--printf" reach=end bound="every diagnostic printed by a run over the whole interface, including leak and usage reports, with the formatter executed"
void h_anywhere(void) {
    hx_init(); env_capture = 1;
    iso_alloc_zone_handle *h; zone_t *z = hx_private(256, &h); (void) z;
    void *p = iso_alloc_from_zone(h), *q = iso_alloc(100), *b = iso_alloc(70000); (void) p;
    sx_assert(iso_alloc(5ull << 32) == NULL, "P32 too big"); 
#if LEAK_DETECTOR && DEBUG
    uint64_t n0 = env_nout, n = iso_alloc_detect_zone_leaks(h);
    sx_assert(n == 1, "P32,P21 one leak"); sx_assert(env_nout > n0 && env_out[n0] == '[', "P32 leak report text");
#endif
    static char nm[] = "a zone"; iso_alloc_name_zone(h, nm);
    iso_alloc_detect_leaks(); iso_alloc_mem_usage(); iso_alloc_zone_mem_usage(h); iso_verify_zones();
    iso_free(q); iso_free(b); iso_free_from_zone(p, h); iso_alloc_destroy_zone(h);
    iso_flush_caches();
    hx_no_locks("P32 lock leaked");
    sx_reach("end");
}
