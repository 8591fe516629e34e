// The heap profiler: counters, samples, reports. P33 (+P21, P32)
#include "hx.h"
#if HEAP_PROFILER
#include "iso_alloc_profiler.h"
uint64_t us_rand_uint64(uint64_t *seed);
static uint64_t hit;
static void start(void) { hx_init(); for(uint64_t k = 0; k < 99999 && !hit; k++) { uint64_t t = 77 + k * 12345ull, u = t; if(us_rand_uint64(&u) % 10000 == 1) hit = t; } }
static void sampled(bool yes) { _root->seed = yes ? hit : 4; }
static const uint64_t sizes[] = { 1, 64, 1024, 8192, 9000, 65535, 65536, 65537, 200000 };
static iso_alloc_traces_t out[130]; static iso_free_traces_t fout[130];
//@job prop=P33,P01,P05 entry=h_prof cfg=profiler tier=quick timeout=200 reach=sampled,plain,end bound="4 calls out of 9 sizes, private zone, ordinary, permanent and sized release, resize; the next call sampled or not; any such history"
//@job prop=P33,P01,P05 entry=h_prof cfg=profiler_nothreads,profiler_nomask,profiler_small,profiler_tagging,profiler_strong tier=thorough timeout=300 reach=sampled,plain,end bound="as above in other builds"
#ifndef STEPS
#define STEPS 2
#endif
void h_prof(void) {
    start(); iso_alloc_zone_handle *h = iso_alloc_new_zone(256);
    uint64_t na = _alloc_count, nf = _free_count; uint64_t lo = ~0ull, hi = 0, ns = 0, nfs = 0;
    void *blk[16]; uint64_t n[16], v[16]; int nb = 0; uint64_t rd = 0x77;
    for(int k = 0; k < STEPS; k++) {
        bool s = sx_choose("sampled", 2); sampled(s); if(s) sx_reach("sampled"); else sx_reach("plain");
        uint64_t as = _alloc_sampled_count, fs = _free_sampled_count; uint64_t sz = 0; void *p = NULL;
        int op = sx_choose("op", 4);
        if(op == 0) { sz = sizes[sx_choose("size", 9)]; p = iso_alloc(sz); na++; }
        else if(op == 1) { sz = 256; p = iso_alloc_from_zone(h); na++; }
        else if(op == 2) { p = iso_alloc(64); na++; sampled(s); as = _alloc_sampled_count; fs = _free_sampled_count; if(s) { lo = lo < 64 ? lo : 64; hi = hi > 64 ? hi : 64; ns++; } switch(sx_choose("how", 2)) { case 0: iso_free(p); break; default: iso_free_permanently(p); break; } nf++; p = NULL; sx_assert(_free_sampled_count == fs + s, "P33 sampled frees are not counted exactly"); nfs += s; }
        else { sz = 3000; p = iso_calloc(1, sz); na++; }
        if(op != 2) {
            sx_assert(_alloc_sampled_count == as + s, "P33 sampled allocations are not counted exactly");
            sx_assert(hx_live(p, sz), "P33,P01 an allocation is not usable while profiling");
            v[nb] = rd++; *(uint8_t *) p = v[nb]; ((uint8_t *) p)[sz - 1] = v[nb]; blk[nb] = p; n[nb++] = sz;
            if(s) { lo = sz < lo ? sz : lo; hi = sz > hi ? sz : hi; ns++; }
        }
        sx_assert(_alloc_count == na && _free_count == nf, "P33 allocations and frees are not counted exactly");
        for(int i = 0; i < nb; i++) sx_assert(hx_live(blk[i], n[i]) && *(uint8_t *) blk[i] == v[i] && ((uint8_t *) blk[i])[n[i] - 1] == v[i], "P33,P05 profiling changes a live block");
        hx_no_locks("P33 lock leaked");
    }
    // what the trace query says
    uint64_t c = iso_get_alloc_traces(out), calls = 0; bool same = true; uint64_t l = ~0ull, u = 0;
    for(uint64_t i = 0; i < c; i++) { calls += out[i].call_count; same &= out[i].lower_bound_size == _alloc_bts[i].lower_bound_size && out[i].upper_bound_size == _alloc_bts[i].upper_bound_size && out[i].backtrace_hash == _alloc_bts[i].backtrace_hash && out[i].callers[0] == _alloc_bts[i].callers[0] && out[i].callers[7] == _alloc_bts[i].callers[7]; if(out[i].lower_bound_size < l) l = out[i].lower_bound_size; if(out[i].upper_bound_size > u) u = out[i].upper_bound_size; for(uint64_t j = 0; j < i; j++) sx_assert(out[i].backtrace_hash != out[j].backtrace_hash, "P33 one backtrace is recorded twice"); }
    sx_assert(c == _alloc_bts_count && c <= 128 && calls == ns && same, "P33 the trace query does not report what was recorded");
    sx_assert(ns == 0 || (l >= lo && l <= lo + 31 && u >= hi && u <= hi + 31), "P33 the sizes of recorded allocations are wrong");
    uint64_t f = iso_get_free_traces(fout); calls = 0; for(uint64_t i = 0; i < f; i++) calls += fout[i].call_count;
    sx_assert(f <= 128 && calls == nfs, "P33 the free trace query does not report what was recorded");
    iso_alloc_reset_traces();
    sx_assert(iso_get_alloc_traces(out) == 0 && iso_get_free_traces(fout) == 0, "P33 traces survive a reset");
    hx_no_locks("P33 lock leaked");
    sx_reach("end");
}
static uint64_t guard_[4];
//@job prop=P33 entry=h_prof_full cfg=profiler tier=quick timeout=100 reach=end bound="trace tables holding 0, 1, 126, 127 or 128 entries, 3 further sampled allocations and frees from different call sites; copies of the tables checked up to their ends"
//@job prop=P33 entry=h_prof_full cfg=profiler_nothreads,profiler_nomask tier=thorough timeout=100 reach=end bound="as above in other builds"
static __attribute__((noinline)) void *site1(uint64_t n) { void *p = iso_alloc(n); return (char *) p + 0; }
static __attribute__((noinline)) void *site2(uint64_t n) { void *p = site1(n); *(char *) p = 1; return p; }
static __attribute__((noinline)) void fsite1(void *p) { iso_free(p); guard_[0]++; }
static __attribute__((noinline)) void fsite2(void *p) { fsite1(p); guard_[1]++; }
void h_prof_full(void) {
    static const uint64_t F[] = { 0, 1, 126, 127, 128 };
    start();
    uint64_t k = F[sx_choose("entries", 5)];
    for(uint64_t i = 0; i < k; i++) { _alloc_bts[i].backtrace_hash = 0x8000 + i; _alloc_bts[i].call_count = 1; _alloc_bts[i].lower_bound_size = _alloc_bts[i].upper_bound_size = 5; _free_bts[i].backtrace_hash = 0x8000 + i; _free_bts[i].call_count = 1; }
    _alloc_bts_count = _free_bts_count = k;
    for(int i = 0; i < 3; i++) { sampled(true); void *p = i == 0 ? iso_alloc(64) : i == 1 ? site1(100) : site2(5000); sx_assert(hx_live(p, 64), "P33,P01 an allocation is not usable while profiling"); sampled(true); if(i == 0) iso_free(p); else if(i == 1) fsite1(p); else fsite2(p); }
    sx_assert(_alloc_sampled_count == 3 && _free_sampled_count == 3, "P33 sampled calls are not counted exactly");
    sx_assert(_alloc_bts_count <= 128 && _free_bts_count <= 128, "P33 more than 128 backtraces are recorded");
    if(k < 128) sx_assert(_alloc_bts_count > k && _free_bts_count > k, "P33 no backtrace is recorded although there is room");
    for(int i = 0; i < 130; i++) { out[i].call_count = 0xabc; fout[i].call_count = 0xabc; }
    uint64_t a = iso_get_alloc_traces(out), f = iso_get_free_traces(fout);
    sx_assert(a == _alloc_bts_count && f == _free_bts_count && out[a].call_count == 0xabc && fout[f].call_count == 0xabc, "P33 the trace query writes past what it reports");
    bool ok = true; for(uint64_t i = 0; i < k; i++) ok &= out[i].backtrace_hash == 0x8000 + i && out[i].lower_bound_size == 5 && out[i].call_count >= 1;
    sx_assert(ok, "P33 recorded backtraces are lost");
    for(uint64_t i = k; i < a; i++) sx_assert(out[i].call_count >= 1 && out[i].callers[0] != 0 && out[i].lower_bound_size <= out[i].upper_bound_size && out[i].lower_bound_size >= 64, "P33 a recorded backtrace is wrong");
    sx_reach("end");
}
//@job prop=P33,P21 entry=h_prof_usage cfg=profiler tier=quick timeout=100 reach=end bound="a private zone of 65536 or 1024 byte chunks with any number of its chunks used or freed around the recording threshold, full or not; a sampled call"
void h_prof_usage(void) {
    start(); iso_alloc_zone_handle *h; zone_t *z = hx_private(sx_choose("size", 2) ? 1024 : 65536, &h); uint64_t cs = z->chunk_size;
    unsigned n = z->chunk_count, free0 = z_count(z, C_FREE), used = 0;
    static const int P[] = { 0, 50, 74, 75, 76, 77, 90 };
    unsigned want = n * P[sx_choose("percent", 7)] / 100 + sx_choose("more", 2);
    bool full = sx_choose("full", 2), freed = sx_choose("freed", 2);
    for(unsigned c = 0; c < n && used < want; c++) if(z_state(z, c) == C_FREE) { z_set(z, c, freed && (c & 1) ? C_FREED : C_USED); used++; }
    z->is_full = full; z->af_count = used;
    uint64_t c0 = _zone_profiler_map[cs].count;
    sampled(true); void *p = iso_alloc(200); sx_assert(hx_live(p, 200), "P33,P01 an allocation is not usable while profiling");
    uint64_t d = _zone_profiler_map[cs].count - c0, e = full || used * 100ull / n > 75;
    sx_assert(d >= e && (d == e || cs == 1024), "P33 zone usage is recorded wrongly");
    (void) free0; hx_no_locks("P33 lock leaked"); sx_reach("end");
}
//@job prop=P33,P32,P28 entry=h_prof_report cfg=profiler tier=quick timeout=100 opts="--printf" reach=end bound="report at shutdown after any of 3 numbers of calls, sampled or not; symbol lookups that fail, give no name or a name"
static bool has(uint64_t *at, const char *s) { for(uint64_t i = *at; i < env_nout; i++) { bool m = true; uint64_t k = 0; for(; s[k]; k++) if(i + k >= env_nout || env_out[i + k] != s[k]) { m = false; break; } if(m) { *at = i + k; return true; } } return false; }
void h_prof_report(void) {
    start(); env_dlmode = sx_choose("dladdr", 3);
    int k = sx_choose("calls", 3); bool s = sx_choose("sampled", 2);
    for(int i = 0; i < k; i++) { sampled(s); void *p = iso_alloc(65536); sampled(s); iso_free(p); }
    sx_assert(_alloc_count == k && _free_count == k, "P33 allocations and frees are not counted exactly");
    env_capture = 1; env_nout = 0; uint64_t at = 0;
    int fd = profiler_fd; uint64_t e0 = env_nev;
    iso_alloc_destroy();
    char a[] = "allocated=0\n", b[] = "alloc_sampled=0\n", c[] = "freed=0\n", d[] = "free_sampled=0\n"; a[10] += k; c[6] += k; if(s) { b[14] += k; d[13] += k; }
    sx_assert(has(&at, a) && has(&at, b) && has(&at, c) && has(&at, d), "P33 counters of the report");
    if(s && k) { sx_assert(has(&at, "alloc_backtrace=0,backtrace_hash=0x"), "P33 backtraces of the report"); sx_assert(has(&at, k == 1 ? "calls=1,lower_bound_size=65536,upper_bound_size=65536\n" : "calls=2,lower_bound_size=65536,upper_bound_size=65536\n"), "P33 backtraces of the report"); sx_assert(has(&at, env_dlmode == 2 ? " -> sym file\n" : " -> [?]\n"), "P33 callers of the report"); }
    uint64_t w = 0; for(uint64_t i = e0; i < env_nev; i++) w += env_ev[i].op == EV_WRITE && env_ev[i].a == fd; sx_assert(w >= 4, "P33 the report is not written to its file");
    sx_reach("end");
}
#endif
