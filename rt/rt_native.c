// Native implementation of the harness interface: replays one counterexample on the real code.
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
extern void REPLAY_ENTRY(void);
typedef unsigned __int128 u128;
static struct { char name[80]; uint64_t v; } in[200000]; static int nin; static int sched[4096], nsched, ps;
static struct { char n[64]; int c; } cnts[256]; static int ncnt;
static int occ(const char *n) { for(int i = 0; i < ncnt; i++) if(!strcmp(cnts[i].n, n)) return cnts[i].c++; strncpy(cnts[ncnt].n, n, 63); cnts[ncnt].c = 1; ncnt++; return 0; }
static uint64_t lookup(const char *n, int k) { char b[96]; snprintf(b, 96, "%s#%d", n, k); for(int i = 0; i < nin; i++) if(!strcmp(in[i].name, b)) return in[i].v; return 0; }
static int okabort, okfault; static int quiet;
static void finish(int rc, const char *what, const char *id) { printf("REPLAY %s %s\n", what, id); fflush(stdout); _exit(rc); }
uint64_t sx_u64(const char *n) { return lookup(n, occ(n)); }
uint32_t sx_u32(const char *n) { return lookup(n, occ(n)); }
uint16_t sx_u16(const char *n) { return lookup(n, occ(n)); }
uint8_t sx_u8(const char *n) { return lookup(n, occ(n)); }
void sx_bytes(void *p, uint64_t n, const char *name) { uint8_t *q = p; while(n >= 8) { uint64_t v = sx_u64(name); memcpy(q, &v, 8); q += 8; n -= 8; } while(n) { *q++ = sx_u8(name); n--; } }
void sx_assume(bool c) { if(!c) finish(0, "assumption-false", ""); }
void sx_assert(bool c, const char *id) { if(!c) finish(10, "FAILED", id); }
void sx_must_not_return(bool c, const char *id) { if(c) finish(10, "FAILED", id); }
void sx_reach(const char *id) { printf("REACHED %s\n", id); }
void sx_abort_allowed(bool c) { okabort = c; }
void sx_fault_allowed(bool c) { okfault = c; }
void sx_stop(void) { finish(0, "ok", "stopped"); for(;;); }
void sx_abort(void) { if(okabort) finish(0, "ok", "allowed abort"); finish(10, "FAILED", "unexpected abort"); for(;;); }
void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) { sx_abort(); for(;;); }
uint64_t sx_concrete(uint64_t v) { return v; }
uint64_t sx_choose(const char *n, uint64_t k) { (void) k; return sx_u64(n); }
#define NR 4096
static struct { uint64_t a, n; int p; } rg[NR]; static int nrg;
static void cut(uint64_t a, uint64_t n) { for(int i = 0; i < nrg; i++) { uint64_t b = rg[i].a, e = b + rg[i].n; if(b >= a + n || e <= a) continue; int p = rg[i].p; rg[i].n = 0; if(b < a) { rg[i].n = a - b; } if(e > a + n) { int j = rg[i].n ? nrg++ : i; rg[j].a = a + n; rg[j].n = e - a - n; rg[j].p = p; } } }
void sx_map(uint64_t a, uint64_t n, int prot) { void *r = mmap((void *) a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if(r != (void *) a) finish(11, "cannot map", ""); rg[nrg].a = a; rg[nrg].n = (n + 4095) & ~4095ull; rg[nrg].p = prot; nrg++; }
void sx_unmap(uint64_t a, uint64_t n) { n = (n + 4095) & ~4095ull; munmap((void *) a, n); cut(a, n); }
void sx_protect(uint64_t a, uint64_t n, int prot) { n = (n + 4095) & ~4095ull; for(uint64_t x = a; x < a + n; x += 4096) { for(int i = 0; i < nrg; i++) if(x - rg[i].a < rg[i].n) { mprotect((void *) x, 4096, prot); cut(x, 4096); rg[nrg].a = x; rg[nrg].n = 4096; rg[nrg].p = prot; nrg++; break; } if(nrg > NR - 8) { int k = 0; for(int i = 0; i < nrg; i++) if(rg[i].n) rg[k++] = rg[i]; nrg = k; } } }
void sx_zero(uint64_t a, uint64_t n) { for(uint64_t x = a; x < a + n; x += 4096) { int p = sx_prot(x); if(p == 255) continue; if(!(p & 2)) mprotect((void *) (x & ~4095ull), 4096, 3); memset((void *) x, 0, a + n - x < 4096 ? a + n - x : 4096); if(!(p & 2)) mprotect((void *) (x & ~4095ull), 4096, p); } }
int sx_prot(uint64_t a) { for(int i = 0; i < nrg; i++) if(a - rg[i].a < rg[i].n) return rg[i].p; return 255; }
void sx_fork_region(uint64_t a) { (void) a; }
static struct { uint64_t a, n; uint8_t *d; } sn[256]; static int nsn;
// a snapshot covers the whole readable surroundings of the mapping, as in the engine
int sx_snap(const void *p, uint64_t n) { uint64_t a = (uint64_t) p, lo = a, hi = a + n; if(sx_prot(a) != 255) { while(sx_prot(lo - 1) == 1 || sx_prot(lo - 1) == 3) lo = (lo - 1) & ~4095ull; while(sx_prot(hi) == 1 || sx_prot(hi) == 3) hi = (hi + 4096) & ~4095ull; } sn[nsn].a = lo; sn[nsn].n = hi - lo; sn[nsn].d = malloc(hi - lo + 16); memcpy(sn[nsn].d, (void *) lo, hi - lo); return nsn++; }
uint8_t sx_snap_u8(int id, uint64_t a) { return sn[id].d[a - sn[id].a]; }
uint64_t sx_snap_u64(int id, uint64_t a) { uint64_t v; memcpy(&v, sn[id].d + (a - sn[id].a), 8); return v; }
bool sx_same(int id, uint64_t a, uint64_t n) { return !memcmp(sn[id].d + (a - sn[id].a), (void *) a, n); }
// threads follow the recorded schedule; exactly one runs at a time
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER; static int cur, nth = 1; static int stt[8]; static void *waitm[8]; static __thread int me;
static struct { void *m; int owner; } lk[256]; static int nlk; static int held[8];
static int lidx(void *m) { for(int i = 0; i < nlk; i++) if(lk[i].m == m) return i; lk[nlk].m = m; lk[nlk].owner = -1; return nlk++; }
static int runnable(int t) { if(stt[t] == 1 || stt[t] == 2) return 0; if(stt[t] == 3) for(int i = 1; i < nth; i++) if(stt[i] != 2) return 0; return 1; }
static void baton(int t) { cur = t; pthread_cond_broadcast(&cv); while(cur != me) pthread_cond_wait(&cv, &big); }
static int nextSched(int dflt) { return ps < nsched ? sched[ps++] : dflt; }
static void away(const char *why) { int c = -1; for(int t = 0; t < nth; t++) if(t != me && runnable(t)) { c = t; break; } if(c < 0) { int all = 1; for(int t = 0; t < nth; t++) if(stt[t] != 2) all = 0; if(all) finish(0, "ok", "all threads done"); finish(10, "FAILED", "deadlock"); } c = nextSched(c); if(stt[me] == 2) { cur = c; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&big); pthread_exit(NULL); } baton(c); }
static void point(void) { if(nth < 2) return; int any = 0; for(int t = 0; t < nth; t++) if(t != me && runnable(t)) any = 1; if(!any) return; int t = nextSched(me); if(t != me) baton(t); }
void sx_lock(void *m) { int i = lidx(m); if(lk[i].owner == me) finish(10, "FAILED", "lock re-acquired by its holder"); point(); while(lk[i].owner >= 0) { stt[me] = 1; waitm[me] = m; away("lock"); } lk[i].owner = me; held[me]++; }
void sx_unlock(void *m) { int i = lidx(m); if(lk[i].owner != me) finish(10, "FAILED", "unlock of a lock that is not held"); lk[i].owner = -1; held[me]--; for(int t = 0; t < nth; t++) if(stt[t] == 1 && waitm[t] == m) stt[t] = 0; }
int sx_locks_held(void) { return held[me]; }
int sx_lock_held(void *m) { return lk[lidx(m)].owner == me; }
void sx_yield(void) { point(); }
struct sp { void (*f)(void *); void *a; int t; };
static void *tmain(void *x) { struct sp *s = x; me = s->t; pthread_mutex_lock(&big); while(cur != me) pthread_cond_wait(&cv, &big); s->f(s->a); stt[me] = 2; away("end"); return NULL; }
void sx_spawn(void (*f)(void *), void *a) { struct sp *s = malloc(sizeof *s); s->f = f; s->a = a; s->t = nth++; pthread_t t; pthread_create(&t, NULL, tmain, s); }
void sx_join(void) { stt[me] = 3; if(!runnable(me)) away("join"); stt[me] = 0; }
void sx_end_thread(void) { stt[me] = 2; if(me == 0) finish(0, "ok", "main thread ended"); away("end"); for(;;); }
void sx_races(int on) { (void) on; }
int sx_tid(void) { return me; }
void sx_print(const char *m, uint64_t v) { if(!quiet) fprintf(stderr, "SX %s 0x%lx\n", m, v); }
static void segv(int sig, siginfo_t *si, void *c) { if(okfault) finish(0, "ok", "allowed fault"); char b[64]; snprintf(b, 64, "memory fault at %p", si->si_addr); finish(10, "FAILED", b); }
int main(int argc, char **argv) {
  static char altst[65536]; stack_t ss = {.ss_sp = altst, .ss_size = sizeof altst}; sigaltstack(&ss, NULL); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
  FILE *f = fopen(argv[1], "r"); if(!f) return 12; char l[256]; while(fgets(l, 256, f)) { char n[128]; char v[128]; if(sscanf(l, "sched %d", &sched[nsched]) == 1 && l[0] == 's' && l[5] == ' ') { nsched++; continue; } if(sscanf(l, "in %79s %127s", n, v) == 2) { strcpy(in[nin].name, n); in[nin].v = strtoull(v, NULL, 16); nin++; } } fclose(f);
  alarm(60); pthread_mutex_lock(&big); REPLAY_ENTRY(); finish(0, "ok", "returned"); return 0; }
