// Operating system model: compiled into the symbolic module and into the native replay alike.
#define _GNU_SOURCE 1
#include "env.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <pthread.h>
#include <signal.h>
env_ev_t env_ev[ENV_MAXEV]; uint64_t env_nev; uint64_t env_cnt[EV_MAX];
uint64_t env_next = ENV_BASE, env_gap = 0x10000; uint64_t env_fail_op, env_fail_at, env_failed, env_fail_any, env_anycnt;
int env_rand_mode; int64_t env_short_at = -1, env_short_n; uint64_t env_rand_state = 0x1234567; int env_record_only; uint64_t env_record_size = 0x100000; int env_madv_free_zeroes; int env_strict_unmap; int env_cpu; char *env_envp[4]; char **env_environ = env_envp;
uint8_t env_out[8192]; uint64_t env_nout; int env_capture; uint64_t env_rss_pages; int env_huge;
static void ev(uint64_t op, uint64_t a, uint64_t n, uint64_t x, uint64_t ret) { if(env_nev < ENV_MAXEV) { env_ev[env_nev].op = op; env_ev[env_nev].a = a; env_ev[env_nev].n = n; env_ev[env_nev].x = x; env_ev[env_nev].ret = ret; env_nev++; } }
static int failing(uint64_t op) { uint64_t k = env_cnt[op]++; int canfail = op == EV_MMAP || op == EV_MPROTECT || op == EV_GETRANDOM || op == EV_MUNMAP || op == EV_MADVISE || op == EV_MLOCK; if(env_fail_op == op && env_fail_at == k) { env_failed = 1; return 1; } if(canfail && env_fail_any && ++env_anycnt == env_fail_any) { env_failed = op; return 1; } return 0; }
#define PGUP(x) (((x) + 4095) & ~4095ull)
void *env_mmap(void *p, size_t len, int prot, int flags, int fd, off_t off) {
  if(failing(EV_MMAP)) { ev(EV_MMAP, 0, len, prot, 1); errno = ENOMEM; return MAP_FAILED; }
  if((flags & MAP_HUGETLB) && !env_huge) { ev(EV_MMAP, 0, len, prot, 1); errno = ENOMEM; return MAP_FAILED; }
  if(env_record_only) { uint64_t a = env_next; env_next += env_record_size + env_gap; sx_map(a, env_record_size, prot & 3); ev(EV_MMAP, a, len, prot, 0); return (void *) a; }
  if(len == 0) { errno = EINVAL; return MAP_FAILED; }
  if(len > 0x200000000ull) { errno = ENOMEM; ev(EV_MMAP, 0, len, prot, 1); return MAP_FAILED; }
  uint64_t a = env_next; uint64_t n = PGUP(len); env_next += n + env_gap; sx_map(a, n, prot & 3); ev(EV_MMAP, a, len, prot, 0); env_rss_pages += n >> 12; return (void *) a; }
int env_munmap(void *p, size_t len) {
  uint64_t a = (uint64_t) p; if(failing(EV_MUNMAP)) { ev(EV_MUNMAP, a, len, 0, 1); errno = EINVAL; return -1; }
  if(env_record_only) { ev(EV_MUNMAP, a, len, 0, 0); return 0; }
  if((a & 4095) || len == 0) { ev(EV_MUNMAP, a, len, 0, 1); errno = EINVAL; return -1; }
  uint64_t n = PGUP(len); for(uint64_t i = 0; i < n; i += 4096) { int pr = sx_prot(a + i); if(pr != 255) env_rss_pages--; else if(env_strict_unmap) sx_assert(0, "unmaps a page that is not mapped"); }
  sx_unmap(a, n); ev(EV_MUNMAP, a, len, 0, 0); return 0; }
void (*env_on_protect)(uint64_t a, uint64_t n, int prot);
int env_mprotect(void *p, size_t len, int prot) {
  if(env_on_protect) env_on_protect((uint64_t) p, len, prot);
  uint64_t a = (uint64_t) p; if(failing(EV_MPROTECT)) { ev(EV_MPROTECT, a, len, prot, 1); errno = ENOMEM; return -1; }
  if(env_record_only) { ev(EV_MPROTECT, a, len, prot, 0); return 0; }
  if(a & 4095) { ev(EV_MPROTECT, a, len, prot, 1); errno = EINVAL; return -1; }
  uint64_t n = PGUP(len); if(n && (sx_prot(a) == 255 || sx_prot(a + n - 4096) == 255)) { ev(EV_MPROTECT, a, len, prot, 1); errno = ENOMEM; return -1; }
  if(n) sx_protect(a, n, prot & 3); ev(EV_MPROTECT, a, len, prot, 0); return 0; }
int env_madvise(void *p, size_t len, int adv) {
  uint64_t a = (uint64_t) p; if(failing(EV_MADVISE)) { errno = EINVAL; return -1; }
  ev(EV_MADVISE, a, len, adv, 0); if(env_record_only) return 0;
  if(a & 4095) { errno = EINVAL; return -1; }
  if(adv == MADV_DONTNEED || (adv == MADV_FREE && env_madv_free_zeroes)) { uint64_t n = PGUP(len); if(n && sx_prot(a) != 255) sx_zero(a, n); }
  return 0; }
int env_mlock(const void *p, size_t n) { if(failing(EV_MLOCK)) { errno = ENOMEM; return -1; } ev(EV_MLOCK, (uint64_t) p, n, 0, 0); return 0; }
static uint64_t prng(void) { uint64_t z = (env_rand_state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
ssize_t env_getrandom(void *buf, size_t n, unsigned flags) {
  if(failing(EV_GETRANDOM)) { errno = EAGAIN; ev(EV_GETRANDOM, (uint64_t) buf, n, 0, 1); return -1; }
  ev(EV_GETRANDOM, (uint64_t) buf, n, 0, 0);
  for(size_t i = 0; i + 8 <= n; i += 8) { uint64_t v; if(env_rand_mode == 1) v = sx_u64("rnd"); else if(env_rand_mode == 2) v = env_rand_state; else v = prng(); *(uint64_t *) ((char *) buf + i) = v; }
  if(env_rand_mode == 3) return n - 1;
  if(env_short_at >= 0 && env_short_at-- == 0) { env_failed = EV_GETRANDOM; return env_short_n; }
  return n; }
int env_prctl(int op, ...) { env_cnt[EV_PRCTL]++; ev(EV_PRCTL, op, 0, 0, 0); return 0; }
long env_sysconf(int n) { env_cnt[EV_SYSCONF]++; return 4096; }
int env_getpid(void) { return 4242; }
char *env_strerror(int e) { return "error"; }
int env_getrusage(int who, void *ru) { for(int i = 0; i < 144; i++) ((char *) ru)[i] = 0; return 0; }
int env_sched_getcpu(void) { return env_cpu; }
int env_sigemptyset(void *s) { for(int i = 0; i < 128; i++) ((char *) s)[i] = 0; return 0; }
int env_sigaction(int sig, const void *a, void *o) { env_cnt[EV_SIGACTION]++; ev(EV_SIGACTION, sig, (uint64_t) ((const struct sigaction *) a)->sa_sigaction, ((const struct sigaction *) a)->sa_flags, 0); return 0; }
char *env_getenv(const char *n) { return env_envp[0]; }
int env_open(const char *p, int fl, ...) { env_cnt[EV_OPEN]++; ev(EV_OPEN, (uint64_t) p, fl, 0, 7); return 7; }
int env_close(int fd) { env_cnt[EV_CLOSE]++; return 0; }
ssize_t env_write(int fd, const void *b, size_t n) { env_cnt[EV_WRITE]++; if(env_capture) ev(EV_WRITE, fd, n, 0, 0); if(env_capture) for(size_t i = 0; i < n && env_nout < sizeof(env_out); i++) env_out[env_nout++] = ((const uint8_t *) b)[i]; return n; }
ssize_t env_read(int fd, void *b, size_t n) { return -1; }
int env_poll(void *f, unsigned long n, int t) { return -1; }
int env_ioctl(int fd, unsigned long r, ...) { return -1; }
long env_syscall(long n, ...) { return -1; }
int env_dlmode; int env_dladdr(const void *a, void *i) { static char nm[] = "sym", fn[] = "file"; struct { const char *f; void *b; const char *s; void *a; } *d = i; if(env_dlmode == 0) { d->f = (const char *) 0x31337; d->b = 0; d->s = (const char *) 0x31337; d->a = 0; return 0; } d->f = fn; d->b = 0; d->s = env_dlmode == 1 ? NULL : nm; d->a = 0; return 1; }
int env_pthread_create(void *t, const void *a, void *(*f)(void *), void *arg) { env_cnt[EV_THREAD]++; return 0; }
int env_pthread_mutex_init(pthread_mutex_t *m, const void *a) { env_cnt[EV_MUTEX_INIT]++; for(unsigned i = 0; i < sizeof(*m); i++) ((volatile char *) m)[i] = 0; ev(EV_MUTEX_INIT, (uint64_t) m, 0, 0, 0); return 0; }
int env_pthread_mutex_destroy(pthread_mutex_t *m) { env_cnt[EV_MUTEX_DESTROY]++; (void) *(volatile char *) m; ev(EV_MUTEX_DESTROY, (uint64_t) m, 0, 0, 0); sx_assert(!sx_lock_held(m), "destroys a locked mutex"); return 0; }
int env_pthread_mutex_lock(pthread_mutex_t *m) { (void) *(volatile char *) m; sx_lock(m); return 0; }
int env_pthread_mutex_unlock(pthread_mutex_t *m) { (void) *(volatile char *) m; sx_unlock(m); return 0; }
int env_pthread_mutex_trylock(pthread_mutex_t *m) { sx_lock(m); return 0; }
