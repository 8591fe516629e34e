// Operating system model used by every harness. See DESIGN.md ("Environment").
#ifndef ENV_H
#define ENV_H
#include "sx.h"
#include <sys/types.h>
enum { EV_MMAP = 1, EV_MUNMAP, EV_MPROTECT, EV_MADVISE, EV_MLOCK, EV_GETRANDOM, EV_PRCTL, EV_WRITE, EV_OPEN, EV_CLOSE, EV_SIGACTION, EV_MUTEX_INIT, EV_MUTEX_DESTROY, EV_THREAD, EV_SYSCONF, EV_OTHER, EV_MAX };
typedef struct { uint64_t op, a, n, x, ret; } env_ev_t;
#define ENV_MAXEV 2000
extern env_ev_t env_ev[ENV_MAXEV];
extern uint64_t env_nev;              // events recorded
extern uint64_t env_cnt[EV_MAX];      // calls per operation
extern uint64_t env_next;             // address of the next mapping
extern uint64_t env_gap;              // unmapped bytes left between mappings
extern uint64_t env_fail_op, env_fail_at, env_failed; // the env_fail_at-th call (0 based) of env_fail_op fails
extern uint64_t env_fail_any;         // if nonzero: the n-th (1 based) OS call of any failing kind fails
extern uint64_t env_anycnt;
extern int64_t env_short_at, env_short_n; // the call with this number from now returns this many bytes only
extern int env_rand_mode;             // 0 generator, 1 symbolic, 2 constant env_rand_state, 3 short read
extern uint64_t env_rand_state;
extern int env_record_only;           // mappings get env_record_size bytes and symbolic lengths are only recorded
extern uint64_t env_record_size;
extern int env_madv_free_zeroes;      // what MADV_FREE does to the contents
extern int env_strict_unmap;          // unmapping something that is not mapped is an error
extern int env_cpu;
extern char *env_envp[4];
extern uint8_t env_out[8192]; extern uint64_t env_nout; // bytes written to descriptors
extern int env_capture;
extern uint64_t env_rss_pages;        // pages mapped through env_mmap and not unmapped
extern int env_dlmode;               // dladdr: 0 unknown object (nothing filled in), 1 no symbol, 2 symbol
extern int env_huge;                  // huge pages are available (otherwise MAP_HUGETLB fails)
extern void (*env_on_protect)(uint64_t a, uint64_t n, int prot); // called before every change of protection
#define ENV_BASE 0x600000000000ull
#endif
