// Harness interface: implemented by the symbolic engine and, for replay, by rt_native.c
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
typedef uint64_t sx_t;
uint64_t sx_u64(const char *name);
uint32_t sx_u32(const char *name);
uint16_t sx_u16(const char *name);
uint8_t sx_u8(const char *name);
void sx_bytes(void *p, uint64_t n, const char *name);      // n concrete
void sx_assume(bool c);
void sx_assert(bool c, const char *id);
void sx_reach(const char *id);                              // vacuity witness
void sx_abort_allowed(bool c);                              // may be symbolic; sticky
void sx_fault_allowed(bool c);
void sx_must_not_return(bool c, const char *id);            // sugar: assert(!c)
void sx_stop(void) __attribute__((noreturn));               // path ends fine
uint64_t sx_concrete(uint64_t v);                           // fork over all values
uint64_t sx_choose(const char *name, uint64_t n);           // symbolic in [0,n), forked
void sx_map(uint64_t addr, uint64_t len, int prot);
void sx_unmap(uint64_t addr, uint64_t len);
void sx_protect(uint64_t addr, uint64_t len, int prot);
void sx_zero(uint64_t addr, uint64_t len);
int sx_prot(uint64_t addr);                                 // 0..3, 255 unmapped
void sx_fork_region(uint64_t addr);                         // enumerate symbolic addresses in that region
int sx_snap(const void *p, uint64_t len);                   // snapshot
uint8_t sx_snap_u8(int id, uint64_t addr);
uint64_t sx_snap_u64(int id, uint64_t addr);
bool sx_same(int id, uint64_t addr, uint64_t len);          // memory equal to snapshot
void sx_lock(void *m);
void sx_unlock(void *m);
int sx_locks_held(void);
int sx_lock_held(void *m);
void sx_yield(void);
void sx_spawn(void (*fn)(void *), void *arg);
void sx_join(void);
void sx_races(int on);
int sx_tid(void);
void sx_print(const char *msg, uint64_t v);
void sx_end_thread(void) __attribute__((noreturn));
#define SX_TRUE 1
#endif
