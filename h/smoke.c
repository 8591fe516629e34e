#include "hx.h"
//@job prop=P00 entry=h_smoke cfg=base reach=init,alloc
void h_smoke(void) {
    hx_init();
    sx_reach("init");
    void *p = iso_alloc(100);
    sx_reach("alloc");
    sx_print("p", (uint64_t) p);
    sx_print("cs", z_of((uint64_t) p)->chunk_size);
    iso_free(p);
    sx_assert(_root->zones_used == 9, "nine zones");
    uint64_t n = sx_u64("n");
    sx_assume(n < 70000);
    void *q = iso_alloc(n);
    sx_assert(q != NULL, "q");
    sx_reach("end");
}
