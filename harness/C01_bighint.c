/* C01: large size hints: every hash value must land inside the table. */
#include "mc.h"
#include <zt.h>
static unsigned long H;
static unsigned long h_sel(const void *k, size_t n, void *cd) { (void)n; (void)cd; return H + ((uintptr_t)k - 1) * 0; }
static const size_t hints[] = { 511, 512, 513, 1000, 4096, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 100000, 131072 };
void mc_setup(void) { zt_mem_pool *warm = zt_table_pool_init(2); zt_mem_pool_destroy(&warm); mc_shard_depth = 2; }
void mc_run(void) {
    size_t hint = hints[mc_choose(sizeof hints / sizeof *hints)];
    int fl = mc_choose(2) ? ZT_TABLE_SIZE_USE_HINT : 0;
    static const unsigned long base[] = { 0, ~0UL, 0xffffffffUL, 0xffff0000UL, 0x0000ffffUL, 0x7fffffffUL, 0x80000000UL, 0x100000000UL, 0x8000000000000000UL, 0xffff00000000UL, 0xfffeUL, 0x1ffffUL };
    H = base[mc_choose(12)];
    MC_LOG("table_init(hint %zu, flags %d); user hash value %#lx", hint, fl, H);
    long live0 = mc_live_blocks();
    zt_mem_pool *shared_pool = zt_table_pool_init(2);
    zt_table *t = zt_table_init("t", h_sel, zt_table_compare_int, hint, fl, NULL);
    MC_CHECK(t, "init failed");
    MC_LOG("set/get/del two colliding keys");
    int r1 = zt_table_set(t, (void *)1L, 8, (void *)11L, 8), r2 = zt_table_set(t, (void *)2L, 8, (void *)12L, 8);
    long a = (long)zt_table_get(t, (void *)1L, 8), b = (long)zt_table_get(t, (void *)2L, 8);
    MC_CHECK(!r1 && !r2 && a == 11 && b == 12, "hint %zu flags %d hash %#lx: set/get gave %d %d %ld %ld", hint, fl, H, r1, r2, a, b);
    long c = (long)zt_table_del(t, (void *)1L, 8);
    MC_CHECK(c == 11 && zt_table_get(t, (void *)1L, 8) == NULL && (long)zt_table_get(t, (void *)2L, 8) == 12, "hint %zu flags %d hash %#lx: del wrong", hint, fl, H);
    mc_step(); mc_state(mc_mix(hint * 2 + fl, H)); mc_nontrivial();
    zt_table_destroy(t);
    MC_CHECK(zt_mem_pool_destroy(&shared_pool) == 0, "table headers still in use after every table was destroyed");
    MC_CHECK(mc_live_blocks() == live0, "destroy leaves %ld blocks", mc_live_blocks() - live0);
}
