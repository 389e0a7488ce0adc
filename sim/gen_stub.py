#!/usr/bin/env python3
# Generates tsan_stub.c: the functions the compiler's thread-sanitizer pass
# calls for every atomic operation. Each one first gives the simulator a
# scheduling point, then performs the operation sequentially consistently.
out = ["""/* generated by gen_stub.py */
#include <stdint.h>
extern void amsim_atomic_point(void) __attribute__((weak));
static inline void pt(void) { if (amsim_atomic_point) amsim_atomic_point(); }
void __tsan_init(void) {}
void __tsan_atomic_thread_fence(int mo) { (void)mo; pt(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
"""]
for bits in (8, 16, 32, 64):
    t = f"uint{bits}_t"
    p = f"__tsan_atomic{bits}_"
    out.append(f"{t} {p}load(const volatile {t} *a, int mo) {{ (void)mo; pt(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }}")
    out.append(f"void {p}store(volatile {t} *a, {t} v, int mo) {{ (void)mo; pt(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }}")
    out.append(f"{t} {p}exchange(volatile {t} *a, {t} v, int mo) {{ (void)mo; pt(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }}")
    for op in ("add", "sub", "and", "or", "xor", "nand"):
        out.append(f"{t} {p}fetch_{op}(volatile {t} *a, {t} v, int mo) {{ (void)mo; pt(); return __atomic_fetch_{op}(a, v, __ATOMIC_SEQ_CST); }}")
    for kind in ("strong", "weak"):
        out.append(f"int {p}compare_exchange_{kind}(volatile {t} *a, {t} *c, {t} v, int mo, int fo) {{ (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }}")
    out.append(f"{t} {p}compare_exchange_val(volatile {t} *a, {t} c, {t} v, int mo, int fo) {{ (void)mo; (void)fo; pt(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }}")
open("tsan_stub.c", "w").write("\n".join(out) + "\n")
