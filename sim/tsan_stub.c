/* generated by gen_stub.py */
#include <stdint.h>
extern void amsim_atomic_point(void) __attribute__((weak));
static inline void pt(void) { if (amsim_atomic_point) amsim_atomic_point(); }
void __tsan_init(void) {}
void __tsan_atomic_thread_fence(int mo) { (void)mo; pt(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}

uint8_t __tsan_atomic8_load(const volatile uint8_t *a, int mo) { (void)mo; pt(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic8_store(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_exchange(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_add(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_sub(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_and(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_or(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_xor(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_nand(volatile uint8_t *a, uint8_t v, int mo) { (void)mo; pt(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_strong(volatile uint8_t *a, uint8_t *c, uint8_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_weak(volatile uint8_t *a, uint8_t *c, uint8_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_compare_exchange_val(volatile uint8_t *a, uint8_t c, uint8_t v, int mo, int fo) { (void)mo; (void)fo; pt(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
uint16_t __tsan_atomic16_load(const volatile uint16_t *a, int mo) { (void)mo; pt(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic16_store(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_exchange(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_add(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_sub(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_and(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_or(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_xor(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_nand(volatile uint16_t *a, uint16_t v, int mo) { (void)mo; pt(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_strong(volatile uint16_t *a, uint16_t *c, uint16_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_weak(volatile uint16_t *a, uint16_t *c, uint16_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_compare_exchange_val(volatile uint16_t *a, uint16_t c, uint16_t v, int mo, int fo) { (void)mo; (void)fo; pt(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
uint32_t __tsan_atomic32_load(const volatile uint32_t *a, int mo) { (void)mo; pt(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic32_store(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_exchange(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_sub(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_and(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_or(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_xor(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_nand(volatile uint32_t *a, uint32_t v, int mo) { (void)mo; pt(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_strong(volatile uint32_t *a, uint32_t *c, uint32_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_weak(volatile uint32_t *a, uint32_t *c, uint32_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_compare_exchange_val(volatile uint32_t *a, uint32_t c, uint32_t v, int mo, int fo) { (void)mo; (void)fo; pt(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
uint64_t __tsan_atomic64_load(const volatile uint64_t *a, int mo) { (void)mo; pt(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic64_store(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_exchange(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_add(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_sub(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_and(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_or(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_xor(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_nand(volatile uint64_t *a, uint64_t v, int mo) { (void)mo; pt(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_strong(volatile uint64_t *a, uint64_t *c, uint64_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_weak(volatile uint64_t *a, uint64_t *c, uint64_t v, int mo, int fo) { (void)mo; (void)fo; pt(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_compare_exchange_val(volatile uint64_t *a, uint64_t c, uint64_t v, int mo, int fo) { (void)mo; (void)fo; pt(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
