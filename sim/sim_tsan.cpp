// Runtime for code compiled with -fsanitize=thread: instead of looking for
// races it offers the scheduler a preemption point at every memory access.
// (The code is linked without libtsan.)
#include "sim.hpp"

#include <atomic>

using namespace sim;

namespace {
inline void access(const volatile void* p = nullptr, std::size_t n = 0, bool write = false) {
  if (tl_watch) {
    tl_watch(p, n, write);
  }
  if (tl_preempt_after > 0 && --tl_preempt_after == 0) {
    preempt_now();
  }
}
} // namespace

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) { access(); }
void __tsan_vptr_read(void**) { access(); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_read1(void* p) { access(p, 1, false); }
void __tsan_volatile_read1(void* p) { access(p, 1, false); }
void __tsan_read2(void* p) { access(p, 2, false); }
void __tsan_unaligned_read2(void* p) { access(p, 2, false); }
void __tsan_volatile_read2(void* p) { access(p, 2, false); }
void __tsan_unaligned_volatile_read2(void* p) { access(p, 2, false); }
void __tsan_read4(void* p) { access(p, 4, false); }
void __tsan_unaligned_read4(void* p) { access(p, 4, false); }
void __tsan_volatile_read4(void* p) { access(p, 4, false); }
void __tsan_unaligned_volatile_read4(void* p) { access(p, 4, false); }
void __tsan_read8(void* p) { access(p, 8, false); }
void __tsan_unaligned_read8(void* p) { access(p, 8, false); }
void __tsan_volatile_read8(void* p) { access(p, 8, false); }
void __tsan_unaligned_volatile_read8(void* p) { access(p, 8, false); }
void __tsan_read16(void* p) { access(p, 16, false); }
void __tsan_unaligned_read16(void* p) { access(p, 16, false); }
void __tsan_volatile_read16(void* p) { access(p, 16, false); }
void __tsan_unaligned_volatile_read16(void* p) { access(p, 16, false); }
void __tsan_write1(void* p) { access(p, 1, true); }
void __tsan_volatile_write1(void* p) { access(p, 1, true); }
void __tsan_write2(void* p) { access(p, 2, true); }
void __tsan_unaligned_write2(void* p) { access(p, 2, true); }
void __tsan_volatile_write2(void* p) { access(p, 2, true); }
void __tsan_unaligned_volatile_write2(void* p) { access(p, 2, true); }
void __tsan_write4(void* p) { access(p, 4, true); }
void __tsan_unaligned_write4(void* p) { access(p, 4, true); }
void __tsan_volatile_write4(void* p) { access(p, 4, true); }
void __tsan_unaligned_volatile_write4(void* p) { access(p, 4, true); }
void __tsan_write8(void* p) { access(p, 8, true); }
void __tsan_unaligned_write8(void* p) { access(p, 8, true); }
void __tsan_volatile_write8(void* p) { access(p, 8, true); }
void __tsan_unaligned_volatile_write8(void* p) { access(p, 8, true); }
void __tsan_write16(void* p) { access(p, 16, true); }
void __tsan_unaligned_write16(void* p) { access(p, 16, true); }
void __tsan_volatile_write16(void* p) { access(p, 16, true); }
void __tsan_unaligned_volatile_write16(void* p) { access(p, 16, true); }
void __tsan_read_write1(void* p) { access(p, 1, true); }
void __tsan_unaligned_read_write2(void* p) { access(p, 2, true); }
void __tsan_read_write2(void* p) { access(p, 2, true); }
void __tsan_unaligned_read_write4(void* p) { access(p, 4, true); }
void __tsan_read_write4(void* p) { access(p, 4, true); }
void __tsan_unaligned_read_write8(void* p) { access(p, 8, true); }
void __tsan_read_write8(void* p) { access(p, 8, true); }
void __tsan_unaligned_read_write16(void* p) { access(p, 16, true); }
void __tsan_read_write16(void* p) { access(p, 16, true); }
unsigned char __tsan_atomic8_load(const volatile unsigned char* p, int) { access(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic8_store(volatile unsigned char* p, unsigned char v, int) { access(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_exchange(volatile unsigned char* p, unsigned char v, int) { access(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_fetch_add(volatile unsigned char* p, unsigned char v, int) { access(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_fetch_sub(volatile unsigned char* p, unsigned char v, int) { access(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_fetch_and(volatile unsigned char* p, unsigned char v, int) { access(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_fetch_or(volatile unsigned char* p, unsigned char v, int) { access(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_fetch_xor(volatile unsigned char* p, unsigned char v, int) { access(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_fetch_nand(volatile unsigned char* p, unsigned char v, int) { access(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_strong(volatile unsigned char* p, unsigned char* e, unsigned char v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_weak(volatile unsigned char* p, unsigned char* e, unsigned char v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
unsigned char __tsan_atomic8_compare_exchange_val(volatile unsigned char* p, unsigned char e, unsigned char v, int, int) { access(); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
unsigned short __tsan_atomic16_load(const volatile unsigned short* p, int) { access(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic16_store(volatile unsigned short* p, unsigned short v, int) { access(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_exchange(volatile unsigned short* p, unsigned short v, int) { access(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_fetch_add(volatile unsigned short* p, unsigned short v, int) { access(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_fetch_sub(volatile unsigned short* p, unsigned short v, int) { access(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_fetch_and(volatile unsigned short* p, unsigned short v, int) { access(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_fetch_or(volatile unsigned short* p, unsigned short v, int) { access(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_fetch_xor(volatile unsigned short* p, unsigned short v, int) { access(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_fetch_nand(volatile unsigned short* p, unsigned short v, int) { access(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_strong(volatile unsigned short* p, unsigned short* e, unsigned short v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_weak(volatile unsigned short* p, unsigned short* e, unsigned short v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
unsigned short __tsan_atomic16_compare_exchange_val(volatile unsigned short* p, unsigned short e, unsigned short v, int, int) { access(); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
unsigned int __tsan_atomic32_load(const volatile unsigned int* p, int) { access(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic32_store(volatile unsigned int* p, unsigned int v, int) { access(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_exchange(volatile unsigned int* p, unsigned int v, int) { access(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_fetch_add(volatile unsigned int* p, unsigned int v, int) { access(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_fetch_sub(volatile unsigned int* p, unsigned int v, int) { access(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_fetch_and(volatile unsigned int* p, unsigned int v, int) { access(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_fetch_or(volatile unsigned int* p, unsigned int v, int) { access(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_fetch_xor(volatile unsigned int* p, unsigned int v, int) { access(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_fetch_nand(volatile unsigned int* p, unsigned int v, int) { access(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_strong(volatile unsigned int* p, unsigned int* e, unsigned int v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_weak(volatile unsigned int* p, unsigned int* e, unsigned int v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
unsigned int __tsan_atomic32_compare_exchange_val(volatile unsigned int* p, unsigned int e, unsigned int v, int, int) { access(); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
unsigned long __tsan_atomic64_load(const volatile unsigned long* p, int) { access(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic64_store(volatile unsigned long* p, unsigned long v, int) { access(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_exchange(volatile unsigned long* p, unsigned long v, int) { access(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_fetch_add(volatile unsigned long* p, unsigned long v, int) { access(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_fetch_sub(volatile unsigned long* p, unsigned long v, int) { access(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_fetch_and(volatile unsigned long* p, unsigned long v, int) { access(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_fetch_or(volatile unsigned long* p, unsigned long v, int) { access(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_fetch_xor(volatile unsigned long* p, unsigned long v, int) { access(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_fetch_nand(volatile unsigned long* p, unsigned long v, int) { access(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_strong(volatile unsigned long* p, unsigned long* e, unsigned long v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_weak(volatile unsigned long* p, unsigned long* e, unsigned long v, int, int) { access(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
unsigned long __tsan_atomic64_compare_exchange_val(volatile unsigned long* p, unsigned long e, unsigned long v, int, int) { access(); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
void __tsan_atomic_thread_fence(int) { access(); }
void __tsan_atomic_signal_fence(int) {}
}
