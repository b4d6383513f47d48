// Callbacks of "inst" builds. The includer provides v_access(addr,size,write,atomic)
// and v_at(addr,size,load,store,order), called before the access.
void *mc_memcpy(void *d, const void *s, size_t n) { v_access(s, n, false, false); v_access(d, n, true, false); return memcpy(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { v_access(s, n, false, false); v_access(d, n, true, false); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { v_access(d, n, true, false); return memset(d, c, n); }
void __tsan_init(void) {}
#define RW(n) void __tsan_read##n(void *a) { v_access(a, n, false, false); } void __tsan_write##n(void *a) { v_access(a, n, true, false); } \
  void __tsan_unaligned_read##n(void *a) { v_access(a, n, false, false); } void __tsan_unaligned_write##n(void *a) { v_access(a, n, true, false); } \
  void __tsan_volatile_read##n(void *a) { v_access(a, n, false, true); } void __tsan_volatile_write##n(void *a) { v_access(a, n, true, true); } \
  void __tsan_read_write##n(void *a) { v_access(a, n, true, false); } void __tsan_unaligned_read_write##n(void *a) { v_access(a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { v_access(a, (size_t)n, false, false); }
void __tsan_write_range(void *a, long n) { v_access(a, (size_t)n, true, false); }
#define AT(B,T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { v_at((void*)a, sizeof(T), true, false, mo); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { v_at((void*)a, sizeof(T), false, true, mo); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { v_at((void*)a, sizeof(T), true, true, mo); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { v_at((void*)a, sizeof(T), true, true, mo); T o = *a; *a = (T)(o+v); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { v_at((void*)a, sizeof(T), true, true, mo); T o = *a; *a = (T)(o-v); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { v_at((void*)a, sizeof(T), true, true, mo); T o = *a; *a = (T)(o&v); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { v_at((void*)a, sizeof(T), true, true, mo); T o = *a; *a = (T)(o|v); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { v_at((void*)a, sizeof(T), true, true, mo); T o = *a; *a = (T)(o^v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fm) { (void)fm; v_at((void*)a, sizeof(T), true, true, mo); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fm) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fm); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fm) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fm); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
