// Runtime behind the compiler's thread-sanitizer instrumentation: instead of looking for races it
// records which memory each thread touches and hands control to the scheduler before every access
// to memory that threads are known to share.
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define TAB (1u << 16)
#define CONF (1u << 13)
#define MAXT 4

struct tab { uint64_t *key; uint8_t *flag; uint32_t *at; uint32_t used; };
static struct tab tabs[MAXT];
static uint64_t conf[CONF];
static uint32_t nconf;
int race_overflow;

static __thread int active;
static __thread struct tab *tab;
static __thread uintptr_t lo, hi;

// implemented by the scheduler
extern void race_point(uintptr_t addr, int write);
extern int race_wait(uintptr_t addr, int timed);
extern int race_wake(uintptr_t addr, int n);

void race_setup(void) {
    for (int i = 0; i < MAXT; i++) {
        tabs[i].key = mmap(0, TAB * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        tabs[i].at = mmap(0, TAB * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        tabs[i].flag = mmap(0, TAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
}
void race_thread(int i) {
    pthread_attr_t a;
    void *p;
    size_t n;
    tab = &tabs[i];
    if (!pthread_getattr_np(pthread_self(), &a)) {
        pthread_attr_getstack(&a, &p, &n);
        lo = (uintptr_t)p;
        hi = lo + n;
        pthread_attr_destroy(&a);
    }
}
void race_active(int on) { active = on; }

static inline uint32_t mix(uint64_t g) { return (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 40); }
int race_shared(uint64_t g) {
    if (!nconf) return 0;
    for (uint32_t h = mix(g) % CONF;; h = (h + 1) % CONF) {
        if (conf[h] == g) return 1;
        if (!conf[h]) return 0;
    }
}
int race_share(uint64_t g) {
    if (race_shared(g) || nconf >= CONF / 2) return 0;
    uint32_t h = mix(g) % CONF;
    while (conf[h]) h = (h + 1) % CONF;
    conf[h] = g;
    nconf++;
    return 1;
}
void race_unshare(void) { memset(conf, 0, sizeof conf); nconf = 0; }

static void record(struct tab *t, uint64_t g, int w) {
    uint32_t h = mix(g) % TAB;
    while (t->key[h]) {
        if (t->key[h] == g) { t->flag[h] |= 1 << w; return; }
        h = (h + 1) % TAB;
    }
    if (t->used >= TAB / 2) { race_overflow = 1; return; }
    t->at[t->used++] = h;
    t->key[h] = g;
    t->flag[h] = 1 << w;
}
// memory touched by two threads or more, written by one or more: fills out, returns how many
int race_conflicts(uint64_t *out, int max) {
    int n = 0;
    for (int i = 0; i < MAXT; i++) for (uint32_t x = 0; x < tabs[i].used; x++) {
        uint32_t h = tabs[i].at[x];
        uint64_t g = tabs[i].key[h];
        int f = tabs[i].flag[h];
        for (int j = i + 1; j < MAXT; j++) {
            uint32_t k = mix(g) % TAB;
            while (tabs[j].key[k] && tabs[j].key[k] != g) k = (k + 1) % TAB;
            if (tabs[j].key[k] == g && ((f | tabs[j].flag[k]) & 2) && n < max) { out[n++] = g; break; }
        }
    }
    return n;
}
uint64_t race_touched(void) {
    uint64_t n = 0;
    for (int i = 0; i < MAXT; i++) n += tabs[i].used;
    return n;
}

static inline void acc(const volatile void *p, size_t n, int w) {
    if (!active || !n) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= lo && a < hi) return;
    active = 0;
    int hit = 0;
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        record(tab, g, w);
        if (nconf && race_shared(g)) hit = 1;
    }
    if (hit) race_point(a, w);
    active = 1;
}

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_read_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1); }
void __tsan_vptr_read(void *p) { (void)p; }
void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(s, n, 0); acc(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { acc(s, n, 0); acc(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { acc(d, n, 1); return memset(d, c, n); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define S __ATOMIC_SEQ_CST
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int m) { acc(p, sizeof(T), 0); return __atomic_load_n(p, S); } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); __atomic_store_n(p, v, S); } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); return __atomic_exchange_n(p, v, S); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); return __atomic_fetch_add(p, v, S); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); return __atomic_fetch_sub(p, v, S); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); return __atomic_fetch_and(p, v, S); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); return __atomic_fetch_or(p, v, S); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); return __atomic_fetch_xor(p, v, S); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int m) { acc(p, sizeof(T), 1); return __atomic_fetch_nand(p, v, S); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int m, int f) { acc(p, sizeof(T), 1); __atomic_compare_exchange_n(p, &c, v, 0, S, S); return c; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { acc(p, sizeof(T), 1); return __atomic_compare_exchange_n(p, c, v, 0, S, S); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int m, int f) { acc(p, sizeof(T), 1); return __atomic_compare_exchange_n(p, c, v, 0, S, S); }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int m) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int m) {}

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
// the standard library's locks wait through this function
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active) {
        int op = (int)b & FUTEX_CMD_MASK;
        active = 0;
        long r = 0;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n((uint32_t *)a, S) != (uint32_t)c) { errno = EAGAIN; r = -1; }
            else if (race_wait((uintptr_t)a, d != 0)) { errno = ETIMEDOUT; r = -1; }
        } else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) r = race_wake((uintptr_t)a, (int)c);
        else r = raw(n, a, b, c, d, e, f);
        active = 1;
        return r;
    }
    return raw(n, a, b, c, d, e, f);
}
