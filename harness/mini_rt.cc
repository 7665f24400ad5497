// Runtime for targets without a C library here (see vh_mini.h).
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
extern "C" {
void rt_write(const char* p, int n); void rt_exit(int c);
int main(int, char**);
// The loops are written with volatile so that the compiler does not turn them into calls to themselves.
void* memcpy(void* d, const void* s, size_t n) { volatile char* a = (volatile char*)d; const char* b = (const char*)s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return d; }
void* memmove(void* d, const void* s, size_t n) { volatile char* a = (volatile char*)d; const char* b = (const char*)s; if ((char*)d < b) for (size_t i = 0; i < n; i++) a[i] = b[i]; else for (size_t i = n; i--;) a[i] = b[i]; return d; }
void* memset(void* d, int c, size_t n) { volatile char* a = (volatile char*)d; for (size_t i = 0; i < n; i++) a[i] = (char)c; return d; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
size_t strlen(const char* s) { const volatile char* p = s; while (*p) p++; return (size_t)(p - s); }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
double round(double x) { if (!(x < 4503599627370496.0 && x > -4503599627370496.0)) return x; double t = (double)(int64_t)x, d = x - t; return d >= 0.5 ? t + 1 : d <= -0.5 ? t - 1 : t; }
double floor(double x) { if (!(x < 4503599627370496.0 && x > -4503599627370496.0)) return x; double t = (double)(int64_t)x; return t > x ? t - 1 : t; }
double ceil(double x) { return -floor(-x); }
double ldexp(double x, int e) { while (e > 0) { int s = e > 60 ? 60 : e; x *= (double)(1ull << s); e -= s; } while (e < 0) { int s = -e > 60 ? 60 : -e; x /= (double)(1ull << s); e += s; } return x; }
double exp(double x) {
  if (x > 709) x = 709; if (x < -740) return 0;
  double k = floor(x / 0.69314718055994530942 + 0.5), r = x - k * 0.693147180369123816490 - k * 1.90821492927058770002e-10, t = 1, s = 1;
  for (int i = 1; i < 20; i++) { t = t * r / i; s += t; }
  return ldexp(s, (int)k);
}
double tanh(double x) {
  if (x > 20) return 1; if (x < -20) return -1;
  if (x < 0.1 && x > -0.1) { double q = x * x; return x * (1 + q * (-1.0 / 3 + q * (2.0 / 15 + q * (-17.0 / 315 + q * (62.0 / 2835 + q * (-1382.0 / 155925 + q * (21844.0 / 6081075))))))); }
  double e = exp(2 * x); return (e - 1) / (e + 1);
}
int rt_vfmt(char* o, int cap, const char* f, va_list ap) {
  int n = 0; 
  auto put = [&](char c) { if (n < cap - 1) o[n++] = c; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; while (*f == '.' || (*f >= '0' && *f <= '9')) f++; int l = 0; while (*f == 'l') l++, f++; if (*f == 'z') l = sizeof(size_t) == 8 ? 2 : 0, f++;
    if (*f == 's') { const char* s = va_arg(ap, const char*); while (*s) put(*s++); }
    else if (*f == 'd' || *f == 'u') { long long v = l >= 2 ? va_arg(ap, long long) : l == 1 ? va_arg(ap, long) : va_arg(ap, int); unsigned long long u = (unsigned long long)v; if (*f == 'd' && v < 0) { put('-'); u = 0 - u; } if (*f == 'u' && l < 2) u = (unsigned)v; char t[24]; int k = 0; do t[k++] = (char)('0' + u % 10); while (u /= 10); while (k) put(t[--k]); }
    else if (*f == 'f' || *f == 'g') { double v = va_arg(ap, double); if (v < 0) { put('-'); v = -v; } unsigned u = (unsigned)v, c = (unsigned)((v - u) * 100); char t[24]; int k = 0; do t[k++] = (char)('0' + u % 10); while (u /= 10); while (k) put(t[--k]); put('.'); put((char)('0' + c / 10 % 10)); put((char)('0' + c % 10)); }
    else put(*f);
  }
  o[n] = 0; return n;
}
static void say(const char* s) { rt_write(s, (int)strlen(s)); }
void __assert_fail(const char* e, const char* f, unsigned, const char*) { say("VIOL assertion "); say(e); say(" in "); say(f); say("\n"); rt_exit(1); for (;;) {} }
void abort() { say("VIOL abort the program aborted\n"); rt_exit(1); for (;;) {} }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
void* __dso_handle;
void __cxa_pure_virtual() { abort(); }
}
#if defined(__wasm__)
extern "C" {
__attribute__((import_module("env"), import_name("w"))) void env_w(const char* p, int n);
__attribute__((import_module("env"), import_name("x"))) void env_x(int c);
void rt_write(const char* p, int n) { env_w(p, n); }
void rt_exit(int c) { env_x(c); }
static char arg_mem[4096]; static char* arg_v[32];
__attribute__((export_name("argbuf"))) char* rt_argbuf() { return arg_mem; }
__attribute__((export_name("run"))) int rt_run(int n) { char* p = arg_mem; for (int i = 0; i < n && i < 32; i++) { arg_v[i] = p; p += strlen(p) + 1; } return main(n, arg_v); }
}
#elif defined(__mips__)
extern "C" {
long rt_sys(long n, long a, long b, long c) {
  register long v0 __asm__("$2") = n; register long a0 __asm__("$4") = a; register long a1 __asm__("$5") = b; register long a2 __asm__("$6") = c; register long a3 __asm__("$7") = 0;
  __asm__ volatile("syscall" : "+r"(v0), "+r"(a3) : "r"(a0), "r"(a1), "r"(a2) : "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "memory");
  return a3 ? -1 : v0;
}
#if defined(__LP64__)
enum { kWrite = 5001, kExit = 5205, kMmap = 5009, kMprotect = 5010, kMunmap = 5011 };
static void* anon(size_t n) {
  register long v0 __asm__("$2") = kMmap; register long a0 __asm__("$4") = 0; register long a1 __asm__("$5") = (long)n; register long a2 __asm__("$6") = 3; register long a3 __asm__("$7") = 0x802; register long a4 __asm__("$8") = -1; register long a5 __asm__("$9") = 0;
  __asm__ volatile("syscall" : "+r"(v0), "+r"(a3) : "r"(a0), "r"(a1), "r"(a2), "r"(a4), "r"(a5) : "$1", "$3", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "memory");
  return a3 ? (void*)-1 : (void*)v0;
}
#else
enum { kWrite = 4004, kExit = 4246, kMmap = 4090, kMprotect = 4125, kMunmap = 4091 };
static void* anon(size_t n) {
  register long v0 __asm__("$2") = kMmap; register long a0 __asm__("$4") = 0; register long a1 __asm__("$5") = (long)n; register long a2 __asm__("$6") = 3; register long a3 __asm__("$7") = 0x802;
  __asm__ volatile(".set push\n.set noreorder\naddiu $29,$29,-32\nli $8,-1\nsw $8,16($29)\nsw $0,20($29)\nsyscall\naddiu $29,$29,32\n.set pop" : "+r"(v0), "+r"(a3) : "r"(a0), "r"(a1), "r"(a2) : "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "memory");
  return a3 ? (void*)-1 : (void*)v0;
}
#endif
// The flags and constants of the borrowed headers are another machine's: only private anonymous memory is ever asked for.
void* mmap(void*, size_t n, int, int, int, long) { return anon(n); }
int mprotect(void* p, size_t n, int prot) { return rt_sys(kMprotect, (long)p, (long)n, prot) < 0 ? -1 : 0; }
int munmap(void* p, size_t n) { return rt_sys(kMunmap, (long)p, (long)n, 0) < 0 ? -1 : 0; }
void rt_write(const char* p, int n) { while (n > 0) { long w = rt_sys(kWrite, 1, (long)p, n); if (w <= 0) rt_sys(kExit, 3, 0, 0); p += w; n -= (int)w; } }
void rt_exit(int c) { for (;;) rt_sys(kExit, c, 0, 0); }
// Memory: blocks of a power of two size kept on free lists; large ones come from and go back to the system. Every block is
// aligned to 64 bytes and preceded by its class.
static char* free_list[40]; static char* bump; static size_t bump_left;
void* malloc(size_t n) {
  int k = 6; while (((size_t)1 << k) < n) k++;
  size_t sz = ((size_t)1 << k) + 64; char* p;
  if (k >= 20) { p = (char*)anon(n + 64); if (p == (char*)-1) return 0; *(size_t*)p = n + 64; *(int*)(p + 16) = -1; return p + 64; }
  if (free_list[k]) { p = free_list[k]; free_list[k] = *(char**)(p + 64); }
  else { if (bump_left < sz) { bump = (char*)anon(1 << 22); if (bump == (char*)-1) return 0; bump_left = 1 << 22; } p = bump; bump += sz; bump_left -= sz; }
  *(int*)(p + 16) = k; return p + 64;
}
void free(void* q) { if (!q) return; char* p = (char*)q - 64; int k = *(int*)(p + 16); if (k < 0) { munmap(p, *(size_t*)p); return; } *(char**)(p + 64) = free_list[k]; free_list[k] = p; }
int posix_memalign(void** o, size_t al, size_t n) { if (al > 64) abort(); *o = malloc(n); return *o ? 0 : 12; }
void* memalign(size_t al, size_t n) { void* p; return posix_memalign(&p, al, n) ? 0 : p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int snprintf(char* o, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int n = rt_vfmt(o, (int)cap, f, ap); va_end(ap); return n; }
void perror(const char* s) { rt_write(s, (int)strlen(s)); rt_write("\n", 1); }
void exit(int c) { rt_exit(c); for (;;) {} }
// One thread.
int pthread_mutex_init(void*, const void*) { return 0; } int pthread_mutex_destroy(void*) { return 0; } int pthread_mutex_lock(void*) { return 0; } int pthread_mutex_unlock(void*) { return 0; }
int pthread_cond_init(void*, const void*) { return 0; } int pthread_cond_destroy(void*) { return 0; } int pthread_cond_broadcast(void*) { return 0; } int pthread_cond_signal(void*) { return 0; } int pthread_cond_wait(void*, void*) { abort(); return 0; }
int pthread_create(void*, const void*, void*, void*) { abort(); return 1; } int pthread_join(unsigned long, void**) { return 0; } unsigned long pthread_self() { return 1; }
long sysconf(int) { return 1; }
void* stderr; int fprintf(void*, const char* f, ...) { char b[400]; va_list ap; va_start(ap, f); int n = rt_vfmt(b, sizeof b, f, ap); va_end(ap); rt_write(b, n); return n; }
static int err_no; int* __errno_location() { return &err_no; }
int nanosleep(const void*, void*) { return 0; }
typedef void (*rt_fn)(); extern rt_fn __init_array_start[] __attribute__((weak)); extern rt_fn __init_array_end[] __attribute__((weak));
void rt_start(long* sp) { for (rt_fn* f = __init_array_start; f != __init_array_end; f++) (*f)(); rt_exit(main((int)sp[0], (char**)(sp + 1))); }
#if defined(__LP64__)
__asm__(".text\n.globl __start\n.set noreorder\n__start:\nmove $4,$29\nli $8,-16\nand $29,$29,$8\ndaddiu $29,$29,-64\ndla $25,rt_start\njalr $25\nnop\n.set reorder\n");
#else
__asm__(".text\n.globl __start\n.set noreorder\n__start:\nmove $4,$29\nli $8,-16\nand $29,$29,$8\naddiu $29,$29,-64\nla $25,rt_start\njalr $25\nnop\n.set reorder\n");
// What the compiler calls for 64-bit arithmetic on a 32-bit machine.
static uint64_t udm(uint64_t a, uint64_t b, uint64_t* r) { uint64_t q = 0, m = 0; for (int i = 63; i >= 0; i--) { m = (m << 1) | ((a >> i) & 1); if (m >= b) { m -= b; q |= 1ull << i; } } *r = m; return q; }
uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; if (!((a | b) >> 32)) return (uint32_t)a / (uint32_t)b; return udm(a, b, &r); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; if (!((a | b) >> 32)) return (uint32_t)a % (uint32_t)b; udm(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t ua = a < 0 ? 0 - (uint64_t)a : (uint64_t)a, ub = b < 0 ? 0 - (uint64_t)b : (uint64_t)b, q = __udivdi3(ua, ub); return (int64_t)((a < 0) != (b < 0) ? 0 - q : q); }
int64_t __moddi3(int64_t a, int64_t b) { uint64_t ua = a < 0 ? 0 - (uint64_t)a : (uint64_t)a, ub = b < 0 ? 0 - (uint64_t)b : (uint64_t)b, q = __umoddi3(ua, ub); return (int64_t)(a < 0 ? 0 - q : q); }
int64_t __fixdfdi(double x) { bool n = x < 0; if (n) x = -x; uint32_t h = (uint32_t)(x / 4294967296.0), l = (uint32_t)(x - (double)h * 4294967296.0); uint64_t v = (uint64_t)h << 32 | l; return (int64_t)(n ? 0 - v : v); }
double __floatdidf(int64_t a) { bool n = a < 0; uint64_t u = n ? 0 - (uint64_t)a : (uint64_t)a; double d = (double)(uint32_t)(u >> 32) * 4294967296.0 + (double)(uint32_t)u; return n ? -d : d; }
double __floatundidf(uint64_t u) { return (double)(uint32_t)(u >> 32) * 4294967296.0 + (double)(uint32_t)u; }
#endif
}
#endif

