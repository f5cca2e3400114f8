// malloc family over one fixed address range, so that every address a run sees is a function of the run alone
// (no ASLR, no environment influence), and memory is bounded without touching process limits.
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

long g_arena_live = 0;   // live blocks of the whole process
namespace {
struct H { uint32_t cls, off; uint64_t size; };
const uintptr_t BASE = 0x100000000000ULL;
const size_t REGION = (size_t)3 << 30;
char *cur = nullptr, *lim = nullptr;
H *freel[128];
volatile int lk = 0;
struct Lk { Lk() { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) {} } ~Lk() { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); } };
inline uint32_t cls_of(size_t n) { if (n <= 1024) return (uint32_t)((n + 15) / 16); uint32_t c = 64 + 1; size_t s = 2048; while (s < n) { s <<= 1; c++; } return c; }
const uint64_t GUARD = 0x5C7E5C7E5C7E5C7EULL;   // 8 bytes after every block; a write past the end of a block ends the run
inline void guard_set(void *p, size_t n) { memcpy((char *)p + n, &GUARD, 8); }
inline void guard_check(void *p, size_t n) { if (memcmp((char *)p + n, &GUARD, 8)) { static const char m[] = "sim: write past the end of a block\n"; (void)!write(2, m, sizeof m - 1); abort(); } }
inline size_t size_of(uint32_t c) { return c <= 64 ? (size_t)c * 16 : (size_t)2048 << (c - 65); }
void *get(size_t n, bool *fresh = nullptr) {
  if (n == 0) n = 1;
  if (n > REGION) { errno = ENOMEM; return nullptr; }
  uint32_t c = cls_of(n + 8);
  Lk l;
  H *h = freel[c];
  if (h) { freel[c] = *(H **)(h + 1); }
  else {
    if (!cur) {
      void *p = mmap((void *)BASE, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (p != (void *)BASE) abort();
      cur = (char *)p; lim = cur + REGION;
    }
    size_t t = size_of(c) + sizeof(H);
    if (t > (size_t)(lim - cur)) { errno = ENOMEM; return nullptr; }
    h = (H *)cur; cur += t; if (fresh) *fresh = true;
  }
  h->cls = c; h->off = 0; h->size = n; guard_set(h + 1, n); g_arena_live++;
  return h + 1;
}
void put(void *p) {
  if (!p) return;
  H *h = (H *)p - 1;
  if (h->off) h = (H *)((char *)p - h->off) - 1;
  if (h->cls == 0 || h->cls >= 128) abort();
  guard_check(h + 1, h->size);
  uint32_t c = h->cls;
  Lk l;
  *(H **)(h + 1) = freel[c]; freel[c] = h; g_arena_live--;
}
void *aligned(size_t a, size_t n) {
  if (a <= 16) return get(n);
  char *p = (char *)get(n + a + 16); if (!p) return nullptr;
  if (((uintptr_t)p & (a - 1)) == 0) return p;
  char *q = (char *)(((uintptr_t)p + 16 + a - 1) & ~(uintptr_t)(a - 1));
  H *h = (H *)q - 1; h->cls = 1; h->off = (uint32_t)(q - p); h->size = n;
  return q;
}
}
extern "C" {
void *malloc(size_t n) noexcept { return get(n); }
void free(void *p) noexcept { int e = errno; put(p); errno = e; }
void *calloc(size_t a, size_t b) noexcept { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } 
  bool fresh = false; void *p = get(n, &fresh);
  if (!p || fresh) return p;
  char *q = (char *)p, *e = q + n, *lo = (char *)(((uintptr_t)q + 4095) & ~(uintptr_t)4095), *hi = (char *)((uintptr_t)e & ~(uintptr_t)4095);
  if (n >= (1 << 17) && madvise(lo, (size_t)(hi - lo), MADV_DONTNEED) == 0) { memset(q, 0, (size_t)(lo - q)); memset(hi, 0, (size_t)(e - hi)); }   // pages come back zero when touched
  else memset(p, 0, n);
  return p; }
void *realloc(void *p, size_t n) noexcept {
  if (!p) return get(n);
  if (!n) { put(p); return nullptr; }
  H *h = (H *)p - 1; size_t old = h->size;
  if (!h->off) guard_check(p, old);
  if (!h->off && size_of(h->cls) >= n + 8) { h->size = n; guard_set(p, n); return p; }
  void *q = get(n); if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n); put(p); return q;
}
void *memalign(size_t a, size_t n) noexcept { return aligned(a, n); }
void *aligned_alloc(size_t a, size_t n) noexcept { return aligned(a, n); }
int posix_memalign(void **o, size_t a, size_t n) noexcept { void *p = aligned(a, n); if (!p) return ENOMEM; *o = p; return 0; }
void *valloc(size_t n) noexcept { return aligned(4096, n); }
void *pvalloc(size_t n) noexcept { return aligned(4096, (n + 4095) & ~(size_t)4095); }
size_t malloc_usable_size(void *p) noexcept { return p ? ((H *)p - 1)->size : 0; }
}
