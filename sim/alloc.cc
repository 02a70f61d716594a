#include "alloc.hh"
#include "rng.hh"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define SIM_POISON(p, n) __asan_poison_memory_region((p), (n))
#define SIM_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define SIM_POISON(p, n) ((void)0)
#define SIM_UNPOISON(p, n) ((void)0)
#endif

namespace sim {

int g_lib = 0;

namespace {

constexpr std::uintptr_t BASE = 0x200000000000ull;
constexpr std::size_t PAGE = 16384;
constexpr std::size_t NPAGES = 65536;          // 1 GiB of address space
constexpr std::size_t MAXSMALL = 4096;
constexpr std::size_t NCLASS = MAXSMALL / 16 + 1;

struct Slot { std::uint64_t serial; std::uint32_t size; std::uint8_t live; std::uint8_t used; };

template <class T> struct Vec // malloc-backed, so that it never recurses into operator new
{
  T* p = nullptr; std::size_t n = 0, cap = 0;
  void push(const T& x)
  {
    if (n == cap) { cap = cap ? cap * 2 : 64; p = static_cast<T*>(std::realloc(p, cap * sizeof(T))); }
    p[n++] = x;
  }
};

struct Page { std::uint32_t cls; std::uint32_t span; Slot* slots; };

bool ready = false;
HeapConf conf;
Rng* rng;
alignas(Rng) char rng_mem[sizeof(Rng)];
Page pages[NPAGES];
std::size_t asc_next = 0, desc_next = NPAGES;
Vec<void*> freel[NCLASS];
std::size_t fifo_head[NCLASS];
struct BigFree { void* p; std::size_t span; };
Vec<BigFree> bigfree;

std::uint64_t serial = 0, nalloc = 0, live_blocks = 0, live_bytes = 0, fired = 0, reused = 0, fired_serial = 0;
std::uint64_t fail_at = 0, fail_burst = 0;

std::size_t page_of(const void* p) { return (reinterpret_cast<std::uintptr_t>(p) - BASE) / PAGE; }
char* page_addr(std::size_t i) { return reinterpret_cast<char*>(BASE + i * PAGE); }

std::size_t take_pages(std::size_t span)
{
  bool down = conf.pages == 1 or (conf.pages == 2 and (rng->next() & 1));
  if (asc_next + span >= desc_next) { std::fprintf(stderr, "SIM: region exhausted\n"); std::_Exit(99); }
  if (down) { desc_next -= span; return desc_next; }
  std::size_t r = asc_next; asc_next += span; return r;
}

void new_small_page(std::size_t cls)
{
  const std::size_t sz = cls * 16;
  const std::size_t i = take_pages(1);
  const std::size_t n = PAGE / sz;
  pages[i].cls = cls; pages[i].span = 1;
  pages[i].slots = static_cast<Slot*>(std::calloc(n, sizeof(Slot)));
  // A page is split in small runs so that different size classes interleave in address order only
  // at page granularity; inside a page the order of hand-out is configurable.
  std::uint32_t idx[PAGE / 16];
  for (std::size_t k = 0; k < n; ++k) idx[k] = k;
  if (conf.layout == 2)
    for (std::size_t k = n; k > 1; --k) { auto j = rng->below(k); auto t = idx[k-1]; idx[k-1] = idx[j]; idx[j] = t; }
  // LIFO pops from the back: push in reverse of the wanted order.
  for (std::size_t k = 0; k < n; ++k)
  {
    std::size_t pos = conf.layout == 1 ? k : n - 1 - k;
    freel[cls].push(page_addr(i) + idx[pos] * sz);
  }
  SIM_POISON(page_addr(i), PAGE);
}

void* take_small(std::size_t cls)
{
  auto& f = freel[cls];
  auto avail = f.n - fifo_head[cls];
  if (avail == 0 or (conf.reuse == 4 and avail < 64)) { new_small_page(cls); avail = f.n - fifo_head[cls]; }
  unsigned mode = conf.reuse;
  if (mode == 3) mode = (rng->next() & 1) ? 0 : 2;
  void* p;
  switch (mode)
  {
    case 1: case 4:
      p = f.p[fifo_head[cls]++];
      if (fifo_head[cls] > 4096)
      {
        std::memmove(f.p, f.p + fifo_head[cls], (f.n - fifo_head[cls]) * sizeof(void*));
        f.n -= fifo_head[cls]; fifo_head[cls] = 0;
      }
      return p;
    case 2:
    {
      std::size_t k = fifo_head[cls] + rng->below(avail);
      p = f.p[k]; f.p[k] = f.p[f.n - 1]; --f.n;
      return p;
    }
    default:
      return f.p[--f.n];
  }
}

void fill(void* p, std::size_t n, bool first)
{
  std::size_t k = n > 65536 ? 65536 : n;
  switch (conf.fill)
  {
    case 0: std::memset(p, 0x00, k); break;
    case 1: std::memset(p, 0xFF, k); break;
    case 2: std::memset(p, 0xA5, k); break;
    default: if (first) std::memset(p, 0x5A, k); break;
  }
}

void* do_alloc(std::size_t n, bool nothrow)
{
  ++nalloc;
  if (fail_at)
  {
    if (fail_at == 1)
    {
      ++fired; fired_serial = serial;
      if (--fail_burst == 0) fail_at = 0;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    --fail_at;
  }
  if (n == 0) n = 1;
  void* p;
  Slot* s;
  if (n <= MAXSMALL)
  {
    std::size_t cls = (n + 15) / 16;
    p = take_small(cls);
    auto pg = page_of(p);
    s = &pages[pg].slots[(static_cast<char*>(p) - page_addr(pg)) / (cls * 16)];
  }
  else
  {
    std::size_t span = (n + PAGE - 1) / PAGE;
    p = nullptr;
    for (std::size_t k = 0; k < bigfree.n; ++k)
      if (bigfree.p[k].span == span) { p = bigfree.p[k].p; bigfree.p[k] = bigfree.p[--bigfree.n]; break; }
    if (not p)
    {
      auto i = take_pages(span);
      pages[i].cls = 0; pages[i].span = span;
      pages[i].slots = static_cast<Slot*>(std::calloc(1, sizeof(Slot)));
      p = page_addr(i);
      SIM_POISON(p, span * PAGE);
    }
    s = pages[page_of(p)].slots;
  }
  if (s->used) ++reused;
  SIM_UNPOISON(p, n);
  fill(p, n, not s->used);
  s->used = 1;
  s->live = 1; s->size = n; s->serial = ++serial;
  ++live_blocks; live_bytes += n;
  // canary in the slack
  if (n <= MAXSMALL)
  {
    std::size_t slack = ((n + 15) / 16) * 16 - n;
    if (slack) { SIM_UNPOISON(static_cast<char*>(p) + n, slack); std::memset(static_cast<char*>(p) + n, 0xC7, slack); SIM_POISON(static_cast<char*>(p) + n, slack); }
  }
  return p;
}

void do_free(void* p)
{
  auto pg = page_of(p);
  std::size_t cls = 0;
  Slot* s;
  if (not pages[pg].slots) heap_misuse("free of an address that was never allocated", p);
  if (pages[pg].cls)
  {
    cls = pages[pg].cls;
    auto off = static_cast<char*>(p) - page_addr(pg);
    if (off % (cls * 16)) heap_misuse("free of an interior address", p);
    s = &pages[pg].slots[off / (cls * 16)];
  }
  else
  {
    if (p != page_addr(pg)) heap_misuse("free of an interior address", p);
    s = pages[pg].slots;
  }
  if (not s->live) heap_misuse("double free", p);
  const std::size_t n = s->size;
  if (cls)
  {
    std::size_t slack = cls * 16 - n;
    if (slack)
    {
      auto c = static_cast<unsigned char*>(p) + n;
      SIM_UNPOISON(c, slack);
      for (std::size_t k = 0; k < slack; ++k) if (c[k] != 0xC7) heap_misuse("write past the end of a block", p);
    }
  }
  if (s->live == 1) { --live_blocks; live_bytes -= n; }
  s->live = 0;
  if (conf.fill != 3) std::memset(p, 0xDB, n > 65536 ? 65536 : n);
  if (cls) { SIM_POISON(p, cls * 16); freel[cls].push(p); }
  else { SIM_POISON(p, pages[pg].span * PAGE); bigfree.push({p, pages[pg].span}); }
}

} // namespace

void heap_init(const HeapConf& c)
{
  conf = c;
  rng = new (rng_mem) Rng(c.seed ^ 0xA110CA7E);
  void* r = mmap(reinterpret_cast<void*>(BASE), NPAGES * PAGE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != reinterpret_cast<void*>(BASE)) { std::fprintf(stderr, "SIM: cannot map the region\n"); std::_Exit(99); }
  ready = true;
}
bool heap_owns(const void* p)
{
  auto a = reinterpret_cast<std::uintptr_t>(p);
  return a >= BASE and a < BASE + NPAGES * PAGE;
}
void heap_arm_failure(std::uint64_t nth, std::uint64_t burst) { fail_at = nth; fail_burst = burst ? burst : 1; }
void heap_disarm() { fail_at = 0; }
HeapArm heap_suspend() { HeapArm a{fail_at, fail_burst}; fail_at = 0; return a; }
void heap_resume(HeapArm a) { fail_at = a.at; fail_burst = a.burst; }
std::uint64_t heap_failures_fired() { return fired; }
std::uint64_t heap_allocs() { return nalloc; }
std::uint64_t heap_live_blocks() { return live_blocks; }
std::uint64_t heap_live_bytes() { return live_bytes; }
std::uint64_t heap_reused() { return reused; }
std::uint64_t heap_serial() { return serial; }
std::size_t heap_disown_since_failure()
{
  std::size_t n = 0;
  for (std::size_t i = 0; i < NPAGES; ++i)
  {
    if (not pages[i].slots) continue;
    std::size_t k = pages[i].cls ? PAGE / (pages[i].cls * 16) : 1;
    for (std::size_t j = 0; j < k; ++j)
    {
      auto& s = pages[i].slots[j];
      if (s.live == 1 and s.serial > fired_serial) { s.live = 2; --live_blocks; live_bytes -= s.size; ++n; }
    }
  }
  return n;
}
std::size_t heap_live_list(std::uint64_t since, Leak* out, std::size_t max)
{
  std::size_t n = 0;
  for (std::size_t i = 0; i < NPAGES; ++i)
  {
    if (not pages[i].slots) continue;
    std::size_t k = pages[i].cls ? PAGE / (pages[i].cls * 16) : 1;
    for (std::size_t j = 0; j < k; ++j)
    {
      auto& s = pages[i].slots[j];
      if (s.live == 1 and s.serial > since)
      {
        if (n < max) out[n] = {page_addr(i) + j * pages[i].cls * 16, s.size, s.serial};
        ++n;
      }
    }
  }
  return n;
}

namespace {
inline void* route_alloc(std::size_t n, bool nothrow)
{
  if (g_lib > 0 and ready) return do_alloc(n, nothrow);
  void* p = std::malloc(n ? n : 1);
  if (not p and not nothrow) throw std::bad_alloc();
  return p;
}
inline void route_free(void* p)
{
  if (not p) return;
  if (heap_owns(p)) do_free(p); else std::free(p);
}
} // namespace

} // namespace sim

void* operator new(std::size_t n) { return sim::route_alloc(n, false); }
void* operator new[](std::size_t n) { return sim::route_alloc(n, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::route_alloc(n, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::route_alloc(n, true); }
void operator delete(void* p) noexcept { sim::route_free(p); }
void operator delete[](void* p) noexcept { sim::route_free(p); }
void operator delete(void* p, std::size_t) noexcept { sim::route_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::route_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::route_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::route_free(p); }
