// The simulated heap: every allocation the library makes goes through it.
//
// Blocks live in a region mapped at a fixed address, without in-band headers; which slot an
// allocation gets, whether a freed slot is reused at once, later or at random, what garbage it
// contains, and which allocation fails, is decided by the run's configuration. Nothing depends on
// the host allocator or on address space randomisation.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

struct HeapConf
{
  std::uint64_t seed = 1;
  unsigned reuse = 0;       // 0 LIFO, 1 FIFO, 2 random, 3 mixed LIFO/random, 4 delayed (quarantine 64)
  unsigned layout = 0;      // 0 ascending, 1 descending, 2 shuffled slots in a page
  unsigned pages = 0;       // 0 ascending pages, 1 descending pages, 2 random pages
  unsigned fill = 0;        // 0: 0x00, 1: 0xFF, 2: 0xA5, 3: leave what the previous owner left
};

extern int g_lib;                    // > 0: the allocation is made on behalf of the library

void heap_init(const HeapConf&);
bool heap_owns(const void*);

// Fault injection: fail the nth (1-based) allocation from now, and the `burst`-1 following ones.
void heap_arm_failure(std::uint64_t nth, std::uint64_t burst);
void heap_disarm();
struct HeapArm { std::uint64_t at, burst; };
HeapArm heap_suspend();                    // save the armed failure and disarm
void heap_resume(HeapArm);
std::uint64_t heap_failures_fired();       // since the start of the run
std::uint64_t heap_allocs();               // number of library allocations since the start
std::uint64_t heap_live_blocks();
std::uint64_t heap_live_bytes();
std::uint64_t heap_reused();               // allocations that got a previously used address

// Live blocks whose serial number is > since. Writes at most max of them, returns the number.
struct Leak { void* p; std::size_t size; std::uint64_t serial; };
std::size_t heap_live_list(std::uint64_t since, Leak* out, std::size_t max);
std::uint64_t heap_serial();
// No longer count the live blocks obtained since the last injected failure: what Boost.Coroutine
// allocates to carry an exception out of the start of a coroutine, which it never releases.
std::size_t heap_disown_since_failure();

struct LibScope
{
  int saved;
  LibScope() : saved(g_lib) { g_lib = 1; }
  ~LibScope() { g_lib = saved; }
};
struct UserScope
{
  int saved;
  UserScope() : saved(g_lib) { g_lib = 0; }
  ~UserScope() { g_lib = saved; }
};

// Called on detected heap misuse (double free, overflow of a block). Must not return.
[[noreturn]] void heap_misuse(const char* what, const void* p);

} // namespace sim
