// Interface between the runner and one configuration of the library under simulation.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <memory>
#include <string>

#include "plan.hh"

namespace sim {

// ---- results, in memory shared with the parent -----------------------------------------------
enum Ctr
{
  c_ops, c_callbacks, c_discarded, c_rehash, c_hits, c_misses, c_filtered,
  f_throw_armed, f_throw_fired, f_alloc_armed, f_alloc_fired, f_reset, f_reset_nested,
  f_reentry, f_stream, f_stream_fired, f_top, f_gen_abandon, f_gen_switch, f_init_refused, f_init_failed,
  f_restart, f_drop, f_reuse, c_decodes, c_eqpairs, c_paths, c_quiesce, c_lru, c_rebuild,
  c_allocs, c_retry_ok, c_nontrivial, c_hier, c_budget, ctr_count
};
extern const char* const ctr_names[];

struct Result
{
  int status;                 // 0 running, 1 ok, 2 violation
  char tag[32];
  char msg[3000];
  std::uint64_t evhash;
  std::uint64_t steps;
  std::uint64_t ctr[ctr_count];
  std::uint32_t nstates;
  std::uint64_t states[256];
};
extern Result* g_res;
extern bool g_verbose;

[[noreturn]] void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_run();                   // end the run quietly
void ev(std::uint64_t);                           // add to the event log hash
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void hit(Ctr c, std::uint64_t n = 1) { g_res->ctr[c] += n; }

// ---- the runner's view ----------------------------------------------------------------------
struct IWorld
{
  virtual ~IWorld() {}
  virtual void start() = 0;                // initialise the library
  virtual bool try_start() = 0;            // same; false if refused
  virtual void exec(const Op&) = 0;
  virtual void check_all(const char* when) = 0;
  virtual void finish() = 0;               // drop everything and stop
  virtual bool up() const = 0;
  virtual int kind() const = 0;
  virtual std::uint64_t state_hash() = 0;
  virtual void tally() = 0;                // add the library's own counters to the result
};

struct Runner
{
  const RunConf& rc;
  std::vector<std::unique_ptr<IWorld>> worlds;
  std::size_t next = 0;
  unsigned depth = 0;

  explicit Runner(const RunConf& r) : rc(r) {}
  void run();
  void run_next_nested();                  // called from a callback
  void step(std::size_t i);
  void check_all(const char* when);
  unsigned up_count() const;
  void check_no_leak(const char* when);    // only meaningful when every world is down
};

std::unique_ptr<IWorld> make_world_b(Runner&, const WorldConf&);
std::unique_ptr<IWorld> make_world_f(Runner&, const WorldConf&);
std::unique_ptr<IWorld> make_world_u(Runner&, const WorldConf&);
std::unique_ptr<IWorld> make_world_w(Runner&, const WorldConf&);
std::unique_ptr<IWorld> make_world_s(Runner&, const WorldConf&);

} // namespace sim
