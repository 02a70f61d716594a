// Runs, replays and minimises simulated executions.
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "alloc.hh"
#include "plan.hh"
#include "world.hh"

namespace sim {

const char* const ctr_names[] =
{
  "steps", "callbacks", "cache_evictions", "table_growths", "cache_hits", "cache_misses", "cache_filtered",
  "callback_failure_armed", "callback_failure_injected", "allocation_failure_armed", "allocation_failure_injected", "cache_clear", "cache_clear_inside_callback",
  "reentrant_request", "stream_failure_armed", "stream_failure_injected", "incompatible_request", "enumeration_abandoned", "enumeration_interleaved", "init_refused", "init_failed",
  "restart", "handle_dropped", "address_reused", "decodes", "equality_pairs", "paths", "quiescence_checks", "cache_retention_checks", "independent_rebuilds",
  "allocations", "retries_ok", "nontrivial_results", "hierarchical_results", "budget_stops"
};
static_assert(sizeof(ctr_names) / sizeof(*ctr_names) == ctr_count, "names");

Result* g_res;
bool g_verbose = false;

void done(int status)
{
  g_res->ctr[c_allocs] += heap_allocs();
  g_res->ctr[f_reuse] += heap_reused();
  g_res->status = status;
  _exit(0);
}

void fail(const char* tag, const char* fmt, ...)
{
  g_lib = 0;
  heap_disarm();
  std::snprintf(g_res->tag, sizeof g_res->tag, "%s", tag);
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
  va_end(ap);
  if (g_verbose) std::fprintf(stderr, "FAIL [%s] %s\n", g_res->tag, g_res->msg);
  done(2);
  std::abort();
}
void finish_run() { done(1); std::abort(); }
void heap_misuse(const char* what, const void*) { fail("memory", "heap misuse by the library: %s", what); }
void ev(std::uint64_t x) { g_res->evhash = mix(g_res->evhash, x); }
void logf(const char* fmt, ...)
{
  if (not g_verbose) return;
  const int l = g_lib;
  g_lib = 0;
  va_list ap;
  va_start(ap, fmt);
  std::vfprintf(stderr, fmt, ap);
  va_end(ap);
  std::fputc('\n', stderr);
  g_lib = l;
}

// ---- runner -----------------------------------------------------------------------------------
unsigned Runner::up_count() const { unsigned n = 0; for (auto& w : worlds) n += w->up(); return n; }

void Runner::check_all(const char* when)
{
  for (auto& w : worlds) w->check_all(when);
}

void Runner::check_no_leak(const char* when)
{
  if (up_count() or not (rc.oracles & o_leak)) return;
  if (heap_live_blocks() == 0) return;
  Leak l[8];
  auto n = heap_live_list(0, l, 8);
  std::string s;
  for (std::size_t i = 0; i < n and i < 8; ++i) s += " #" + std::to_string(l[i].serial) + ":" + std::to_string(l[i].size);
  fail("leak", "%s: %llu blocks (%llu bytes) obtained by the library are never returned:%s", when,
       static_cast<unsigned long long>(heap_live_blocks()), static_cast<unsigned long long>(heap_live_bytes()), s.c_str());
}

void Runner::step(std::size_t i)
{
  const Op& o = rc.ops[i];
  if (o.w >= worlds.size()) return;
  if (g_verbose)
    logf("%*s%zu: w%u %s a=%u b=%u c=%u d=%u%s", depth * 2, "", i, o.w, kind_names[static_cast<int>(o.k)], o.a, o.b, o.c, o.d,
         o.f == Fault::Throw ? (" throw@" + std::to_string(o.fn)).c_str() : o.f == Fault::Alloc ? (" allocfail@" + std::to_string(o.fn)).c_str() : "");
  ev(i * 64 + static_cast<int>(o.k) + depth * 0x10000);
  worlds[o.w]->exec(o);
  ++g_res->steps;
  std::uint64_t h = 0;
  for (auto& w : worlds) h = mix(h, w->state_hash());
  ev(h);
  if (g_res->nstates < sizeof(g_res->states) / sizeof(*g_res->states)) g_res->states[g_res->nstates++] = h;
}

void Runner::run_next_nested()
{
  if (depth >= 3 or next >= rc.ops.size()) return;
  hit(f_reentry);
  ++depth;
  step(next++);
  --depth;
}

void Runner::run()
{
  for (auto& w : rc.worlds)
    worlds.push_back(w.kind == 0 ? make_world_b(*this, w) : w.kind == 1 ? make_world_f(*this, w) : w.kind == 2 ? make_world_u(*this, w) : w.kind == 3 ? make_world_w(*this, w) : make_world_s(*this, w));
  for (auto& w : worlds)
  {
    bool conflict = false;
    for (auto& v : worlds) if (v->up() and share_values(v->kind(), w->kind())) conflict = true;
    if (not conflict) w->start();
  }
  unsigned since = 0;
  while (next < rc.ops.size())
  {
    step(next++);
    if (++since >= rc.check_every) { since = 0; check_all("periodic re-examination"); }
  }
  check_all("at the end");
  for (auto& w : worlds) w->finish();
  check_no_leak("after everything is dropped and stopped");
}

} // namespace sim

using namespace sim;

namespace {

int err_fd = -1;

// Run one plan in a child process. Returns its outcome in *g_res.
void run_child(const RunConf& rc, unsigned cpu)
{
  std::memset(g_res, 0, sizeof *g_res);
  if (ftruncate(err_fd, 0)) {}
  lseek(err_fd, 0, SEEK_SET);
  std::fflush(stdout);
  std::fflush(stderr);
  pid_t pid = fork();
  if (pid == 0)
  {
    struct rlimit rl{cpu, cpu + 2};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc0{0, 0};
    setrlimit(RLIMIT_CORE, &rc0);
    if (not g_verbose) dup2(err_fd, 2);
    heap_init(rc.heap);
    {
      Runner r(rc);
      r.run();
    }
    done(1);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 and errno == EINTR) {}
  if (g_res->status == 0)
  {
    g_res->status = 2;
    char buf[1500] = "";
    if (not g_verbose)
    {
      auto n = pread(err_fd, buf, sizeof buf - 1, 0);
      buf[n > 0 ? n : 0] = 0;
      for (char* q = buf; *q; ++q) if (*q == '\n') *q = ' ';
    }
    if (WIFSIGNALED(st) and WTERMSIG(st) == SIGXCPU) { std::strcpy(g_res->tag, "hang"); std::snprintf(g_res->msg, sizeof g_res->msg, "the run does not end within %u s of processor time", cpu); }
    else if (WIFSIGNALED(st)) { std::strcpy(g_res->tag, "crash"); std::snprintf(g_res->msg, sizeof g_res->msg, "the process is ended by signal %d: %s", WTERMSIG(st), buf); }
    else { std::strcpy(g_res->tag, "crash"); std::snprintf(g_res->msg, sizeof g_res->msg, "the process ends with status %d: %s", WEXITSTATUS(st), buf); }
  }
}

std::string esc(const char* s)
{
  std::string r;
  for (; *s; ++s)
  {
    if (*s == '"' or *s == '\\') { r += '\\'; r += *s; }
    else if (static_cast<unsigned char>(*s) < 32) r += ' ';
    else r += *s;
  }
  return r;
}

void print_result(const RunConf& rc)
{
  std::printf("{\"type\":\"run\",\"profile\":\"%s\",\"seed\":%llu,\"status\":%d,\"tag\":\"%s\",\"msg\":\"%s\",\"evhash\":\"%016llx\",\"steps\":%llu}\n", rc.profile.c_str(),
              static_cast<unsigned long long>(rc.seed), g_res->status, g_res->tag, esc(g_res->msg).c_str(), static_cast<unsigned long long>(g_res->evhash), static_cast<unsigned long long>(g_res->steps));
  std::fflush(stdout);
}

// Does this plan still fail with the same kind of violation?
bool still(const RunConf& rc, const std::string& tag, unsigned cpu) { run_child(rc, cpu); return g_res->status == 2 and tag == g_res->tag; }

RunConf minimise(RunConf rc, const std::string& tag, unsigned cpu, double budget)
{
  auto t0 = std::chrono::steady_clock::now();
  auto out = [&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
  // delta debugging over the steps
  for (std::size_t chunk = rc.ops.size(); chunk >= 1; chunk /= 2)
  {
    for (bool again = true; again and not out(); )
    {
      again = false;
      for (std::size_t i = rc.ops.size(); i > 0 and not out(); )
      {
        std::size_t b = i > chunk ? i - chunk : 0;
        RunConf q = rc;
        q.ops.erase(q.ops.begin() + b, q.ops.begin() + i);
        if (not q.ops.empty() and still(q, tag, cpu)) { rc = q; again = chunk == 1; }
        i = b;
      }
    }
  }
  // remove faults and nesting
  for (std::size_t i = 0; i < rc.ops.size() and not out(); ++i)
  {
    if (rc.ops[i].f != Fault::None) { RunConf q = rc; q.ops[i].f = Fault::None; q.ops[i].fn = 0; q.ops[i].fb = 1; if (still(q, tag, cpu)) rc = q; }
    if (rc.ops[i].re) { RunConf q = rc; q.ops[i].re = 0; if (still(q, tag, cpu)) rc = q; }
  }
  // simplify the environment
  { RunConf q = rc; q.heap = HeapConf(); q.heap.seed = rc.heap.seed; if (not out() and still(q, tag, cpu)) rc = q; }
  for (std::size_t w = 0; w < rc.worlds.size() and not out(); ++w)
  {
    { RunConf q = rc; q.worlds[w].weak_hash = 0; if (still(q, tag, cpu)) rc = q; }
    { RunConf q = rc; q.worlds[w].sdd_ut = q.worlds[w].hom_ut = q.worlds[w].val_ut = 1000; q.worlds[w].arena = 65536; if (still(q, tag, cpu)) rc = q; }
    { RunConf q = rc; q.worlds[w].diff = q.worlds[w].inter = q.worlds[w].sum = q.worlds[w].hom = 1024; if (still(q, tag, cpu)) rc = q; }
  }
  return rc;
}

} // namespace

int main(int argc, char** argv)
{
  g_res = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  err_fd = memfd_create("sim-stderr", 0);
  const std::string mode = argc > 1 ? argv[1] : "";
  const unsigned cpu = std::getenv("SIM_CPU") ? std::atoi(std::getenv("SIM_CPU")) : 30;
  if (mode == "profiles") { for (auto& p : profiles()) std::puts(p.c_str()); return 0; }
  if (mode == "gen" and argc > 3)
  {
    write_plan(std::cout, generate(argv[2], std::strtoull(argv[3], nullptr, 10)));
    return 0;
  }
  if ((mode == "replay" or mode == "show") and argc > 2)
  {
    RunConf rc;
    std::ifstream f(argv[2]);
    if (not read_plan(f, rc)) { std::fprintf(stderr, "bad plan\n"); return 2; }
    g_verbose = mode == "show";
    run_child(rc, cpu);
    print_result(rc);
    return g_res->status == 1 ? 0 : 1;
  }
  if (mode == "run" and argc > 3)
  {
    RunConf rc = generate(argv[2], std::strtoull(argv[3], nullptr, 10));
    g_verbose = true;
    run_child(rc, cpu);
    print_result(rc);
    return g_res->status == 1 ? 0 : 1;
  }
  if (mode == "minimise" and argc > 4)
  {
    RunConf rc;
    std::ifstream f(argv[2]);
    if (not read_plan(f, rc)) { std::fprintf(stderr, "bad plan\n"); return 2; }
    run_child(rc, cpu);
    if (g_res->status != 2) return 2;
    std::string tag = g_res->tag;
    rc = minimise(rc, tag, tag == "hang" ? 3 : cpu, std::atof(argv[4]));
    std::ofstream o(argv[3]);
    write_plan(o, rc);
    o.close();
    run_child(rc, cpu);
    print_result(rc);
    return 0;
  }
  if (mode == "batch" and argc > 5)
  {
    // batch PROFILE FIRST STRIDE COUNT [SECONDS [MAXFAIL]]
    const std::string prof = argv[2];
    const std::uint64_t first = std::strtoull(argv[3], nullptr, 10), stride = std::strtoull(argv[4], nullptr, 10), count = std::strtoull(argv[5], nullptr, 10);
    const double secs = argc > 6 ? std::atof(argv[6]) : 1e9;
    const unsigned maxfail = argc > 7 ? std::atoi(argv[7]) : 3;
    auto t0 = std::chrono::steady_clock::now();
    std::uint64_t total[ctr_count] = {}, runs = 0, steps = 0, nondet = 0, detchecks = 0, nontrivial = 0;
    double max_run = 0;
    std::unordered_set<std::uint64_t> states, ends;
    unsigned fails = 0;
    for (std::uint64_t i = 0; i < count; ++i)
    {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
      const std::uint64_t seed = first + i * stride;
      RunConf rc = generate(prof, seed);
      const auto r0 = std::chrono::steady_clock::now();
      run_child(rc, cpu);
      max_run = std::max(max_run, std::chrono::duration<double>(std::chrono::steady_clock::now() - r0).count());
      ++runs;
      nontrivial += g_res->ctr[c_nontrivial] > 0;
      steps += g_res->steps;
      for (unsigned k = 0; k < ctr_count; ++k) total[k] += g_res->ctr[k];
      for (unsigned k = 0; k < g_res->nstates; ++k) states.insert(g_res->states[k]);
      if (g_res->ctr[c_nontrivial] > 0) ends.insert(g_res->evhash);
      if (g_res->status == 2) { print_result(rc); if (++fails >= maxfail) break; continue; }
      if (i % 64 == 0)
      {
        const auto h = g_res->evhash;
        run_child(rc, cpu);
        ++detchecks;
        if (g_res->evhash != h) { ++nondet; std::printf("{\"type\":\"nondet\",\"profile\":\"%s\",\"seed\":%llu}\n", prof.c_str(), static_cast<unsigned long long>(seed)); }
      }
    }
    if (const char* f = std::getenv("SIM_HASHES"))
    {
      std::ofstream o(f, std::ios::binary);
      for (int pass = 0; pass < 2; ++pass)
      {
        const auto& set = pass ? ends : states;
        const std::uint64_t n = set.size();
        o.write(reinterpret_cast<const char*>(&n), 8);
        for (auto h : set) o.write(reinterpret_cast<const char*>(&h), 8);
      }
    }
    std::printf("{\"type\":\"summary\",\"profile\":\"%s\",\"runs\":%llu,\"steps\":%llu,\"seconds\":%.3f,\"longest_run_s\":%.3f,\"nontrivial_runs\":%llu,\"distinct_states\":%zu,\"distinct_executions\":%zu,\"determinism_checks\":%llu,\"nondeterministic\":%llu,\"counters\":{", prof.c_str(),
                static_cast<unsigned long long>(runs), static_cast<unsigned long long>(steps), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), max_run, static_cast<unsigned long long>(nontrivial), states.size(), ends.size(), static_cast<unsigned long long>(detchecks), static_cast<unsigned long long>(nondet));
    for (unsigned k = 0; k < ctr_count; ++k) std::printf("%s\"%s\":%llu", k ? "," : "", ctr_names[k], static_cast<unsigned long long>(total[k]));
    std::printf("}}\n");
    return fails ? 1 : 0;
  }
  std::fprintf(stderr, "usage: sim gen|run PROFILE SEED | replay|show FILE | minimise IN OUT SECONDS | batch PROFILE FIRST STRIDE COUNT [SECONDS [MAXFAIL]] | profiles\n");
  return 2;
}
