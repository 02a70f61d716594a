// A run is a configuration plus an explicit list of steps, both derived from one seed. The same
// text form is the replay file.
#pragma once
#include <cstdint>
#include <iosfwd>
#include <string>
#include <vector>

#include "alloc.hh"
#include "rng.hh"

namespace sim {

enum class K : std::uint8_t
{
  MkRand, MkCube, MkNode, Union, Inter, Diff, NSum, NInter, InPlace,
  Copy, Move, Swap, Assign, SelfAssign, AssignSub, TakeSub, Drop, DropMany, Recheck,
  MkHom, Apply, ApplyCons, Repeat, Rewrite, HomDrop, HomAssign, HomRebuild, HomRegroup,
  GenNew, GenStep, GenDrop,
  Count, CountBig, Observe, Bad, BadDeep, ResetHom, Lru, Quiesce,
  VMk, VIns, VErase, VBin, VCopy, VAssign, VDrop, VQuery,
  Init2, Restart, FailInit, Churn, BadArg, Ord, Wide, Crowd, Force, Storm,
  COUNT_
};
extern const char* const kind_names[];

enum class Fault : std::uint8_t { None, Throw, Alloc };

struct Op
{
  K k = K::Recheck;
  unsigned w = 0;                    // which world (configuration of the library)
  std::uint32_t a = 0, b = 0, c = 0, d = 0;
  Fault f = Fault::None;
  std::uint32_t fn = 0, fb = 1;      // fault position (call or allocation index), kind or burst
  std::uint32_t re = 0;              // run the next step inside the re-th callback of this one
};

struct WorldConf
{
  // 0 bitset/string ids, 1 flat_set/string ids, 2 flat_set/unsigned ids, 3 bitset of 130/unsigned ids, 4 flat_set of strings/string ids
  unsigned kind = 0;
  unsigned D = 3;                    // values per variable
  std::vector<unsigned> roots;       // layouts: (number of variables << 16) | depth of nesting
  std::uint64_t root_seed = 1;
  std::uint64_t sdd_ut = 1000, diff = 64, inter = 64, sum = 64, arena = 4096, hom_ut = 64, hom = 64, val_ut = 16;
  unsigned weak_hash = 0;            // user objects all hash alike
};

// Configurations which store their sets of values in the same table cannot be up together.
inline bool share_values(int a, int b) { return (a == 1 and b == 2) or (a == 2 and b == 1); }

// Which oracles a profile turns on (results and outcomes are always judged).
enum : unsigned
{
  o_eq = 1,        // equal handles <=> equal sets, over all pairs
  o_rebuild = 2,   // a result compares equal to an independent construction of its set
  o_hash = 4,      // the hash of a held handle does not change
  o_leak = 8,      // nothing is left when the manager is gone
  o_stats = 16,    // cache statistics balance
  o_resetsize = 32 // a cleared cache is empty
};

struct RunConf
{
  std::string profile;
  std::uint64_t seed = 0;
  unsigned check_every = 8;          // re-examination of all handles every n steps
  unsigned oracles = 0;
  unsigned slots = 12;
  HeapConf heap;
  std::vector<WorldConf> worlds;
  std::vector<Op> ops;
};

RunConf generate(const std::string& profile, std::uint64_t seed);
void write_plan(std::ostream&, const RunConf&);
bool read_plan(std::istream&, RunConf&);
std::vector<std::string> profiles();

} // namespace sim
