#include "plan.hh"

#include <cstring>
#include <istream>
#include <ostream>
#include <sstream>

namespace sim {

const char* const kind_names[] =
{
  "MkRand", "MkCube", "MkNode", "Union", "Inter", "Diff", "NSum", "NInter", "InPlace",
  "Copy", "Move", "Swap", "Assign", "SelfAssign", "AssignSub", "TakeSub", "Drop", "DropMany", "Recheck",
  "MkHom", "Apply", "ApplyCons", "Repeat", "Rewrite", "HomDrop", "HomAssign", "HomRebuild", "HomRegroup",
  "GenNew", "GenStep", "GenDrop",
  "Count", "CountBig", "Observe", "Bad", "BadDeep", "ResetHom", "Lru", "Quiesce",
  "VMk", "VIns", "VErase", "VBin", "VCopy", "VAssign", "VDrop", "VQuery",
  "Init2", "Restart", "FailInit", "Churn", "BadArg", "Ord", "Wide", "Crowd", "Force", "Storm"
};
static_assert(sizeof(kind_names) / sizeof(*kind_names) == static_cast<unsigned>(K::COUNT_), "names");

namespace {

struct WK { K k; unsigned w; };

struct Profile
{
  const char* id;
  unsigned oracles;
  std::vector<WK> main;        // what the property is about
  std::vector<WK> side;        // the disturbances
  unsigned throw_pm;           // per-mille of steps with a throwing callback armed
  unsigned alloc_pm;           // per-mille of steps with a failing allocation armed
  unsigned re_pm;              // per-mille of steps with the next step nested in a callback
  unsigned worlds;             // 1: one; 2: sometimes several
  bool callbacks;              // throws only make sense on steps with callbacks
};

const std::vector<WK> set_ops = {{K::MkRand, 10}, {K::MkCube, 3}, {K::MkNode, 4}, {K::Union, 14}, {K::Inter, 12}, {K::Diff, 12}, {K::NSum, 8}, {K::NInter, 6}, {K::InPlace, 5}};
const std::vector<WK> handle_ops = {{K::Copy, 4}, {K::Move, 4}, {K::Swap, 3}, {K::Assign, 5}, {K::SelfAssign, 3}, {K::AssignSub, 4}, {K::TakeSub, 4}, {K::Drop, 6}, {K::DropMany, 1}};
const std::vector<WK> hom_ops = {{K::MkHom, 8}, {K::Apply, 20}, {K::ApplyCons, 4}, {K::Repeat, 3}, {K::Rewrite, 3}, {K::HomDrop, 3}, {K::HomAssign, 2}, {K::HomRebuild, 2}, {K::HomRegroup, 2}};
const std::vector<WK> gen_ops = {{K::GenNew, 6}, {K::GenStep, 20}, {K::GenDrop, 2}};
const std::vector<WK> val_ops = {{K::VMk, 8}, {K::VIns, 8}, {K::VErase, 6}, {K::VBin, 12}, {K::VCopy, 3}, {K::VAssign, 4}, {K::VDrop, 5}, {K::VQuery, 6}};

std::vector<WK> operator+(std::vector<WK> a, const std::vector<WK>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
std::vector<WK> operator*(std::vector<WK> a, unsigned n) { for (auto& x : a) x.w *= n; return a; }

const std::vector<WK> misc = {{K::Count, 2}, {K::Observe, 2}, {K::ResetHom, 2}, {K::Churn, 1}, {K::Recheck, 1}, {K::Storm, 1}};

const std::vector<Profile>& table()
{
  static const std::vector<Profile> t =
  {
    {"C01", 0, set_ops * 3 + std::vector<WK>{{K::Wide, 1}}, handle_ops + hom_ops + misc + gen_ops, 0, 0, 0, 2, true},
    {"C02", o_eq | o_rebuild, set_ops * 2 + std::vector<WK>{{K::Wide, 1}}, handle_ops * 2 + hom_ops + misc, 0, 0, 0, 2, true},
    {"C03", o_eq | o_hash, handle_ops * 3 + std::vector<WK>{{K::Crowd, 1}}, set_ops + hom_ops + misc + gen_ops, 0, 0, 0, 2, true},
    {"C04", o_leak, set_ops + hom_ops + std::vector<WK>{{K::Quiesce, 4}, {K::Drop, 8}, {K::DropMany, 4}},
            handle_ops + gen_ops + misc + val_ops + std::vector<WK>{{K::Bad, 2}, {K::BadDeep, 1}}, 25, 0, 0, 1, true},
    {"C05", 0, hom_ops * 3, set_ops + handle_ops + misc, 0, 0, 0, 2, true},
    {"C06", 0, std::vector<WK>{{K::MkHom, 20}, {K::Rewrite, 20}, {K::Apply, 40}, {K::MkRand, 10}, {K::HomDrop, 4}}, set_ops + handle_ops + misc, 0, 0, 0, 1, true},
    {"C07", o_leak, hom_ops * 3 + std::vector<WK>{{K::MkCube, 25}}, set_ops + handle_ops + misc + gen_ops, 350, 0, 0, 1, true},
    {"C08", o_leak, std::vector<WK>{{K::Bad, 50}, {K::BadDeep, 30}, {K::BadArg, 8}}, set_ops + handle_ops + hom_ops + misc, 0, 0, 0, 1, true},
    {"C09", 0, gen_ops * 4 + std::vector<WK>{{K::Wide, 1}}, set_ops + handle_ops + hom_ops + misc, 0, 0, 0, 2, true},
    {"C10", 0, std::vector<WK>{{K::Count, 40}, {K::CountBig, 15}, {K::Wide, 1}}, set_ops + handle_ops + hom_ops, 0, 0, 0, 1, true},
    {"C11", o_stats, std::vector<WK>{{K::Lru, 30}, {K::Repeat, 20}, {K::ResetHom, 4}}, set_ops + hom_ops + handle_ops + std::vector<WK>{{K::Storm, 1}}, 60, 0, 0, 1, true},
    {"C12", o_leak | o_resetsize, std::vector<WK>{{K::ResetHom, 45}, {K::Apply, 40}, {K::MkHom, 10}, {K::Repeat, 8}, {K::Quiesce, 1}}, set_ops + handle_ops + hom_ops + gen_ops, 40, 0, 60, 1, true},
    {"C13", o_leak, set_ops + hom_ops + val_ops + std::vector<WK>{{K::GenNew, 4}, {K::GenStep, 8}, {K::Count, 4}, {K::Observe, 4}, {K::Churn, 4}, {K::FailInit, 2}, {K::Bad, 3}}, handle_ops, 0, 450, 0, 1, false},
    {"C14", o_leak, std::vector<WK>{{K::Init2, 12}, {K::Restart, 8}, {K::FailInit, 8}}, set_ops + hom_ops + handle_ops + val_ops, 0, 0, 0, 3, true},
    {"C15", 0, std::vector<WK>{{K::Apply, 60}, {K::ApplyCons, 6}, {K::MkCube, 14}, {K::MkHom, 14}}, set_ops * 2 + handle_ops + hom_ops + gen_ops + misc, 20, 0, 500, 2, true},
    {"C16", o_eq, std::vector<WK>{{K::MkHom, 20}, {K::HomRebuild, 40}, {K::HomRegroup, 40}, {K::ApplyCons, 12}, {K::HomDrop, 10}, {K::HomAssign, 6}, {K::Apply, 10}, {K::Rewrite, 4}}, set_ops + handle_ops + misc, 0, 0, 0, 1, true},
    {"C17", 0, std::vector<WK>{{K::Observe, 60}}, set_ops + handle_ops + hom_ops + misc, 0, 0, 0, 1, true},
    {"C18", o_leak, val_ops * 4 + std::vector<WK>{{K::Crowd, 1}}, set_ops + handle_ops + hom_ops + std::vector<WK>{{K::Quiesce, 1}}, 0, 0, 0, 1, true},
    {"C19", o_leak, std::vector<WK>{{K::Ord, 80}}, set_ops + hom_ops + handle_ops, 0, 300, 0, 1, false},
    {"C20", o_leak, std::vector<WK>{{K::Force, 80}}, set_ops + hom_ops + handle_ops, 0, 300, 0, 1, false},
    {"ALL", o_eq | o_rebuild | o_hash | o_leak | o_stats | o_resetsize,
            set_ops + hom_ops + gen_ops, handle_ops + misc + val_ops + std::vector<WK>{{K::Bad, 2}, {K::BadDeep, 2}, {K::BadArg, 1}, {K::CountBig, 1}, {K::Lru, 1}, {K::Quiesce, 1}, {K::Init2, 1}, {K::Restart, 1}, {K::Ord, 1}, {K::Wide, 1}, {K::Crowd, 1}, {K::Force, 1}}, 40, 0, 40, 2, true},
  };
  return t;
}

bool has_callbacks(K k)
{
  switch (k)
  {
    case K::Apply: case K::ApplyCons: case K::MkCube: case K::Repeat: return true;
    default: return false;
  }
}
bool may_alloc_fail(K k)
{
  switch (k)
  {
    case K::Copy: case K::Move: case K::Swap: case K::Assign: case K::SelfAssign: case K::AssignSub: case K::TakeSub:
    case K::Drop: case K::DropMany: case K::Recheck: case K::HomDrop: case K::HomAssign: case K::GenDrop:
    case K::Quiesce: case K::Restart: case K::FailInit: case K::Init2: case K::ResetHom: case K::Lru: case K::VDrop: case K::VCopy: case K::VAssign: case K::Crowd: case K::Storm: return false;
    default: return true;
  }
}

} // namespace

std::vector<std::string> profiles()
{
  std::vector<std::string> r;
  for (auto& p : table()) r.push_back(p.id);
  return r;
}

RunConf generate(const std::string& profile, std::uint64_t seed)
{
  const Profile* p = nullptr;
  for (auto& x : table()) if (profile == x.id) p = &x;
  RunConf rc;
  if (not p) return rc;
  std::uint64_t ps = 0;
  for (char ch : profile) ps = mix(ps, ch);
  Rng r(mix(ps, seed));
  rc.profile = profile;
  rc.seed = seed;
  rc.oracles = p->oracles;

  // swarm: each run switches a random part of the environment on
  rc.heap.seed = r.next();
  rc.heap.reuse = r.below(5);
  rc.heap.layout = r.below(3);
  rc.heap.pages = r.below(3);
  rc.heap.fill = r.below(4);
  { static const unsigned ce[] = {4, 8, 16, 32}; rc.check_every = r.pick(ce); }
  { static const unsigned sl[] = {4, 6, 10, 16, 24}; rc.slots = r.pick(sl); }

  unsigned nw = 1;
  if (p->worlds == 2 and r.chance(1, 5)) nw = 2;
  if (p->worlds == 3) nw = r.range(1, 3);
  bool used[5] = {false, false, false, false, false};
  for (unsigned i = 0; i < nw; ++i)
  {
    WorldConf w;
    for (unsigned tries = 0;; ++tries)
    {
      static const unsigned kinds[] = {0, 0, 1, 1, 1, 2, 2, 3, 4};
      w.kind = r.pick(kinds);
      if (profile == "C18" and (w.kind == 0 or w.kind == 3) and r.chance(2, 3)) w.kind = r.chance(1, 3) ? 4 : 1 + r.below(2);
      bool shared = false;
      for (unsigned k = 0; k < 5; ++k) shared = shared or (used[k] and share_values(k, w.kind));
      if ((used[w.kind] or (p->worlds != 3 and shared)) and tries < 20) continue;
      break;
    }
    if (used[w.kind]) break;
    used[w.kind] = true;
    static const unsigned Ds[] = {2, 2, 3, 3, 4, 5, 8, 16};
    w.D = r.pick(Ds);
    unsigned maxn = w.D == 2 ? 10 : w.D == 3 ? 6 : w.D <= 5 ? 4 : w.D == 8 ? 3 : 2;
    unsigned nr = r.range(1, 3);
    bool flat_only = r.chance(1, 5);
    for (unsigned k = 0; k < nr; ++k)
    {
      unsigned n = r.range(1, maxn);
      if (n < 3 and maxn >= 3 and r.chance(2, 3)) n = r.range(3, maxn);
      w.roots.push_back(n << 16 | (flat_only ? 0 : r.chance(1, 6) ? r.range(3, 5) : r.below(3)));
    }
    w.root_seed = r.next();
    static const std::uint64_t cs[] = {0, 1, 2, 2, 3, 4, 4, 8, 8, 16, 64, 1024};
    unsigned cmode = r.below(4);
    auto cache = [&]() -> std::uint64_t { return cmode == 0 ? 1024 : cmode == 1 ? (r.chance(1, 2) ? 2 : 4) : r.pick(cs); };
    w.diff = cache(); w.inter = cache(); w.sum = cache(); w.hom = cache();
    if ((profile == "C04" or profile == "C18" or profile == "C12" or profile == "ALL"))
    {
      for (auto q : {&w.diff, &w.inter, &w.sum}) if (*q > 64) *q = 64;
    }
    static const std::uint64_t us[] = {0, 1, 1, 2, 4, 16, 1000};
    w.sdd_ut = r.pick(us); w.hom_ut = r.pick(us); w.val_ut = r.pick(us);
    static const std::uint64_t as[] = {0, 1, 16, 64, 128, 256, 512, 1024, 4096, 65536};
    w.arena = r.pick(as);
    w.weak_hash = r.chance(1, 4);
    rc.worlds.push_back(w);
  }

  // weights of this run
  struct Cum { K k; unsigned w; };
  std::vector<Cum> cum;
  unsigned total = 0;
  auto add = [&](const std::vector<WK>& v, unsigned mul, bool swarm)
  {
    for (auto& x : v)
    {
      unsigned w = x.w * mul;
      if (swarm) { auto m = r.below(4); w = m == 0 ? 0 : m == 1 ? w / 2 : m == 2 ? w : w * 2; }
      if (w) { total += w; cum.push_back({x.k, total}); }
    }
  };
  add(p->main, 3, false);
  add(p->side, 1, true);
  // histories with failures in them: what holds must hold after them, too
  unsigned throw_pm = p->throw_pm, alloc_pm = p->alloc_pm, re_pm = p->re_pm;
  if (r.chance(1, 4))
  {
    if (r.chance(1, 2)) { total += total / 40 + 1; cum.push_back({K::Bad, total}); total += total / 60 + 1; cum.push_back({K::BadDeep, total}); }
    if (not throw_pm and r.chance(1, 2)) throw_pm = 60;
    if (not re_pm and r.chance(1, 3)) re_pm = 60;
    if (not alloc_pm and r.chance(1, 2)) alloc_pm = 40;
  }
  // there must be something to work on
  total += total / 12 + 1; cum.push_back({K::MkRand, total});

  unsigned n = r.range(40, 160);
  { unsigned m = r.below(8); if (m == 0) n = r.range(5, 30); if (m == 1) n = r.range(160, 320); }
  auto mk = [&](K k)
  {
    Op o;
    o.k = k;
    o.w = rc.worlds.size() > 1 ? r.below(rc.worlds.size()) : 0;
    o.a = r.next() & 0x7fffffff; o.b = r.next() & 0x7fffffff; o.c = r.next() & 0x7fffffff; o.d = r.next() & 0x7fffffff;
    return o;
  };
  // a few sets and operations to begin with
  for (unsigned w = 0; w < rc.worlds.size(); ++w)
  {
    for (unsigned i = 0; i < 3; ++i) { auto o = mk(K::MkRand); o.w = w; rc.ops.push_back(o); }
    for (unsigned i = 0; i < 3; ++i) { auto o = mk(K::MkHom); o.w = w; rc.ops.push_back(o); }
  }
  for (unsigned i = 0; i < n; ++i)
  {
    auto x = r.below(total);
    K k = K::Recheck;
    for (auto& q : cum) if (x < q.w) { k = q.k; break; }
    Op o = mk(k);
    if (throw_pm and has_callbacks(k) and r.below(1000) < throw_pm)
    {
      o.f = Fault::Throw;
      unsigned e = r.below(6);
      o.fn = r.range(1, 1u << e);
      o.fb = r.below(4);
    }
    else if (alloc_pm and may_alloc_fail(k) and r.below(1000) < alloc_pm)
    {
      o.f = Fault::Alloc;
      unsigned e = r.below(9);
      o.fn = r.range(1, 1u << e);
      o.fb = r.chance(1, 6) ? r.range(2, 5) : 1;
    }
    if (re_pm and has_callbacks(k) and r.below(1000) < re_pm) o.re = r.range(1, 1u << r.below(5));
    rc.ops.push_back(o);
  }
  return rc;
}

void write_plan(std::ostream& os, const RunConf& rc)
{
  os << "plan 1\nprofile " << rc.profile << "\nseed " << rc.seed << "\ncheck_every " << rc.check_every
     << "\noracles " << rc.oracles << "\nslots " << rc.slots
     << "\nheap " << rc.heap.seed << ' ' << rc.heap.reuse << ' ' << rc.heap.layout << ' ' << rc.heap.pages << ' ' << rc.heap.fill << '\n';
  for (auto& w : rc.worlds)
  {
    os << "world " << w.kind << ' ' << w.D << ' ' << w.root_seed << ' ' << w.sdd_ut << ' ' << w.diff << ' ' << w.inter << ' '
       << w.sum << ' ' << w.arena << ' ' << w.hom_ut << ' ' << w.hom << ' ' << w.val_ut << ' ' << w.weak_hash << ' ' << w.roots.size();
    for (auto x : w.roots) os << ' ' << x;
    os << '\n';
  }
  for (auto& o : rc.ops)
    os << "op " << kind_names[static_cast<int>(o.k)] << ' ' << o.w << ' ' << o.a << ' ' << o.b << ' ' << o.c << ' ' << o.d << ' '
       << static_cast<int>(o.f) << ' ' << o.fn << ' ' << o.fb << ' ' << o.re << '\n';
  os << "end\n";
}

bool read_plan(std::istream& is, RunConf& rc)
{
  std::string line, t;
  while (std::getline(is, line))
  {
    if (line.empty() or line[0] == '#') continue;
    std::istringstream ls(line);
    ls >> t;
    if (t == "profile") ls >> rc.profile;
    else if (t == "seed") ls >> rc.seed;
    else if (t == "check_every") ls >> rc.check_every;
    else if (t == "oracles") ls >> rc.oracles;
    else if (t == "slots") ls >> rc.slots;
    else if (t == "heap") ls >> rc.heap.seed >> rc.heap.reuse >> rc.heap.layout >> rc.heap.pages >> rc.heap.fill;
    else if (t == "world")
    {
      WorldConf w; std::size_t n = 0;
      ls >> w.kind >> w.D >> w.root_seed >> w.sdd_ut >> w.diff >> w.inter >> w.sum >> w.arena >> w.hom_ut >> w.hom >> w.val_ut >> w.weak_hash >> n;
      for (std::size_t i = 0; i < n; ++i) { unsigned x; ls >> x; w.roots.push_back(x); }
      rc.worlds.push_back(w);
    }
    else if (t == "op")
    {
      Op o; std::string k; int f;
      ls >> k >> o.w >> o.a >> o.b >> o.c >> o.d >> f >> o.fn >> o.fb >> o.re;
      if (not ls) return false;
      bool ok = false;
      for (unsigned i = 0; i < static_cast<unsigned>(K::COUNT_); ++i) if (k == kind_names[i]) { o.k = static_cast<K>(i); ok = true; }
      if (not ok) return false;
      o.f = static_cast<Fault>(f);
      rc.ops.push_back(o);
    }
    else if (t == "end") return true;
    else if (t != "plan") return false;
  }
  return false;
}

} // namespace sim
