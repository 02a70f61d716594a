// One configuration of the library under simulation: real library code, driven step by step.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <fstream>
#include "sdd/sdd.hh"
#include "sdd/order/strategies/flatten.hh"
#include "sdd/order/strategies/force.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"
#include "sdd/tools/arcs.hh"
#include "sdd/tools/dot/force_hypergraph.hh"
#include "sdd/tools/dot/homomorphism.hh"
#include "sdd/tools/dot/sdd.hh"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include "sdd/tools/manager_statistics.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/serialization.hh"
#include "sdd/tools/size.hh"

#include "alloc.hh"
#include "model.hh"
#include "world.hh"

namespace sim {

// ---- what user callbacks throw ----------------------------------------------------------------
struct CbErr0 : std::runtime_error { std::uint64_t tag; explicit CbErr0(std::uint64_t t) : std::runtime_error("callback"), tag(t) {} };
struct CbErr1 : std::out_of_range { std::uint64_t tag; explicit CbErr1(std::uint64_t t) : std::out_of_range("callback"), tag(t) {} };
struct CbErr2 : std::bad_alloc { std::uint64_t tag; explicit CbErr2(std::uint64_t t) : tag(t) {} };
struct CbErr3 { std::uint64_t tag; };

// ---- sets of values -----------------------------------------------------------------------------
template <class V> struct VT;

template <std::size_t N> struct VT<sdd::values::bitset<N>>
{
  using V = sdd::values::bitset<N>;
  static constexpr bool stateful = false;
  static V mk(const std::vector<unsigned>& x, unsigned) { V v; for (auto i : x) v.insert(i); return v; }
  template <class F> static void each(const V& v, F f) { for (unsigned i = 0; i < N; ++i) if (v.test(i)) f(i); }
  static std::vector<unsigned> vmap(Rng& r, unsigned D)
  {
    std::vector<unsigned> v;
    if (r.chance(1, 3)) { for (unsigned i = 0; i < D; ++i) v.push_back(i); return v; }
    std::vector<unsigned> all;
    for (unsigned i = 0; i < N; ++i) all.push_back(i);
    r.shuffle(all);
    v.assign(all.begin(), all.begin() + D);
    if (r.chance(1, 2) and std::find(v.begin(), v.end(), N - 1) == v.end()) v[0] = N - 1;
    return v;
  }
  static unsigned rnd(Rng& r) { return r.below(N); }
  static unsigned rnd_wide(Rng& r) { return r.below(N); }
};

// Values are numbers to the simulator; the library may see something else in their place.
inline unsigned dec_value(unsigned x) { return x; }
inline unsigned dec_value(const std::string& s) { return static_cast<unsigned>(std::strtoul(s.c_str(), nullptr, 10)); }
inline void enc_value(unsigned& v, unsigned x) { v = x; }
// in the same order as the numbers, and too long to be stored in place
inline void enc_value(std::string& v, unsigned x) { char b[32]; std::snprintf(b, sizeof b, "%020u", x); v = b; }

template <class T> struct VT<sdd::values::flat_set<T>>
{
  using V = sdd::values::flat_set<T>;
  static constexpr bool stateful = true;
  static T enc(unsigned x) { T v; enc_value(v, x); return v; }
  static V mk(const std::vector<unsigned>& n, unsigned how)
  {
    std::vector<T> x;
    x.reserve(n.size());
    for (auto i : n) x.push_back(enc(i));
    switch (how % 4)
    {
      case 0: return V(x.begin(), x.end());
      case 1: { V v; for (auto& i : x) v.insert(i); return v; }
      case 2: { typename V::data_type d; d.reserve(x.size() * 2); d.insert(x.begin(), x.end()); return V(std::move(d)); }
      default:
      {
        if (x.size() == 1) return V{x[0]};
        if (x.size() == 2) return V{x[1], x[0]};
        if (x.size() == 3) return V{x[1], x[0], x[2], x[1]};
        std::vector<T> y(x.rbegin(), x.rend());
        y.insert(y.end(), x.begin(), x.end());
        return V(y.begin(), y.end());
      }
    }
  }
  template <class F> static void each(const V& v, F f) { for (auto& i : v) f(dec_value(i)); }
  static std::vector<unsigned> vmap(Rng& r, unsigned D)
  {
    std::vector<unsigned> v;
    unsigned m = r.below(3);
    if (m == 0) { for (unsigned i = 0; i < D; ++i) v.push_back(i); return v; }
    std::set<unsigned> s;
    static const unsigned sp[] = {0u, 1u, ~0u, ~0u - 1, 0x80000000u, 0x7fffffffu};
    while (s.size() < D) s.insert(m == 1 ? r.below(2 * D) : r.chance(1, 3) ? r.pick(sp) : static_cast<unsigned>(r.next()));
    v.assign(s.begin(), s.end());
    r.shuffle(v);
    return v;
  }
  static unsigned rnd_wide(Rng& r) { return r.below(2000); }
  static unsigned rnd(Rng& r)
  {
    static const unsigned sp[] = {0u, 1u, ~0u, ~0u - 1, 0x80000000u};
    return r.chance(1, 8) ? r.pick(sp) : r.below(24);
  }
};

inline std::size_t stat_size(const sdd::mem::unique_table_statistics& s) { return s.size; }
inline std::size_t stat_size(const void*) { return 0; }
inline std::size_t stat_rehash(const sdd::mem::unique_table_statistics& s) { return s.rehash; }
inline std::size_t stat_rehash(const void*) { return 0; }
inline void set_val_ut(sdd::flat_set_default_configuration& c, std::size_t n) { c.flat_set_unique_table_size = n; }
inline void set_val_ut(sdd::default_configuration&, std::size_t) {}

inline void mk_ident(std::string& s, unsigned var, unsigned uniq)
{
  s = std::to_string(var) + ":" + std::to_string(uniq);
  if (uniq % 3 == 1) s += ":a name that does not fit in the string object itself";
}
inline void mk_ident(unsigned& s, unsigned var, unsigned uniq) { s = uniq * 64 + var; }
inline unsigned ident_var(const std::string& s)
{
  unsigned v = 0;
  for (char c : s) { if (c == ':') break; v = v * 10 + (c - '0'); }
  return v;
}
inline unsigned ident_var(unsigned s) { return s % 64; }
inline std::string ident_str(const std::string& s) { return s; }
inline std::string ident_str(unsigned s) { return std::to_string(s); }

inline std::uint64_t np2(std::uint64_t n) { std::uint64_t p = 1; while (p < n) p *= 2; return p; }

// The statistics of everything can only be taken when sets of values have some.
template <class V> struct Serial { template <class C, class A> static bool manager(A&, const sdd::manager<C>&) { return false; } };
template <class T> struct Serial<sdd::values::flat_set<T>>
{
  template <class C, class A> static bool manager(A& ar, const sdd::manager<C>& m) { ar(cereal::make_nvp("manager", sdd::tools::statistics(m))); return true; }
};

// A stream buffer that fails or throws after some characters.
struct FaultyBuf : std::streambuf
{
  std::size_t left; bool thrower; bool fired = false; std::string got;
  FaultyBuf(std::size_t n, bool t) : left(n), thrower(t) {}
  bool put()
  {
    if (left == 0) { fired = true; if (thrower) throw CbErr3{0x57}; return false; }
    --left; return true;
  }
  int_type overflow(int_type c) override { return put() ? (c == traits_type::eof() ? 0 : c) : traits_type::eof(); }
  std::streamsize xsputn(const char*, std::streamsize n) override
  {
    for (std::streamsize i = 0; i < n; ++i) if (not put()) return i;
    return n;
  }
};

// ---------------------------------------------------------------------------------------------
template <class C> struct World;

// The user's objects. They own memory, so that use after destruction or double destruction shows.
template <class C> struct Payload
{
  std::vector<unsigned> p;
  explicit Payload(unsigned x) : p(3, x * 2654435761u + 1) { ++live(); }
  Payload(const Payload& o) : p(o.p) { ++live(); }
  Payload(Payload&& o) : p(std::move(o.p)) { ++live(); }
  ~Payload() { --live(); }
  Payload& operator=(const Payload&) = delete;
  static long& live() { static long n = 0; return n; }
  void check(unsigned x, const char* what) const
  {
    if (p.size() != 3 or p[0] != x * 2654435761u + 1 or p[2] != p[0]) fail("user-object", "a user %s is used after its destruction or with altered content", what);
  }
};

// Two types of functions. An object of one may have the same content as an object of the other: only
// the type tells them apart.
template <class C, int K> struct FnUser
{
  int id;
  Payload<C> p;
  explicit FnUser(int i) : id(i), p(i) {}
  FnUser(FnUser&& o) : id(o.id), p(std::move(o.p)) {}
  FnUser(const FnUser& o) : id(o.id), p(o.p) {}
  bool selector() const noexcept;
  bool shifter() const noexcept;
  typename C::Values operator()(const typename C::Values&) const;
  bool operator==(const FnUser& o) const noexcept { p.check(id, "function"); o.p.check(o.id, "function"); return id / 2 == o.id / 2; }
};

template <class C> struct IndBase
{
  int spec, state, key;    // key: the content that is compared; distinct among the objects of a type
  Payload<C> p;
  IndBase(int s, int q, int k) : spec(s), state(q), key(k), p(s * 8 + q) {}
  bool selector() const noexcept;
  sdd::homomorphism<C> operator()(const sdd::order<C>& o, const sdd::SDD<C>& x) const;
  sdd::homomorphism<C> operator()(const sdd::order<C>& o, const typename C::Values& v) const;
  sdd::SDD<C> operator()() const;
  bool operator==(const IndBase& o) const noexcept { p.check(spec * 8 + state, "inductive"); return key == o.key and state == o.state; }
};
template <class C> struct IndPlain : IndBase<C> { using IndBase<C>::IndBase; };
template <class C> struct IndSkip : IndBase<C>
{
  using IndBase<C>::IndBase;
  bool skip(const typename C::Identifier&) const noexcept;
};

} // namespace sim

namespace std {
template <class C, int K> struct hash<sim::FnUser<C, K>> { std::size_t operator()(const sim::FnUser<C, K>&) const noexcept; };
template <class C> struct hash<sim::IndPlain<C>> { std::size_t operator()(const sim::IndPlain<C>&) const noexcept; };
template <class C> struct hash<sim::IndSkip<C>> { std::size_t operator()(const sim::IndSkip<C>&) const noexcept; };
}

namespace sim {

template <class C> struct CubeInit
{
  World<C>* w;
  const std::map<typename C::Identifier, unsigned>* masks;
  typename C::Values operator()(const typename C::Identifier& id) const;
};

template <class C>
struct World final : IWorld
{
  using SDD = sdd::SDD<C>;
  using Hom = sdd::homomorphism<C>;
  using Order = sdd::order<C>;
  using OB = sdd::order_builder<C>;
  using Values = typename C::Values;
  using Ident = typename C::Identifier;
  using Manager = sdd::manager<C>;
  using Gen = sdd::path_generator<C>;

  static World*& cur() { static World* w = nullptr; return w; }

  struct Slot { SDD x; ShapeId sh; MSet m; std::size_t hash; };
  struct HSlot { Hom h; TermPtr t; unsigned rewrites; std::size_t hash; };
  struct GSlot { std::unique_ptr<Gen> g; ShapeId sh; MSet m, seen; std::uint64_t n; };
  struct VSlot { Values v; std::set<unsigned> m; };
  struct Ord { std::unique_ptr<Order> o; std::vector<Ident> level; std::vector<Ident> flat; };

  Runner& R;
  const WorldConf wc;
  Shapes S;
  std::vector<ShapeId> shapes;            // non-terminal layouts in play
  std::size_t nplain = 0;                 // the first ones have consecutive variables
  unsigned maxh = 1;
  std::vector<unsigned> vmap;
  std::map<unsigned, unsigned> vinv;
  std::vector<FnSpec> fns;
  std::vector<IndSpec> inds;
  Interp I;

  std::unique_ptr<Manager> man;
  std::map<ShapeId, Ord> ords;
  std::vector<std::unique_ptr<Order>> old_ords;   // replaced by orders built alike; requests in progress may use them
  std::vector<std::unique_ptr<Slot>> slots;
  std::vector<std::unique_ptr<HSlot>> homs;
  std::vector<std::unique_ptr<GSlot>> gens;
  std::vector<std::unique_ptr<VSlot>> vals_;
  std::size_t base[4] = {0, 0, 0, 0};
  bool have_base = false;
  ShapeId scratch = 0;

  struct Frame { const Op* op; std::uint64_t calls; bool thrown; std::uint64_t tag; bool faults; Frame* up; std::uint64_t foreign; };
  Frame* frame = nullptr;
  std::uint64_t tags = 0, cb_total = 0;

  World(Runner& r, const WorldConf& w) : R(r), wc(w), S(w.D), I{S, inds}
  {
    Rng g(w.root_seed);
    vmap = VT<Values>::vmap(g, w.D);
    for (unsigned i = 0; i < w.D; ++i) vinv[vmap[i]] = i;
    std::set<ShapeId> all;
    std::function<void(ShapeId)> sub = [&](ShapeId s)
    {
      if (S[s].kind == Kind::Term) return;
      all.insert(s);
      if (S[s].kind == Kind::Nest) sub(S[s].nested);
      sub(S[s].tail);
    };
    for (auto e : w.roots) sub(S.random(g, e >> 16, e & 0xffff));
    sub(S.flat(0));
    scratch = S.nest(S.flat(0), S.flat(0));
    shapes.assign(all.begin(), all.end());
    nplain = shapes.size();
    if (w.root_seed % 3 == 1)
    {
      Rng q(w.root_seed / 3);
      for (unsigned n = q.range(1, 4); n--;)
      {
        const auto s = shapes[q.below(shapes.size())];
        const unsigned gap = S[s].kind != Kind::Term and q.chance(2, 3) ? q.chance(1, 6) ? q.range(1, 100) : q.range(1, 3) : 0;
        const auto x = S.mk(S[s].kind, q.chance(1, 3) and S[s].kind == Kind::Nest ? twin(q, S[s].nested) : S[s].nested, twin(q, S[s].tail), gap);
        if (x < 0 or S[x].var > 200 or std::find(shapes.begin(), shapes.end(), x) != shapes.end()) continue;
        shapes.push_back(x);
      }
    }
    for (auto s : shapes) maxh = std::max(maxh, S[s].height);
    slots.resize(r.rc.slots);
    homs.resize(10);
    gens.resize(w.root_seed % 6 == 0 ? 12 : 4);
    inds.reserve(4096);
    vals_.resize(10);
  }

  // A layout with as many levels of the same kinds, perhaps other variable numbers.
  ShapeId twin(Rng& q, ShapeId s)
  {
    std::vector<ShapeId> c{s};
    for (auto x : shapes) if (S[x].kind == S[s].kind and S[x].universe == S[s].universe and S[x].height == S[s].height) c.push_back(x);
    return c[q.below(c.size())];
  }

  int kind() const override { return wc.kind; }
  bool up() const override { return man != nullptr; }
  unsigned oracles() const { return R.rc.oracles; }

  // ---- configuration ----------------------------------------------------------------------
  C conf() const
  {
    C c;
    c.sdd_unique_table_size = wc.sdd_ut;
    c.sdd_difference_cache_size = wc.diff;
    c.sdd_intersection_cache_size = wc.inter;
    c.sdd_sum_cache_size = wc.sum;
    c.sdd_arena_size = wc.arena;
    c.hom_unique_table_size = wc.hom_ut;
    c.hom_cache_size = wc.hom;
    set_val_ut(c, wc.val_ut);
    return c;
  }

  void init_raw()
  {
    auto cf = conf();
    std::unique_ptr<Manager> p;
    { LibScope ls; auto m = sdd::init<C>(cf); UserScope us; p.reset(new Manager(m)); }
    man = std::move(p);
  }

  void start() override
  {
    try { init_raw(); }
    catch (std::exception& e) { fail("init", "initialisation refused or failed while nothing stands in the way: %s", e.what()); }
    begin();
  }
  void begin()
  {
    cur() = this;
    have_base = false;
    for (auto& o : R.rc.ops) if (o.k == K::Quiesce) have_base = true;
    if (have_base) measure(base);
  }
  bool try_start() override
  {
    try { init_raw(); }
    catch (std::runtime_error&) { return false; }
    catch (std::exception& e) { fail("init", "initialisation failed with an unexpected error: %s", e.what()); }
    begin();
    return true;
  }

  void drop_all()
  {
    LibScope ls;
    for (auto& g : gens) { if (g) { g->g.reset(); UserScope us; g.reset(); } }
    for (auto& s : slots) { UserScope us; s.reset(); }
    for (auto& s : homs) { UserScope us; s.reset(); }
    for (auto& s : vals_) { UserScope us; s.reset(); }
  }

  void finish() override
  {
    if (not man) return;
    check_all("before stopping");
    finish_quietly();
  }
  void finish_quietly()
  {
    tally();
    drop_all();
    { UserScope us; ords.clear(); old_ords.clear(); }
    { LibScope ls; man.reset(); }
    if (Payload<C>::live() != 0 and (oracles() & o_leak)) fail("leak", "%ld user objects are still alive after the manager is gone", Payload<C>::live());
    cur() = nullptr;
  }

  void tally() override
  {
    if (not man) return;
    LibScope ls;
    const sdd::mem::cache_statistics* cs[] = {&man->sdd_difference_cache_stats(), &man->sdd_intersection_cache_stats(), &man->sdd_sum_cache_stats(), &man->hom_cache_stats()};
    for (auto c : cs) { hit(c_hits, c->hits); hit(c_misses, c->misses); hit(c_discarded, c->discarded); hit(c_filtered, c->filtered); }
    hit(c_rehash, man->sdd_stats().rehash + man->hom_stats().rehash + stat_rehash(man->values_stats()));
  }

  // ---- values -------------------------------------------------------------------------------
  Values vals(std::uint32_t mask, unsigned how = 0) const
  {
    std::vector<unsigned> x;
    { UserScope us; x.reserve(16); for (unsigned d = 0; d < wc.D; ++d) if (mask >> d & 1) x.push_back(vmap[d]); }
    return VT<Values>::mk(x, how);
  }
  std::uint32_t unvals(const Values& v) const
  {
    std::uint32_t m = 0;
    VT<Values>::each(v, [&](unsigned x)
    {
      auto it = vinv.find(x);
      if (it == vinv.end()) fail("value", "a value that no step ever used appears in a set: %u", x);
      m |= 1u << it->second;
    });
    return m;
  }

  // ---- orders ---------------------------------------------------------------------------------
  OB mk_ob(ShapeId s, unsigned& uniq, Ord* rec, bool top)
  {
    if (S[s].kind == Kind::Term) return OB();
    Ident id;
    mk_ident(id, S[s].height - 1, uniq++);
    if (top and rec) { UserScope us; rec->level.push_back(id); }
    if (S[s].kind == Kind::Flat)
    {
      if (rec) { UserScope us; rec->flat.push_back(id); }
      auto ob = mk_ob(S[s].tail, uniq, rec, top);
      ob.push(id);
      return ob;
    }
    auto nested = mk_ob(S[s].nested, uniq, rec, false);
    auto ob = mk_ob(S[s].tail, uniq, rec, top);
    ob.push(id, nested);
    return ob;
  }
  const Ord& ord(ShapeId s)
  {
    auto it = ords.find(s);
    if (it != ords.end()) return it->second;
    if (S[s].gaps) std::abort();
    UserScope us;
    auto arm = heap_suspend();
    Ord o;
    unsigned uniq = 1;
    { LibScope ls; OB ob = mk_ob(s, uniq, &o, true); Order x(ob); UserScope us2; o.o.reset(new Order(x)); }
    heap_resume(arm);
    return ords.emplace(s, std::move(o)).first->second;
  }
  // An order built alike, separately.
  Order ord_again(ShapeId s)
  {
    unsigned uniq = 1;
    OB ob = mk_ob(s, uniq, nullptr, true);
    return Order(ob);
  }
  // From now on the layout is used under an order built anew.
  void ord_renew(ShapeId s)
  {
    UserScope us;
    ord(s);
    auto arm = heap_suspend();
    std::unique_ptr<Order> n;
    { LibScope ls; Order x = ord_again(s); UserScope us2; n.reset(new Order(x)); }
    heap_resume(arm);
    auto& o = ords.find(s)->second;
    std::swap(o.o, n);
    old_ords.push_back(std::move(n));
  }

  // ---- decoding -------------------------------------------------------------------------------
  struct Dec
  {
    World& w;
    std::map<std::pair<const void*, ShapeId>, MSet> memo;
    std::string* err;
    bool strict;                      // the diagram must also be in reduced form
    void bad(const std::string& s) { if (err->empty()) *err = s; }

    struct Vis
    {
      Dec& d;
      MSet operator()(const sdd::zero_terminal<C>&, ShapeId s) const { return MSet(d.w.S[s].universe); }
      MSet operator()(const sdd::one_terminal<C>&, ShapeId s) const
      {
        MSet r(d.w.S[s].universe);
        if (d.w.S[s].kind != Kind::Term) { d.bad("|1| where a level of layout " + d.w.S[s].sig + " is expected"); return r; }
        r.set(0);
        return r;
      }
      MSet operator()(const sdd::flat_node<C>& n, ShapeId s) const
      {
        auto& S = d.w.S;
        MSet r(S[s].universe);
        if (S[s].kind != Kind::Flat) { d.bad("flat node where layout " + S[s].sig + " is expected"); return r; }
        auto it = d.memo.find({&n, s});
        if (it != d.memo.end()) return it->second;
        if (n.variable() != S[s].var) d.bad("variable " + std::to_string(n.variable()) + " where " + std::to_string(S[s].var) + " is expected");
        const auto tu = S[S[s].tail].universe;
        std::uint32_t seen = 0;
        std::vector<MSet> ts;
        for (const auto& a : n)
        {
          auto succ = a.successor();
          auto t = d.go(succ, S[s].tail);
          auto m = d.w.unvals(a.valuation());
          if (d.strict)
          {
            if (m == 0 or t.empty()) d.bad("an arc that leads nowhere");
            if (seen & m) d.bad("arcs whose values overlap");
            seen |= m;
            for (auto& q : ts) if (q == t) d.bad("two arcs with successors that denote the same set");
            ts.push_back(t);
          }
          for (unsigned v = 0; v < S.D; ++v) if (m >> v & 1) r.or_at(v * tu, t);
        }
        d.memo[{&n, s}] = r;
        return r;
      }
      MSet operator()(const sdd::hierarchical_node<C>& n, ShapeId s) const
      {
        auto& S = d.w.S;
        MSet r(S[s].universe);
        if (S[s].kind != Kind::Nest) { d.bad("hierarchical node where layout " + S[s].sig + " is expected"); return r; }
        auto it = d.memo.find({&n, s});
        if (it != d.memo.end()) return it->second;
        if (n.variable() != S[s].var) d.bad("variable " + std::to_string(n.variable()) + " where " + std::to_string(S[s].var) + " is expected");
        const auto tu = S[S[s].tail].universe;
        MSet seen(S.head(s));
        std::vector<MSet> ts;
        for (const auto& a : n)
        {
          auto succ = a.successor();
          auto t = d.go(succ, S[s].tail);
          auto v = d.go(a.valuation(), S[s].nested);
          if (d.strict)
          {
            if (v.empty() or t.empty()) d.bad("an arc that leads nowhere");
            if (not (seen & v).empty()) d.bad("arcs whose values overlap");
            seen |= v;
            for (auto& q : ts) if (q == t) d.bad("two arcs with successors that denote the same set");
            ts.push_back(t);
          }
          v.each([&](std::uint32_t v){ r.or_at(v * tu, t); });
        }
        d.memo[{&n, s}] = r;
        return r;
      }
    };
    MSet go(const SDD& x, ShapeId s) { if (not err->empty()) return MSet(w.S[s].universe); return visit(Vis{*this}, x, s); }
  };

  MSet decode(const SDD& x, ShapeId s, std::string* err = nullptr)
  {
    UserScope us;
    hit(c_decodes);
    std::string e;
    Dec d{*this, {}, &e, (oracles() & (o_eq | o_rebuild)) != 0};
    auto m = d.go(x, s);
    if (not e.empty())
    {
      if (err) *err = e;
      else fail("structure", "malformed diagram: %s", e.c_str());
    }
    return m;
  }

  // ---- building -------------------------------------------------------------------------------
  SDD state(ShapeId s, std::uint32_t i)
  {
    const auto& sh = S[s];
    if (sh.kind == Kind::Term) return sdd::one<C>();
    const auto tu = S[sh.tail].universe;
    auto t = state(sh.tail, i % tu);
    if (sh.kind == Kind::Flat) return SDD(sh.var, vals(1u << (i / tu)), t);
    return SDD(sh.var, state(sh.nested, i / tu), t);
  }
  SDD by_residuals(ShapeId s, const MSet& m, unsigned how)
  {
    if (m.empty()) return sdd::zero<C>();
    if (S[s].kind == Kind::Term) return sdd::one<C>();
    std::map<MSet, MSet> res;
    { UserScope us; res = residuals(S, s, m); }
    std::vector<SDD> ops;
    for (auto& kv : res)
    {
      auto t = by_residuals(S[s].tail, kv.first, how);
      if (S[s].kind == Kind::Flat)
      {
        std::uint32_t mask = 0;
        kv.second.each([&](std::uint32_t v){ mask |= 1u << v; });
        ops.push_back(SDD(S[s].var, vals(mask, how), t));
      }
      else ops.push_back(SDD(S[s].var, by_residuals(S[s].nested, kv.second, how), t));
    }
    if (how & 4) std::reverse(ops.begin(), ops.end());
    if (how & 8) { SDD r; for (auto& x : ops) r += x; return r; }
    return sdd::sum<C>(ops.begin(), ops.end());
  }
  SDD by_values(ShapeId s, const MSet& m)
  {
    if (m.empty()) return sdd::zero<C>();
    if (S[s].kind == Kind::Term) return sdd::one<C>();
    const auto tu = S[S[s].tail].universe;
    SDD r;
    for (std::uint32_t v = 0; v < S.head(s); ++v)
    {
      MSet t; { UserScope us; t = m.slice(v * tu, tu); }
      if (t.empty()) continue;
      auto y = by_values(S[s].tail, t);
      if (S[s].kind == Kind::Flat) r = r + SDD(S[s].var, vals(1u << v), y);
      else r = SDD(S[s].var, state(S[s].nested, v), y) + r;
    }
    return r;
  }
  SDD full(ShapeId s)
  {
    if (S[s].kind == Kind::Term) return sdd::one<C>();
    auto t = full(S[s].tail);
    if (S[s].kind == Kind::Flat) return SDD(S[s].var, vals((1u << wc.D) - 1), t);
    return SDD(S[s].var, full(S[s].nested), t);
  }
  SDD by_states(ShapeId s, const MSet& m, Rng& g)
  {
    std::vector<std::uint32_t> st;
    { UserScope us; m.each([&](std::uint32_t i){ st.push_back(i); }); g.shuffle(st); }
    SDD r;
    if (g.chance(1, 2)) { for (auto i : st) r += state(s, i); }
    else
    {
      std::vector<SDD> v;
      for (auto i : st) v.push_back(state(s, i));
      r = sdd::sum<C>(v.begin(), v.end());
    }
    return r;
  }
  // Denotes m, in one of several ways.
  SDD build(ShapeId s, const MSet& m, std::uint32_t how)
  {
    Rng g(how * 77777ull + 5);
    unsigned k = how % 7;
    if (k == 0 and m.count() > 48) k = 1;
    if (k == 2 and S[s].universe > 300) k = 1;
    switch (k)
    {
      case 0: return by_states(s, m, g);
      case 2: return by_values(s, m);
      case 3: { MSet c; { UserScope us; c = m.complement(); } return full(s) - by_residuals(s, c, how >> 3); }
      case 4:
      {
        MSet a(m.n), b(m.n);
        { UserScope us; m.each([&](std::uint32_t i){ auto q = g.below(3); if (q != 0) a.set(i); if (q != 1) b.set(i); }); }
        return by_residuals(s, a, how >> 3) + by_residuals(s, b, how >> 4);
      }
      case 5:
      {
        MSet a = m, b = m;
        { UserScope us; m.complement().each([&](std::uint32_t i){ auto q = g.below(3); if (q == 0) a.set(i); if (q == 1) b.set(i); }); }
        return by_residuals(s, a, how >> 3) & by_residuals(s, b, how >> 4);
      }
      default: return by_residuals(s, m, how >> 3);
    }
  }

  std::vector<std::uint32_t> random_masks(Rng& r, ShapeId s, bool allow_empty)
  {
    std::vector<std::uint32_t> v;
    for (unsigned i = 0; i < S[s].nflat; ++i)
    {
      std::uint32_t m = r.chance(1, 3) ? 1u << r.below(wc.D) : r.chance(1, 4) ? (1u << wc.D) - 1 : r.below(1u << wc.D);
      if (m == 0 and not (allow_empty and r.chance(1, 4))) m = 1u << r.below(wc.D);
      v.push_back(m);
    }
    return v;
  }
  MSet cube(ShapeId s, const std::vector<std::uint32_t>& masks)
  {
    MSet r(S[s].universe);
    const unsigned n = S[s].nflat;
    for (std::uint32_t i = 0; i < r.n; ++i)
    {
      bool in = true;
      std::uint32_t q = i;
      for (unsigned k = n; k-- > 0; q /= wc.D) if (not (masks[k] >> (q % wc.D) & 1)) { in = false; break; }
      if (in) r.set(i);
    }
    return r;
  }
  MSet random_set(Rng& r, ShapeId s)
  {
    const auto u = S[s].universe;
    MSet m(u);
    switch (r.below(9))
    {
      case 0: { unsigned k = r.range(1, 5); while (k--) m.set(r.below(u)); break; }
      case 1: case 2: { unsigned p = r.range(1, 15); for (std::uint32_t i = 0; i < u; ++i) if (r.chance(p, 16)) m.set(i); break; }
      case 3: m = cube(s, random_masks(r, s, false)); break;
      case 4: case 5: { unsigned k = r.range(2, 4); while (k--) m |= cube(s, random_masks(r, s, false)); break; }
      case 6: case 7:
      {
        std::vector<Slot*> c;
        for (auto& x : slots) if (x and x->sh == s) c.push_back(x.get());
        if (c.empty()) { m.set(r.below(u)); break; }
        m = c[r.below(c.size())]->m;
        unsigned k = r.below(3);
        while (k--) { auto i = r.below(u); if (m.test(i)) m.reset(i); else m.set(i); }
        break;
      }
      default: if (r.chance(1, 2)) m = m.complement(); break;
    }
    return m;
  }

  // ---- operations -----------------------------------------------------------------------------
  int fn_id(const FnSpec& f)
  {
    for (std::size_t i = 0; i < fns.size(); ++i) if (fns[i] == f) return i;
    UserScope us;
    fns.push_back(f);
    return fns.size() - 1;
  }
  Hom ind_hom(int spec, int state)
  {
    int k = 0;
    for (int i = 0; i < spec; ++i) k += inds[i].use_skip == inds[spec].use_skip;
    if (inds[spec].use_skip) return sdd::inductive<C>(IndSkip<C>(spec, state, k));
    return sdd::inductive<C>(IndPlain<C>(spec, state, k));
  }
  Hom fun_hom(const sdd::order<C>& o, const Ident& id, int k)
  {
    if (k & 1) return sdd::function(o, id, FnUser<C, 1>(k));
    return sdd::function(o, id, FnUser<C, 0>(k));
  }
  Hom hom(const Term& t)
  {
    switch (t.t)
    {
      case T::Id: return sdd::id<C>();
      case T::Sum: { std::vector<Hom> v; for (auto& c : t.ch) v.push_back(hom(*c)); return sdd::sum(*ord(t.sh).o, v.begin(), v.end()); }
      case T::Inter: { std::vector<Hom> v; for (auto& c : t.ch) v.push_back(hom(*c)); return sdd::intersection(*ord(t.sh).o, v.begin(), v.end()); }
      case T::Comp: { auto a = hom(*t.ch[0]); return sdd::composition(a, hom(*t.ch[1])); }
      case T::Fix: return sdd::fixpoint(hom(*t.ch[0]));
      case T::Ite: { auto p = hom(*t.ch[0]); auto a = hom(*t.ch[1]); return sdd::if_then_else(p, a, hom(*t.ch[2])); }
      case T::Local: { auto h = hom(*t.ch[0]); auto& o = ord(t.sh); return sdd::local(o.level[t.pos], *o.o, h); }
      case T::Func: { auto& o = ord(t.sh); int id = fn_id(t.fn); return fun_hom(*o.o, o.flat[t.pos], id); }
      case T::Ind: return ind_hom(t.spec, t.state);
      case T::Const: return sdd::constant<C>(by_residuals(t.sh, t.con, 0));
    }
    return sdd::id<C>();
  }

  // ---- callbacks --------------------------------------------------------------------------------
  void on_callback(const char* what)
  {
    UserScope us;
    hit(c_callbacks);
    if (++cb_total > 3000000) { hit(c_budget); finish_run(); }
    Frame* f = frame;
    if (not f) fail("callback", "a user %s is called although no request is in progress", what);
    ++f->calls;
    ev(f->calls * 31 + what[0]);
    if (f->faults and f->op->f == Fault::Throw and f->calls == f->op->fn)
    {
      f->thrown = true;
      hit(f_throw_fired);
      switch (f->op->fb % 4)
      {
        case 0: throw CbErr0(f->tag);
        case 1: throw CbErr1(f->tag);
        case 2: throw CbErr2(f->tag);
        default: throw CbErr3{f->tag};
      }
    }
    if (f->faults and f->op->re and f->calls == f->op->re)
    {
      auto arm = heap_suspend();
      auto fired = heap_failures_fired();
      R.run_next_nested();
      f->foreign += heap_failures_fired() - fired;
      heap_resume(arm);
    }
  }

  // Run the library calls of one step, with the step's fault armed; judge the outcome; after a
  // failure, everything must be as before and the same request must succeed.
  template <class Body> void attempt(const Op& op, const char* what, Body body)
  {
    Frame fr{&op, 0, false, 0, true, frame, 0};
    for (int round = 0; round < 2; ++round)
    {
      fr.calls = 0; fr.thrown = false; fr.faults = round == 0; fr.tag = ++tags * 1000003 + op.a; fr.foreign = 0;
      const auto fired0 = heap_failures_fired();
      bool threw = false;
      frame = &fr;
      const int depth = R.depth;
      if (round == 0)
      {
        if (op.f == Fault::Throw) hit(f_throw_armed);
        if (op.f == Fault::Alloc) { hit(f_alloc_armed); heap_arm_failure(op.fn, op.k == K::GenNew or op.k == K::GenStep ? 1 : op.fb); } // Boost.Coroutine allocates to carry an exception
      }
      try { LibScope ls; body(); heap_disarm(); }
      catch (CbErr0& e) { heap_disarm(); threw = true; if (not fr.thrown or e.tag != fr.tag) fail("exception", "%s: the exception that reached the caller is not the one thrown", what); }
      catch (CbErr1& e) { heap_disarm(); threw = true; if (not fr.thrown or e.tag != fr.tag) fail("exception", "%s: the exception that reached the caller is not the one thrown", what); }
      catch (CbErr2& e) { heap_disarm(); threw = true; if (not fr.thrown or e.tag != fr.tag) fail("exception", "%s: the exception that reached the caller is not the one thrown", what); }
      catch (CbErr3& e) { heap_disarm(); threw = true; if (not fr.thrown or e.tag != fr.tag) fail("exception", "%s: the exception that reached the caller is not the one thrown", what); }
      catch (std::bad_alloc&)
      {
        heap_disarm(); threw = true;
        if (heap_failures_fired() - fired0 - fr.foreign == 0) fail("exception", "%s: out of memory reported although no allocation failed", what);
      }
      catch (sdd::top<C>&) { heap_disarm(); fail("refused", "%s: refused as incompatible although the operands are compatible", what); }
      catch (std::exception& e) { heap_disarm(); fail("exception", "%s: unexpected exception: %s", what, e.what()); }
      frame = fr.up;
      R.depth = depth;
      const auto fired = heap_failures_fired() - fired0 - fr.foreign;
      if (fired) { hit(f_alloc_fired, fired); ev(fired); }
      if (not threw)
      {
        if (fr.thrown) fail("swallowed", "%s: a user callback threw, but the caller was given a result", what);
        if (round) hit(c_retry_ok);
        return;
      }
      ev(0xEE);
      logf("  failed as injected (%s); checking and retrying", fr.thrown ? "callback threw" : "allocation failed");
      R.check_all("after a failed request");
    }
    fail("retry", "%s: repeating the request without the failure fails", what);
  }

  // ---- slots ------------------------------------------------------------------------------------
  Slot* pick(std::uint32_t a) { std::vector<Slot*> c; for (auto& x : slots) if (x) c.push_back(x.get()); return c.empty() ? nullptr : c[a % c.size()]; }
  Slot* pick(std::uint32_t a, ShapeId s) { std::vector<Slot*> c; for (auto& x : slots) if (x and x->sh == s) c.push_back(x.get()); return c.empty() ? nullptr : c[a % c.size()]; }
  HSlot* pick_hom(std::uint32_t a) { std::vector<HSlot*> c; for (auto& x : homs) if (x) c.push_back(x.get()); return c.empty() ? nullptr : c[a % c.size()]; }

  // An operand: a copy of a held handle, or a fresh one.
  Slot operand(std::uint32_t a, ShapeId s)
  {
    if (auto p = pick(a, s)) return *p;
    Rng r(a);
    Slot q{SDD(), s, random_set(r, s), 0};
    auto arm = heap_suspend();
    { LibScope ls; q.x = build(s, q.m, r.next() & 0xffff); }
    heap_resume(arm);
    return q;
  }

  void check_result(const SDD& x, ShapeId s, const MSet& m, const char* what)
  {
    std::string err;
    auto got = decode(x, s, &err);
    if (not err.empty()) fail("result", "%s: the result is not a diagram over layout %s: %s", what, S[s].sig.c_str(), err.c_str());
    if (got != m) fail("result", "%s: expected %s got %s", what, show(S, s, m).c_str(), show(S, s, got).c_str());
    if (m.count() > 1) { hit(c_nontrivial); if (S[s].sig.find('(') != std::string::npos) hit(c_hier); }
    ev(m.hash());
  }

  void put(std::uint32_t where, SDD x, ShapeId s, const MSet& m, const char* what)
  {
    check_result(x, s, m, what);
    if (oracles() & o_eq)
    {
      LibScope ls;
      for (auto& q : slots) if (q and q->sh == s)
      {
        hit(c_eqpairs);
        check_pair(q->x, q->m, x, m, s, what);
      }
    }
    if (oracles() & o_rebuild)
    {
      auto arm = heap_suspend();
      LibScope ls;
      hit(c_rebuild);
      auto y = build(s, m, where * 31 + 7);
      heap_resume(arm);
      if (not (y == x)) fail("canonical", "%s: two diagrams that denote %s do not compare equal", what, show(S, s, m).c_str());
      if (std::hash<SDD>()(y) != std::hash<SDD>()(x)) fail("canonical", "%s: equal diagrams hash differently", what);
    }
    auto& t = slots[where % slots.size()];
    auto h = std::hash<SDD>()(x);
    LibScope ls;
    if (t and (where & 0x100)) { t->x = x; UserScope us; t->sh = s; t->m = m; t->hash = h; }
    else { UserScope us; auto n = std::make_unique<Slot>(Slot{x, s, m, h}); t = std::move(n); }
  }

  void check_pair(const SDD& a, const MSet& ma, const SDD& b, const MSet& mb, ShapeId s, const char* what)
  {
    const bool same = ma == mb;
    if ((a == b) != same or (a != b) == same)
      fail("canonical", "%s: two diagrams compare %s but denote %s and %s", what, a == b ? "equal" : "different", show(S, s, ma).c_str(), show(S, s, mb).c_str());
    if (same and std::hash<SDD>()(a) != std::hash<SDD>()(b)) fail("canonical", "%s: equal diagrams hash differently", what);
    if (same and (a < b or b < a)) fail("canonical", "%s: equal diagrams are ordered", what);
    if (not same and (a < b) == (b < a)) fail("canonical", "%s: of two different diagrams, not exactly one comes before the other", what);
  }

  void check_slot(Slot& q, const char* when)
  {
    std::string err;
    auto got = decode(q.x, q.sh, &err);
    if (not err.empty()) fail("handle", "%s: a held diagram is no longer well-formed: %s", when, err.c_str());
    if (got != q.m) fail("handle", "%s: a held diagram changed: was %s, is %s", when, show(S, q.sh, q.m).c_str(), show(S, q.sh, got).c_str());
    if ((oracles() & o_hash) and std::hash<SDD>()(q.x) != q.hash) fail("handle", "%s: the hash of a held diagram changed", when);
    if (q.x.empty() != q.m.empty()) fail("handle", "%s: empty() is wrong", when);
  }

  void check_all(const char* when) override
  {
    if (not man) return;
    auto arm = heap_suspend();
    {
      LibScope ls;
      for (auto& q : slots) if (q) check_slot(*q, when);
      if (oracles() & o_eq)
        for (std::size_t i = 0; i < slots.size(); ++i)
          for (std::size_t j = i; j < slots.size(); ++j)
            if (slots[i] and slots[j] and slots[i]->sh == slots[j]->sh)
            {
              hit(c_eqpairs);
              check_pair(slots[i]->x, slots[i]->m, slots[j]->x, slots[j]->m, slots[i]->sh, when);
            }
      for (auto& v : vals_) if (v) check_val(*v, when);
      if (oracles() & o_eq)
        for (auto& h : homs) if (h and std::hash<Hom>()(h->h) != h->hash) fail("hom-handle", "%s: the hash of a held operation changed", when);
    }
    heap_resume(arm);
  }

  void check_val(VSlot& v, const char* when)
  {
    UserScope us;
    std::set<unsigned> s;
    VT<Values>::each(v.v, [&](unsigned x){ s.insert(x); });
    if (s != v.m) fail("values", "%s: a held set of values changed", when);
  }

  std::uint64_t state_hash() override
  {
    std::uint64_t h = wc.kind;
    for (auto& q : slots) h = mix(h, q ? q->m.hash() + q->sh : 1);
    for (auto& q : gens) h = mix(h, q ? q->seen.hash() : 2);
    if (man)
    {
      LibScope ls;
      h = mix(h, man->sdd_stats().size);
      h = mix(h, man->hom_stats().size);
      h = mix(h, man->hom_cache_stats().size);
      h = mix(h, man->sdd_sum_cache_stats().size * 3 + man->sdd_intersection_cache_stats().size * 5 + man->sdd_difference_cache_stats().size * 7);
    }
    return h;
  }

  // ---- statistics -------------------------------------------------------------------------------
  struct CS { std::size_t size, hits, misses, filtered, discarded; };
  static CS cs(const sdd::mem::cache_statistics& s) { return {s.size, s.hits, s.misses, s.filtered, s.discarded}; }
  void stats(CS (&o)[4])
  {
    LibScope ls;
    o[0] = cs(man->sdd_difference_cache_stats());
    o[1] = cs(man->sdd_intersection_cache_stats());
    o[2] = cs(man->sdd_sum_cache_stats());
    o[3] = cs(man->hom_cache_stats());
  }
  std::uint64_t cap(unsigned i) const { std::uint64_t n[4] = {wc.diff, wc.inter, wc.sum, wc.hom}; return np2(n[i]); }
  void check_stats(const CS (&a)[4], const CS (&b)[4], bool reset, bool exact, const char* what)
  {
    static const char* nm[] = {"difference", "intersection", "sum", "operation"};
    for (unsigned i = 0; i < 4; ++i)
    {
      if (b[i].size > cap(i)) fail("cache", "%s: the %s cache holds %zu entries, configured for %llu", what, nm[i], b[i].size, static_cast<unsigned long long>(cap(i)));
      if (b[i].hits < a[i].hits or b[i].misses < a[i].misses or b[i].filtered < a[i].filtered or b[i].discarded < a[i].discarded)
        fail("cache", "%s: a statistic of the %s cache went backwards", what, nm[i]);
      if (reset and i == 3) continue;
      const long d = static_cast<long>(b[i].size) - static_cast<long>(a[i].size);
      const long e = static_cast<long>(b[i].misses - a[i].misses) - static_cast<long>(b[i].discarded - a[i].discarded);
      if (exact ? d != e : d > e)
        fail("cache", "%s: the %s cache grew by %ld entries, but its statistics say %ld (misses %zu, discarded %zu)", what, nm[i], d, e, b[i].misses - a[i].misses, b[i].discarded - a[i].discarded);
    }
    LibScope ls;
    const sdd::mem::cache_statistics* full[] = {&man->sdd_difference_cache_stats(), &man->sdd_intersection_cache_stats(), &man->sdd_sum_cache_stats(), &man->hom_cache_stats()};
    for (unsigned i = 0; i < 4; ++i)
    {
      auto& f = *full[i];
      if (f.collisions + f.alone + f.empty != f.buckets or f.alone + 2 * f.collisions > f.size or (f.collisions == 0 and f.alone != f.size))
        fail("cache", "%s: the %s cache reports %zu entries in %zu buckets, of which %zu empty, %zu with one and %zu with several", what, nm[i], f.size, f.buckets, f.empty, f.alone, f.collisions);
    }
    auto& u = man->sdd_stats();
    if (u.collisions + u.alone + u.empty != u.buckets or u.alone + 2 * u.collisions > u.size or (u.collisions == 0 and u.alone != u.size))
      fail("cache", "%s: the buckets of the stored diagrams do not add up", what);
    if (u.access != u.hits + u.misses or u.size > u.peak) fail("cache", "%s: the statistics of the stored diagrams do not add up", what);
    auto& v = man->hom_stats();
    if (v.access != v.hits + v.misses or v.size > v.peak) fail("cache", "%s: the statistics of the stored operations do not add up", what);
  }

  // ---- the steps --------------------------------------------------------------------------------
  void exec(const Op& op) override;
  void exec_impl(const Op& op);
  void exec_apply(const Op& op, bool twice);
  void exec_gen_step(GSlot& g, const Op& op);
  void gen_take(GSlot& g);
  void exec_observe(const Op& op);
  void exec_bad(const Op& op);
  void exec_bad_deep(const Op& op);
  void exec_lru(const Op& op);
  void exec_quiesce(const Op& op);
  void exec_val(const Op& op);
  template <std::size_t N> void insert_value(sdd::values::bitset<N>& v, unsigned x, bool was);
  template <class T> void insert_value(sdd::values::flat_set<T>& v, unsigned x, bool was);
  template <std::size_t N> void erase_value(sdd::values::bitset<N>& v, unsigned x, bool was);
  template <class T> void erase_value(sdd::values::flat_set<T>& v, unsigned x, bool was);
  void query_value(VSlot& q, Rng& r);
  bool mismatch(ShapeId a, ShapeId b) const;
  Slot nonempty(std::uint32_t a, ShapeId s);
  static std::size_t r_len(const Op& op) { Rng r(op.a * 31 + op.d); return r.below(1u << r.below(9)); }
  void measure(std::size_t (&v)[4]);
  void exec_life(const Op& op);
  void exec_ord(const Op& op);
  void exec_force(const Op& op);
  void exec_count_big(const Op& op);
  void exec_wide(const Op& op);
  void exec_crowd(const Op& op);
  void exec_storm(const Op& op);
  void check_alike(const Hom& h, const TermPtr& t, std::uint32_t seed);
  void flush(std::vector<SDD>& pool);
};

// ---- user objects -------------------------------------------------------------------------------
template <class C, int K> bool FnUser<C, K>::selector() const noexcept { p.check(id, "function"); return World<C>::cur()->fns[id].kind == 1; }
template <class C, int K> bool FnUser<C, K>::shifter() const noexcept { return World<C>::cur()->fns[id].kind == 2; }
template <class C, int K> typename C::Values FnUser<C, K>::operator()(const typename C::Values& v) const
{
  auto& w = *World<C>::cur();
  p.check(id, "function");
  w.on_callback("function");
  std::uint32_t out = 0;
  { UserScope us; auto in = w.unvals(v); for (unsigned d = 0; d < w.wc.D; ++d) if (in >> d & 1) out |= w.fns[id].out[d]; }
  return w.vals(out, out);
}

template <class C> bool IndBase<C>::selector() const noexcept { return World<C>::cur()->inds[spec].selector; }

template <class C> sdd::homomorphism<C> IndBase<C>::operator()(const sdd::order<C>& o, const sdd::SDD<C>& x) const
{
  auto& w = *World<C>::cur();
  p.check(spec * 8 + state, "inductive");
  w.on_callback("inductive");
  const auto& r = w.inds[spec].rule[state][o.variable()];
  if (r.ident) return sdd::cons(o, x, w.ind_hom(spec, state));
  if (r.sub < 0) return sdd::cons(o, x, w.ind_hom(spec, r.nest_next));
  const sdd::SDD<C> inner = w.ind_hom(r.sub, r.sub_state)(o.nested(), x);
  return sdd::cons(o, inner, w.ind_hom(spec, r.nest_next));
}

template <class C> sdd::homomorphism<C> IndBase<C>::operator()(const sdd::order<C>& o, const typename C::Values& v) const
{
  auto& w = *World<C>::cur();
  p.check(spec * 8 + state, "inductive");
  w.on_callback("inductive");
  const auto& r = w.inds[spec].rule[state][o.variable()];
  if (r.ident) return sdd::cons(o, v, w.ind_hom(spec, state));
  std::map<std::pair<int, std::uint32_t>, int> groups;
  {
    UserScope us;
    auto in = w.unvals(v);
    for (unsigned d = 0; d < w.wc.D; ++d) if ((in >> d & 1) and r.next[d] >= 0 and r.out[d]) groups[{r.next[d], r.out[d]}] = 1;
  }
  if (groups.empty()) return sdd::constant<C>(sdd::zero<C>());
  std::vector<sdd::homomorphism<C>> hs;
  for (auto& g : groups) hs.push_back(sdd::cons(o, w.vals(g.first.second, g.first.second), w.ind_hom(spec, g.first.first)));
  return sdd::sum(o.next(), hs.begin(), hs.end());
}

template <class C> sdd::SDD<C> IndBase<C>::operator()() const
{
  auto& w = *World<C>::cur();
  p.check(spec * 8 + state, "inductive");
  w.on_callback("inductive");
  return w.inds[spec].accept[state] ? sdd::one<C>() : sdd::zero<C>();
}

template <class C> bool IndSkip<C>::skip(const typename C::Identifier& id) const noexcept
{
  return World<C>::cur()->inds[this->spec].rule[this->state][ident_var(id)].ident;
}

template <class C> typename C::Values CubeInit<C>::operator()(const typename C::Identifier& id) const
{
  w->on_callback("initialiser");
  unsigned m;
  { UserScope us; m = masks->at(id); }
  return w->vals(m, m);
}

} // namespace sim

namespace std {
template <class C, int K> std::size_t hash<sim::FnUser<C, K>>::operator()(const sim::FnUser<C, K>& x) const noexcept
{
  x.p.check(x.id, "function");
  return sim::World<C>::cur()->wc.weak_hash ? 7 : sim::mix(1, x.id / 2);
}
template <class C> std::size_t hash<sim::IndPlain<C>>::operator()(const sim::IndPlain<C>& x) const noexcept
{
  x.p.check(x.spec * 8 + x.state, "inductive");
  return sim::World<C>::cur()->wc.weak_hash ? 7 : sim::mix(2, x.key * 8 + x.state);
}
template <class C> std::size_t hash<sim::IndSkip<C>>::operator()(const sim::IndSkip<C>& x) const noexcept
{
  x.p.check(x.spec * 8 + x.state, "inductive");
  return sim::World<C>::cur()->wc.weak_hash ? 7 : sim::mix(2, x.key * 8 + x.state);
}
}

#include "steps.hh"
