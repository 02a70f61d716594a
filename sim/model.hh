// The executable reference model: explicit sets of assignments, and an interpreter of operations.
//
// A layout ("shape") is a list of levels, each flat (one variable with D values) or nested (another
// shape). A set over a shape with n flat variables is a bitset over D^n assignments, the topmost
// variable being the most significant digit. Shapes are interned: same structure, same id.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#include "rng.hh"

namespace sim {

struct MSet
{
  std::vector<std::uint64_t> w;
  std::uint32_t n = 0; // universe size

  MSet() = default;
  explicit MSet(std::uint32_t size) : w((size + 63) / 64, 0), n(size) {}
  bool test(std::uint32_t i) const { return w[i >> 6] >> (i & 63) & 1; }
  void set(std::uint32_t i) { w[i >> 6] |= 1ull << (i & 63); }
  void reset(std::uint32_t i) { w[i >> 6] &= ~(1ull << (i & 63)); }
  bool empty() const { for (auto x : w) if (x) return false; return true; }
  std::uint64_t count() const { std::uint64_t c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
  bool operator==(const MSet& o) const { return n == o.n and w == o.w; }
  bool operator!=(const MSet& o) const { return not (*this == o); }
  bool operator<(const MSet& o) const { return n != o.n ? n < o.n : w < o.w; }
  MSet& operator|=(const MSet& o) { for (std::size_t i = 0; i < w.size(); ++i) w[i] |= o.w[i]; return *this; }
  MSet& operator&=(const MSet& o) { for (std::size_t i = 0; i < w.size(); ++i) w[i] &= o.w[i]; return *this; }
  MSet& operator-=(const MSet& o) { for (std::size_t i = 0; i < w.size(); ++i) w[i] &= ~o.w[i]; return *this; }
  friend MSet operator|(MSet a, const MSet& b) { a |= b; return a; }
  friend MSet operator&(MSet a, const MSet& b) { a &= b; return a; }
  friend MSet operator-(MSet a, const MSet& b) { a -= b; return a; }
  MSet complement() const
  {
    MSet r(n);
    for (std::size_t i = 0; i < w.size(); ++i) r.w[i] = ~w[i];
    if (n & 63) r.w.back() &= (1ull << (n & 63)) - 1;
    return r;
  }
  // Visit every member.
  template <class F> void each(F f) const
  {
    for (std::size_t i = 0; i < w.size(); ++i)
    {
      auto x = w[i];
      while (x) { unsigned b = __builtin_ctzll(x); x &= x - 1; f(static_cast<std::uint32_t>(i * 64 + b)); }
    }
  }
  // The len members starting at off, as a set over len.
  MSet slice(std::uint32_t off, std::uint32_t len) const
  {
    MSet r(len);
    for (std::uint32_t k = 0; k < len; )
    {
      std::uint32_t i = off + k, s = i & 63;
      std::uint64_t x = w[i >> 6] >> s;
      if (s and (i >> 6) + 1 < w.size()) x |= w[(i >> 6) + 1] << (64 - s);
      std::uint32_t take = len - k < 64 ? len - k : 64;
      if (take < 64) x &= (1ull << take) - 1;
      r.w[k >> 6] = x;
      k += 64;
    }
    return r;
  }
  // Union r in at offset off.
  void or_at(std::uint32_t off, const MSet& r)
  {
    std::uint32_t s = off & 63, base = off >> 6;
    for (std::size_t i = 0; i < r.w.size(); ++i)
    {
      auto x = r.w[i];
      if (not x) continue;
      w[base + i] |= x << s;
      if (s and (x >> (64 - s))) w[base + i + 1] |= x >> (64 - s);
    }
  }
  std::uint64_t hash() const { std::uint64_t h = n; for (auto x : w) h = mix(h, x); return h; }
};

using ShapeId = int;
enum class Kind : std::uint8_t { Term, Flat, Nest };

struct Shape
{
  Kind kind = Kind::Term;
  ShapeId nested = 0;
  ShapeId tail = 0;
  unsigned height = 0;      // number of levels
  unsigned var = 0;         // variable of the top level
  bool gaps = false;        // some variable numbers are skipped (such layouts have no order)
  unsigned nflat = 0;       // number of flat variables
  std::uint32_t universe = 1;
  std::string sig;
};

struct Shapes
{
  unsigned D;                       // values per flat variable
  std::vector<Shape> v;
  std::map<std::tuple<int, int, int, unsigned>, ShapeId> intern;

  explicit Shapes(unsigned d) : D(d) { v.emplace_back(); v[0].sig = "."; }
  const Shape& operator[](ShapeId i) const { return v[i]; }
  ShapeId flat(ShapeId tail) { return mk(Kind::Flat, 0, tail); }
  ShapeId nest(ShapeId nested, ShapeId tail) { return mk(Kind::Nest, nested, tail); }
  ShapeId mk(Kind k, ShapeId nested, ShapeId tail, unsigned gap = 0)
  {
    auto key = std::make_tuple(static_cast<int>(k), nested, tail, gap);
    auto it = intern.find(key);
    if (it != intern.end()) return it->second;
    Shape s;
    s.kind = k; s.nested = nested; s.tail = tail;
    s.height = v[tail].height + 1;
    s.var = (tail == 0 ? 0 : v[tail].var + 1) + gap;
    s.gaps = gap or v[tail].gaps or (k == Kind::Nest and v[nested].gaps);
    s.nflat = v[tail].nflat + (k == Kind::Flat ? 1 : v[nested].nflat);
    s.universe = v[tail].universe * (k == Kind::Flat ? D : v[nested].universe);
    s.sig = (k == Kind::Flat ? std::string("f") : "(" + v[nested].sig + ")") + (gap ? "+" + std::to_string(gap) : "") + v[tail].sig;
    v.push_back(s);
    return intern[key] = static_cast<ShapeId>(v.size() - 1);
  }
  // Universe of the head level.
  std::uint32_t head(ShapeId s) const { return v[s].kind == Kind::Flat ? D : v[v[s].nested].universe; }
  // Random shape with n flat variables.
  ShapeId random(Rng& r, unsigned n, unsigned depth)
  {
    if (n == 0) return 0;
    if (depth > 0 and r.chance(depth > 2 ? 3 : 2, depth > 2 ? 4 : 5))
    {
      unsigned k = r.range(1, n);
      auto tail = random(r, n - k, depth);
      auto nested = random(r, k, depth - 1);
      return nest(nested, tail);
    }
    return flat(random(r, n - 1, depth));
  }
};

// ---------------------------------------------------------------------------------------------
// Canonical reduced form, computed from the set alone.

struct Metrics
{
  std::set<std::pair<ShapeId, MSet>> seen;
  unsigned flat_nodes = 0, hier_nodes = 0, flat_arcs = 0, hier_arcs = 0;
  bool has_one = false, has_zero = false;
  std::map<unsigned, std::pair<unsigned, unsigned>> freq;
};

// Arcs of the reduced node: residual -> set of head values.
inline std::map<MSet, MSet> residuals(const Shapes& S, ShapeId s, const MSet& m)
{
  std::map<MSet, MSet> r;
  const auto hu = S.head(s), tu = S[S[s].tail].universe;
  for (std::uint32_t v = 0; v < hu; ++v)
  {
    auto t = m.slice(v * tu, tu);
    if (t.empty()) continue;
    auto it = r.find(t);
    if (it == r.end()) it = r.emplace(std::move(t), MSet(hu)).first;
    it->second.set(v);
  }
  return r;
}

inline void metrics(const Shapes& S, ShapeId s, const MSet& m, Metrics& out)
{
  if (m.empty()) { out.has_zero = true; return; }
  if (S[s].kind == Kind::Term) { out.has_one = true; return; }
  if (not out.seen.emplace(s, m).second) return;
  auto r = residuals(S, s, m);
  if (S[s].kind == Kind::Flat) { ++out.flat_nodes; out.flat_arcs += r.size(); ++out.freq[r.size()].first; }
  else { ++out.hier_nodes; out.hier_arcs += r.size(); ++out.freq[r.size()].second; }
  for (auto& kv : r)
  {
    if (S[s].kind == Kind::Nest) metrics(S, S[s].nested, kv.second, out);
    metrics(S, S[s].tail, kv.first, out);
  }
}

// ---------------------------------------------------------------------------------------------
// Operations.

// A user function on values: digit -> set of digits.
struct FnSpec
{
  unsigned kind = 0;                 // 0 general, 1 selector, 2 shifter (injective)
  std::vector<std::uint32_t> out;    // mask of result digits, per digit
  bool operator==(const FnSpec& o) const { return kind == o.kind and out == o.out; }
  std::uint64_t hash() const { std::uint64_t h = kind; for (auto x : out) h = mix(h, x); return h; }
};

inline FnSpec random_fn(Rng& r, unsigned D, int want_kind)
{
  FnSpec f;
  f.kind = want_kind >= 0 ? want_kind : r.below(3);
  f.out.assign(D, 0);
  if (f.kind == 1) { for (unsigned v = 0; v < D; ++v) f.out[v] = r.chance(3, 5) ? 1u << v : 0; }
  else if (f.kind == 2)
  {
    // an injective map; some values may be dropped
    std::vector<unsigned> p(D);
    for (unsigned v = 0; v < D; ++v) p[v] = v;
    if (r.chance(1, 2)) { unsigned k = r.range(1, D > 1 ? D - 1 : 1); for (unsigned v = 0; v < D; ++v) p[v] = (v + k) % D; }
    else r.shuffle(p);
    bool drop = r.chance(1, 3);
    for (unsigned v = 0; v < D; ++v) f.out[v] = (drop and r.chance(1, 4)) ? 0 : 1u << p[v];
  }
  else
  {
    for (unsigned v = 0; v < D; ++v)
      f.out[v] = r.chance(1, 5) ? 0 : (r.chance(1, 4) ? r.below(1u << D) : 1u << r.below(D));
  }
  return f;
}

// A finite transducer along the levels of a shape; used as the user's inductive operation.
struct IndSpec
{
  struct Rule
  {
    bool ident = true;                 // this state leaves this level alone and stays
    std::vector<int> next;             // flat level: next state per digit (-1: reject)
    std::vector<std::uint32_t> out;    // flat level: result digits per digit
    int sub = -1;                      // nested level: spec applied inside (-1: none)
    int sub_state = 0;
    int nest_next = 0;                 // nested level: next state
  };
  unsigned K = 1;
  std::vector<std::vector<Rule>> rule; // [state][variable]
  std::vector<bool> accept;
  bool selector = false;
  bool use_skip = false;
  int id = 0;                          // index in the pool (its identity)
};

struct Term;
using TermPtr = std::shared_ptr<const Term>;

enum class T : std::uint8_t { Id, Sum, Inter, Comp, Fix, Local, Func, Ind, Const, Ite };

struct Term
{
  T t = T::Id;
  ShapeId sh = 0;
  std::vector<TermPtr> ch;
  bool selector = true;
  bool pinned = false;     // Func that a fixpoint without identity relies on to reach its end
  unsigned pos = 0;        // Local: level index; Func: flat variable index
  FnSpec fn;               // Func
  int spec = 0, state = 0; // Ind
  MSet con;                // Const
  mutable std::vector<MSet> singles; // memo of the image of each singleton (for nested use)
  mutable std::vector<char> have;
  mutable unsigned size = 0; // memo of weight()
};

// The number of nodes of the term written out as a tree. Terms share parts, so without a bound on it,
// taking terms built earlier as parts again and again makes trees of exponential size.
inline unsigned
weight(const Term& t)
{
  if (t.size == 0)
  {
    std::uint64_t n = 1;
    for (auto& c : t.ch) n += weight(*c);
    t.size = static_cast<unsigned>(std::min<std::uint64_t>(n, 1u << 30));
  }
  return t.size;
}

struct Interp
{
  const Shapes& S;
  const std::vector<IndSpec>& inds;

  const MSet& image1(const Term& t, std::uint32_t a) const
  {
    const auto u = S[t.sh].universe;
    if (t.singles.empty()) { t.singles.resize(u); t.have.assign(u, 0); }
    if (not t.have[a])
    {
      MSet x(u); x.set(a);
      t.singles[a] = eval(t, x);
      t.have[a] = 1;
    }
    return t.singles[a];
  }

  MSet eval_ind(int spec, int q, ShapeId s, const MSet& x) const
  {
    if (x.empty()) return x;
    const auto& sp = inds[spec];
    const auto& sh = S[s];
    if (sh.kind == Kind::Term) return sp.accept[q] ? x : MSet(1);
    const auto& r = sp.rule[q][sh.height - 1];
    const auto tu = S[sh.tail].universe;
    MSet res(sh.universe);
    if (sh.kind == Kind::Flat)
    {
      for (unsigned v = 0; v < S.D; ++v)
      {
        auto t = x.slice(v * tu, tu);
        if (t.empty()) continue;
        if (r.ident) { res.or_at(v * tu, eval_ind(spec, q, sh.tail, t)); continue; }
        if (r.next[v] < 0) continue;
        auto y = eval_ind(spec, r.next[v], sh.tail, t);
        for (unsigned k = 0; k < S.D; ++k) if (r.out[v] >> k & 1) res.or_at(k * tu, y);
      }
    }
    else
    {
      const auto hu = S[sh.nested].universe;
      for (std::uint32_t a = 0; a < hu; ++a)
      {
        auto t = x.slice(a * tu, tu);
        if (t.empty()) continue;
        auto y = eval_ind(spec, r.ident ? q : r.nest_next, sh.tail, t);
        if (r.ident or r.sub < 0) { res.or_at(a * tu, y); continue; }
        MSet one(hu); one.set(a);
        eval_ind(r.sub, r.sub_state, sh.nested, one).each([&](std::uint32_t b){ res.or_at(b * tu, y); });
      }
    }
    return res;
  }

  MSet eval(const Term& t, const MSet& x) const
  {
    if (x.empty()) return x;
    switch (t.t)
    {
      case T::Id: return x;
      case T::Sum:
      {
        MSet r(x.n);
        for (auto& c : t.ch) r |= eval(*c, x);
        return r;
      }
      case T::Inter:
      {
        MSet r = eval(*t.ch[0], x);
        for (std::size_t i = 1; i < t.ch.size(); ++i) r &= eval(*t.ch[i], x);
        return r;
      }
      case T::Comp: return eval(*t.ch[0], eval(*t.ch[1], x));
      case T::Fix:
      {
        MSet r = x;
        for (;;) { MSet y = eval(*t.ch[0], r); if (y == r) return r; r = std::move(y); }
      }
      case T::Ite:
      {
        MSet p = eval(*t.ch[0], x);
        return eval(*t.ch[1], p) | eval(*t.ch[2], x - p);
      }
      case T::Const: return t.con;
      case T::Ind: return eval_ind(t.spec, t.state, t.sh, x);
      case T::Func:
      {
        std::uint32_t stride = 1;
        for (unsigned k = S[t.sh].nflat - 1; k > t.pos; --k) stride *= S.D;
        MSet r(x.n);
        x.each([&](std::uint32_t i)
        {
          unsigned v = i / stride % S.D;
          for (unsigned k = 0; k < S.D; ++k) if (t.fn.out[v] >> k & 1) r.set(i - v * stride + k * stride);
        });
        return r;
      }
      case T::Local:
      {
        ShapeId s = t.sh;
        for (unsigned k = 0; k < t.pos; ++k) s = S[s].tail;
        const auto tu = S[S[s].tail].universe, nu = S[S[s].nested].universe;
        MSet r(x.n);
        x.each([&](std::uint32_t i)
        {
          auto a = i / tu % nu;
          image1(*t.ch[0], a).each([&](std::uint32_t b){ r.set(i - a * tu + b * tu); });
        });
        return r;
      }
    }
    return x;
  }
};

// ---------------------------------------------------------------------------------------------
// Random operations.

struct TermGen
{
  const Shapes& S;
  std::vector<IndSpec>& inds;
  unsigned maxh;

  int random_ind(Rng& r, bool sel)
  {
    if (inds.size() >= 24 or (inds.size() > 2 and r.chance(1, 3)))
    {
      std::vector<int> ok;
      for (auto& i : inds) if (not sel or i.selector) ok.push_back(i.id);
      if (not ok.empty()) return ok[r.below(ok.size())];
    }
    IndSpec sp;
    sp.id = static_cast<int>(inds.size());
    sp.K = r.range(1, 3);
    sp.selector = sel or r.chance(1, 3);
    sp.use_skip = r.chance(1, 2);
    unsigned identp = r.below(4);
    for (unsigned q = 0; q < sp.K; ++q)
    {
      sp.accept.push_back(r.chance(4, 5));
      std::vector<IndSpec::Rule> v;
      for (unsigned h = 0; h < maxh; ++h)
      {
        IndSpec::Rule u;
        u.ident = r.below(4) < identp;
        for (unsigned d = 0; d < S.D; ++d)
        {
          u.next.push_back(r.chance(1, 6) ? -1 : static_cast<int>(r.below(sp.K)));
          u.out.push_back(sp.selector ? 1u << d : r.chance(1, 4) ? r.below(1u << S.D) : 1u << r.below(S.D));
        }
        u.nest_next = r.below(sp.K);
        if (not inds.empty() and r.chance(2, 3))
        {
          int k = r.below(inds.size());
          if (not sp.selector or inds[k].selector) { u.sub = k; u.sub_state = r.below(inds[k].K); }
        }
        v.push_back(u);
      }
      sp.rule.push_back(v);
    }
    if (not sp.accept[0] and r.chance(3, 4)) sp.accept[0] = true;
    inds.push_back(sp);
    return sp.id;
  }

  MSet random_const(Rng& r, ShapeId s)
  {
    MSet m(S[s].universe);
    unsigned k = r.range(1, 4);
    for (unsigned i = 0; i < k; ++i) m.set(r.below(m.n));
    return m;
  }

  std::shared_ptr<Term> leaf(T t, ShapeId s) { auto x = std::make_shared<Term>(); x->t = t; x->sh = s; return x; }

  TermPtr gen(Rng& r, ShapeId s, int depth, bool sel)
  {
    auto x = std::make_shared<Term>();
    x->sh = s;
    if (S[s].kind == Kind::Term) return x;
    unsigned k = r.below(depth <= 0 ? 10 : 24);
    std::vector<unsigned> nests;
    { ShapeId q = s; for (unsigned i = 0; S[q].kind != Kind::Term; ++i, q = S[q].tail) if (S[q].kind == Kind::Nest) nests.push_back(i); }
    if (k < 6 or (k >= 20 and nests.empty() and r.chance(1, 2)))
    {
      x->t = T::Func;
      x->pos = r.below(S[s].nflat);
      x->fn = random_fn(r, S.D, sel ? 1 : -1);
      x->selector = x->fn.kind == 1;
    }
    else if (k < 8)
    {
      x->t = T::Ind;
      x->spec = random_ind(r, sel);
      x->state = r.below(inds[x->spec].K);
      x->selector = inds[x->spec].selector;
    }
    else if (k == 8) { x->t = T::Id; }
    else if (k == 9)
    {
      if (sel) { x->t = T::Id; }
      else { x->t = T::Const; x->con = random_const(r, s); x->selector = false; }
    }
    else if (k < 13)
    {
      x->t = T::Sum;
      unsigned n = r.range(1, 4);
      for (unsigned i = 0; i < n; ++i) x->ch.push_back(gen(r, s, depth - 1, sel));
      if (r.chance(1, 3)) x->ch.push_back(leaf(T::Id, s));
      if (r.chance(1, 6)) x->ch.push_back(x->ch[0]);
    }
    else if (k < 15)
    {
      x->t = T::Comp;
      x->ch.push_back(gen(r, s, depth - 1, sel));
      x->ch.push_back(gen(r, s, depth - 1, sel));
    }
    else if (k == 15)
    {
      x->t = T::Inter;
      unsigned n = r.range(1, 4);
      for (unsigned i = 0; i < n; ++i) x->ch.push_back(gen(r, s, depth - 1, true));
    }
    else if (k < 19)
    {
      x->t = T::Fix;
      if (sel and r.chance(1, 2)) x->ch.push_back(gen(r, s, depth - 1, true));
      else if (r.chance(1, 5))
      {
        // no identity among the operands: all are selectors, or one of them keeps what it is given
        auto y = std::make_shared<Term>();
        y->t = T::Sum; y->sh = s;
        const bool shrink = sel or r.chance(1, 2);
        unsigned n = r.range(1, 4);
        for (unsigned i = 0; i < n; ++i) y->ch.push_back(gen(r, s, depth - 1, shrink));
        if (not shrink)
        {
          auto z = std::make_shared<Term>();
          z->t = T::Func; z->sh = s; z->pos = r.below(S[s].nflat); z->pinned = true; z->selector = false;
          for (unsigned d = 0; d < S.D; ++d) z->fn.out.push_back(1u << d | (r.chance(1, 3) ? 1u << r.below(S.D) : 0));
          y->ch.push_back(z);
          if (r.chance(1, 2)) r.shuffle(y->ch);
        }
        for (auto& c : y->ch) y->selector = y->selector and c->selector;
        x->ch.push_back(y);
      }
      else if (r.chance(1, 6))
      {
        // nothing but inductives
        auto y = std::make_shared<Term>();
        y->t = T::Sum; y->sh = s;
        unsigned n = r.range(1, 2);
        for (unsigned i = 0; i < n; ++i)
        {
          auto z = leaf(T::Ind, s);
          z->spec = random_ind(r, sel);
          z->state = r.below(inds[z->spec].K);
          z->selector = inds[z->spec].selector;
          y->ch.push_back(z);
        }
        y->ch.push_back(leaf(T::Id, s));
        for (auto& c : y->ch) y->selector = y->selector and c->selector;
        x->ch.push_back(y);
      }
      else
      {
        auto y = std::make_shared<Term>();
        y->t = T::Sum; y->sh = s;
        unsigned n = r.range(1, 4);
        for (unsigned i = 0; i < n; ++i) y->ch.push_back(gen(r, s, depth - 1, sel));
        y->ch.push_back(leaf(T::Id, s));
        if (r.chance(1, 2)) r.shuffle(y->ch);
        for (auto& c : y->ch) y->selector = y->selector and c->selector;
        x->ch.push_back(y);
      }
    }
    else if (k == 19)
    {
      x->t = T::Ite;
      x->ch.push_back(gen(r, s, depth - 1, true));
      x->ch.push_back(gen(r, s, depth - 1, sel));
      x->ch.push_back(gen(r, s, depth - 1, sel));
    }
    else if (not nests.empty())
    {
      x->t = T::Local;
      x->pos = nests[r.below(nests.size())];
      ShapeId q = s;
      for (unsigned i = 0; i < x->pos; ++i) q = S[q].tail;
      x->ch.push_back(gen(r, S[q].nested, depth - 1, sel));
    }
    else return gen(r, s, depth - 1, sel);
    if (not x->ch.empty()) { x->selector = true; for (auto& c : x->ch) x->selector = x->selector and c->selector; }
    return x;
  }
};

// An operation that differs from another one in one place. What was a selector stays one.
struct TermMutator
{
  const Shapes& S;
  std::vector<IndSpec>& inds;

  static std::size_t size(const Term& t) { return weight(t); }

  TermPtr go(Rng& r, const TermPtr& t)
  {
    std::size_t at = r.below(size(*t));
    return go(r, t, at, false);
  }

  TermPtr go(Rng& r, const TermPtr& t, std::size_t& at, bool keep_id)
  {
    auto x = std::make_shared<Term>(*t);
    x->singles.clear();
    x->have.clear();
    x->size = 0;
    if (at == 0) { change(r, *x, keep_id); return x; }
    --at;
    for (auto& c : x->ch)
    {
      const auto n = size(*c);
      if (at < n) { c = go(r, c, at, t->t == T::Fix); return x; }
      at -= n;
    }
    return x;
  }

  void change(Rng& r, Term& x, bool keep_id)
  {
    switch (x.t)
    {
      case T::Func:
        if (x.pinned) break;
        if (S[x.sh].nflat > 1 and r.chance(1, 2)) x.pos = (x.pos + r.range(1, S[x.sh].nflat - 1)) % S[x.sh].nflat;
        else if (x.fn.kind == 1) { const unsigned v = r.below(S.D); x.fn.out[v] = x.fn.out[v] ? 0 : 1u << v; }
        else if (x.fn.kind == 2) x.fn = random_fn(r, S.D, 2);
        else x.fn.out[r.below(S.D)] ^= 1u << r.below(S.D);
        break;
      case T::Ind:
        if (r.chance(1, 2) or inds.size() >= 40) { x.state = (x.state + 1) % inds[x.spec].K; break; }
        {
          IndSpec sp = inds[x.spec];
          sp.id = static_cast<int>(inds.size());
          switch (r.below(3))
          {
            case 0: { auto q = r.below(sp.K); sp.accept[q] = not sp.accept[q]; break; }
            case 1: sp.use_skip = not sp.use_skip; break;
            default: { auto& u = sp.rule[r.below(sp.K)]; auto& v = u[r.below(u.size())]; auto& n = v.next[r.below(S.D)]; n = n < 0 ? 0 : -1; break; }
          }
          inds.push_back(sp);
          x.spec = sp.id;
        }
        break;
      case T::Const: { auto i = r.below(x.con.n); if (x.con.test(i)) x.con.reset(i); else x.con.set(i); if (x.con.empty()) x.con.set(i); break; }
      case T::Comp: std::swap(x.ch[0], x.ch[1]); break;
      case T::Ite: std::swap(x.ch[1], x.ch[2]); break;
      case T::Sum: case T::Inter:
      {
        const auto i = r.below(x.ch.size());
        if (x.ch.size() > 1 and not (keep_id and (x.ch[i]->t == T::Id or x.ch[i]->pinned))) x.ch.erase(x.ch.begin() + i);
        break;
      }
      case T::Local:
      {
        // the same, elsewhere
        std::vector<unsigned> c;
        ShapeId q = x.sh;
        for (unsigned i = 0; S[q].kind != Kind::Term; ++i, q = S[q].tail) if (S[q].kind == Kind::Nest and S[q].nested == x.ch[0]->sh) c.push_back(i);
        x.pos = c[r.below(c.size())];
        break;
      }
      case T::Fix: case T::Id: break;
    }
  }
};

// Operations that do not name a place of a layout.
inline bool portable(const Term& t)
{
  if (t.t == T::Local or t.t == T::Func or t.t == T::Const) return false;
  for (auto& c : t.ch) if (not portable(*c)) return false;
  return true;
}
inline TermPtr transplant(const Term& t, ShapeId s)
{
  auto x = std::make_shared<Term>(t);
  x->sh = s; x->singles.clear(); x->have.clear(); x->size = 0;
  for (auto& c : x->ch) c = transplant(*c, s);
  return x;
}

inline std::string show_term(const Shapes& S, const Term& t)
{
  auto args = [&]{ std::string r; for (auto& c : t.ch) r += (r.empty() ? "" : ", ") + show_term(S, *c); return r; };
  switch (t.t)
  {
    case T::Id: return "id";
    case T::Sum: return "sum(" + args() + ")";
    case T::Inter: return "inter(" + args() + ")";
    case T::Comp: return "comp(" + args() + ")";
    case T::Fix: return "fix(" + args() + ")";
    case T::Local: return "local@" + std::to_string(t.pos) + "(" + args() + ")";
    case T::Ite: return "ite(" + args() + ")";
    case T::Const: return "const#" + std::to_string(t.con.count());
    case T::Ind: return "ind" + std::to_string(t.spec) + "." + std::to_string(t.state);
    case T::Func:
    {
      std::string r = "fun@" + std::to_string(t.pos) + (t.fn.kind == 1 ? "s[" : t.fn.kind == 2 ? "i[" : "[");
      for (auto x : t.fn.out) { char b[16]; snprintf(b, sizeof b, "%x.", x); r += b; }
      return r + "]";
    }
  }
  return "?";
}

inline std::string show(const Shapes& S, ShapeId s, const MSet& m, unsigned max = 12)
{
  std::string r = S[s].sig + "{";
  unsigned k = 0;
  m.each([&](std::uint32_t i)
  {
    if (k++ >= max) return;
    std::string d;
    for (unsigned j = 0; j < S[s].nflat; ++j) { d = std::to_string(i % S.D) + (d.empty() ? "" : ".") + d; i /= S.D; }
    r += (k > 1 ? " " : "") + d;
  });
  if (k > max) r += " ...";
  return r + "}#" + std::to_string(m.count());
}

} // namespace sim
