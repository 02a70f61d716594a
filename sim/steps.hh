// The steps of a run: each makes real library calls and judges them against the model.
#pragma once

namespace sim {

template <class C> void World<C>::exec(const Op& op)
{
  hit(c_ops);
  if (not man)
  {
    if (op.k == K::Init2 or op.k == K::Restart or op.k == K::FailInit) exec_life(op);
    return;
  }
  const bool measure = (oracles() & o_stats) and R.depth == 0 and op.k != K::Restart and op.k != K::FailInit and op.k != K::Quiesce;
  CS a[4];
  if (measure) stats(a);
  exec_impl(op);
  if (measure and man)
  {
    CS b[4];
    stats(b);
    const bool exact = op.f == Fault::None and not op.re and op.k != K::Bad and op.k != K::BadDeep;
    check_stats(a, b, op.k == K::ResetHom or op.k == K::Lru or op.re, exact, kind_names[static_cast<int>(op.k)]);
  }
}

template <class C> void World<C>::exec_impl(const Op& op)
{
  Rng r(op.b * 1000003ull + op.c);
  const bool ordered = op.k == K::MkCube or op.k == K::MkHom or op.k == K::HomRegroup or op.k == K::BadArg;
  const ShapeId any = shapes[op.a % (ordered ? nplain : shapes.size())];
  auto shape_of = [&](std::uint32_t a) -> ShapeId { auto p = pick(a); return p and a % 8 ? p->sh : shapes[a % shapes.size()]; };

  switch (op.k)
  {
    case K::MkRand:
    {
      MSet m = random_set(r, any);
      SDD x;
      attempt(op, "building a diagram", [&]{ x = build(any, m, op.c & 0xffff); });
      put(op.d, x, any, m, "building a diagram");
      break;
    }
    case K::MkCube:
    {
      auto& o = ord(any);
      auto masks = random_masks(r, any, true);
      std::map<Ident, unsigned> im;
      for (std::size_t i = 0; i < masks.size(); ++i) im[o.flat[i]] = masks[i];
      MSet m = cube(any, masks);
      SDD x;
      attempt(op, "building a diagram from an order", [&]{ x = SDD(*o.o, CubeInit<C>{this, &im}); });
      put(op.d, x, any, m, "building a diagram from an order");
      break;
    }
    case K::MkNode:
    {
      const ShapeId t = S[any].tail;
      MSet tm(1);
      SDD tx;
      if (t == 0) { if (r.chance(7, 8)) { tm.set(0); tx = sdd::one<C>(); } }
      else { auto q = operand(op.b, t); tm = q.m; tx = q.x; }
      const auto tu = S[t].universe;
      MSet m(S[any].universe);
      SDD x;
      if (S[any].kind == Kind::Flat)
      {
        std::uint32_t mask = r.below(1u << wc.D);
        for (unsigned d = 0; d < wc.D; ++d) if (mask >> d & 1) m.or_at(d * tu, tm);
        attempt(op, "building a node", [&]{ x = SDD(S[any].var, vals(mask, op.c & 7), tx); });
      }
      else
      {
        auto n = operand(op.c, S[any].nested);
        n.m.each([&](std::uint32_t v){ m.or_at(v * tu, tm); });
        attempt(op, "building a hierarchical node", [&]{ x = SDD(S[any].var, n.x, tx); });
      }
      put(op.d, x, any, m, "building a node");
      break;
    }
    case K::Union: case K::Inter: case K::Diff:
    {
      const ShapeId s = shape_of(op.a);
      auto a = operand(op.a, s), b = operand(op.b, s);
      SDD x;
      MSet m;
      const char* what = op.k == K::Union ? "union" : op.k == K::Inter ? "intersection" : "difference";
      if (op.k == K::Union) { m = a.m | b.m; attempt(op, what, [&]{ x = a.x + b.x; }); }
      else if (op.k == K::Inter) { m = a.m & b.m; attempt(op, what, [&]{ x = a.x & b.x; }); }
      else { m = a.m - b.m; attempt(op, what, [&]{ x = a.x - b.x; }); }
      put(op.d, x, s, m, what);
      break;
    }
    case K::NSum: case K::NInter:
    {
      const ShapeId s = shape_of(op.a);
      const unsigned n = r.range(2, 6);
      std::vector<SDD> v;
      MSet m;
      for (unsigned i = 0; i < n; ++i)
      {
        auto q = operand(r.next() & 0x7fffffff, s);
        if (op.k == K::NSum and r.chance(1, 10)) { q.x = sdd::zero<C>(); q.m = MSet(q.m.n); }
        if (i == 0) m = q.m; else if (op.k == K::NSum) m |= q.m; else m &= q.m;
        v.push_back(q.x);
      }
      SDD x;
      const char* what = op.k == K::NSum ? "n-ary union" : "n-ary intersection";
      if (op.k == K::NSum) attempt(op, what, [&]{ x = v.size() == 3 ? sdd::sum<C>({v[0], v[1], v[2]}) : sdd::sum<C>(v.begin(), v.end()); });
      else attempt(op, what, [&]{ x = v.size() == 3 ? sdd::intersection<C>({v[0], v[1], v[2]}) : sdd::intersection<C>(v.begin(), v.end()); });
      put(op.d, x, s, m, what);
      break;
    }
    case K::InPlace:
    {
      const ShapeId s = shape_of(op.a);
      auto a = operand(op.a, s), b = operand(op.b, s);
      const unsigned k = op.c % 4;                 // 3: with itself
      if (k == 3) b = a;
      SDD x = a.x;
      MSet m = k == 0 or k == 3 ? a.m | b.m : k == 1 ? a.m & b.m : a.m - b.m;
      attempt(op, "in-place operation", [&]
      {
        try { if (k == 0) x += b.x; else if (k == 1) x &= b.x; else if (k == 2) x -= b.x; else x += x; }
        catch (...) { if (x != a.x) fail("handle", "a failed in-place operation changed its left operand"); throw; }
      });
      put(op.d, x, s, m, "in-place operation");
      break;
    }

    case K::Copy:
    {
      auto p = pick(op.a);
      if (not p) break;
      Slot q = *p;
      put(op.b, q.x, q.sh, q.m, "copying a handle");
      break;
    }
    case K::Move:
    {
      auto p = pick(op.a);
      if (not p) break;
      LibScope ls;
      SDD y(std::move(p->x));
      Slot q{y, p->sh, p->m, p->hash};
      for (auto& t : slots) if (t.get() == p) { UserScope us; t.reset(); }
      SDD z;
      z = std::move(y);
      if (op.c & 1) { SDD v = z; z = std::move(v); }
      UserScope us;
      put(op.b, z, q.sh, q.m, "moving a handle");
      break;
    }
    case K::Swap:
    {
      auto p = pick(op.a), q = pick(op.b);
      if (not p or p == q) break;
      LibScope ls;
      using std::swap;
      swap(p->x, q->x);
      swap(p->sh, q->sh); swap(p->m, q->m); swap(p->hash, q->hash);
      check_slot(*p, "swapping handles"); check_slot(*q, "swapping handles");
      break;
    }
    case K::Assign:
    {
      auto p = pick(op.a), q = pick(op.b);
      if (not p) break;
      hit(f_drop);
      LibScope ls;
      p->x = q->x;
      UserScope us;
      p->sh = q->sh; p->m = q->m; p->hash = q->hash;
      check_slot(*p, "assigning a handle"); check_slot(*q, "assigning a handle");
      break;
    }
    case K::SelfAssign:
    {
      // a handle that may be the only one keeping its nodes alive
      const ShapeId s = any;
      MSet m(S[s].universe);
      const std::uint32_t i = op.b % m.n;
      m.set(i);
      LibScope ls;
      SDD y = (op.c & 1) ? state(s, i) : SDD();
      if (not (op.c & 1)) { auto p = pick(op.b); if (not p) break; SDD& z = p->x; const SDD& zz = z; z = zz; check_slot(*p, "assigning a handle to itself"); break; }
      const SDD& yy = y;
      y = yy;
      put(op.d, y, s, m, "assigning a handle to itself");
      break;
    }
    case K::AssignSub:
    {
      std::vector<ShapeId> ns;
      for (auto s : shapes) if (S[s].kind == Kind::Nest) ns.push_back(s);
      if (ns.empty()) break;
      const ShapeId s = ns[op.a % ns.size()];
      const std::uint32_t i = op.b % S[s].universe;
      const auto tu = S[S[s].tail].universe;
      MSet m(S[S[s].nested].universe);
      m.set(i / tu);
      LibScope ls;
      SDD y = state(s, i);
      struct First
      {
        const SDD* operator()(const sdd::zero_terminal<C>&) const { return nullptr; }
        const SDD* operator()(const sdd::one_terminal<C>&) const { return nullptr; }
        const SDD* operator()(const sdd::flat_node<C>&) const { return nullptr; }
        const SDD* operator()(const sdd::hierarchical_node<C>& n) const { return &n.begin()->valuation(); }
      };
      if (auto p = visit(First{}, y)) { y = *p; put(op.d, y, S[s].nested, m, "assigning to a handle a part of its own diagram"); }
      else fail("structure", "a hierarchical diagram has no hierarchical node");
      break;
    }
    case K::TakeSub:
    {
      auto p = pick(op.a);
      if (not p or p->m.empty()) break;
      const ShapeId s = p->sh;
      struct Arc
      {
        unsigned k; bool val;
        SDD operator()(const sdd::zero_terminal<C>&) const { return SDD(); }
        SDD operator()(const sdd::one_terminal<C>&) const { return SDD(); }
        SDD operator()(const sdd::flat_node<C>& n) const { return (n.begin() + k % n.size())->successor(); }
        SDD operator()(const sdd::hierarchical_node<C>& n) const { auto a = n.begin() + k % n.size(); return val ? a->valuation() : a->successor(); }
      };
      const bool val = S[s].kind == Kind::Nest and (op.c & 1);
      const ShapeId t = val ? S[s].nested : S[s].tail;
      if (t == 0) break;
      LibScope ls;
      SDD y = visit(Arc{op.b, val}, p->x);
      std::string err;
      auto m = decode(y, t, &err);
      if (not err.empty()) fail("structure", "a part of a diagram is malformed: %s", err.c_str());
      put(op.d, y, t, m, "taking a part of a diagram");
      break;
    }
    case K::Drop:
    {
      hit(f_drop);
      LibScope ls;
      auto& t = slots[op.a % slots.size()];
      { UserScope us; t.reset(); }
      break;
    }
    case K::DropMany:
    {
      LibScope ls;
      for (std::size_t i = 0; i < slots.size(); ++i) if (r.chance(2, 3)) { hit(f_drop); UserScope us; slots[i].reset(); }
      break;
    }
    case K::Recheck: check_all("re-examination"); break;

    case K::MkHom:
    {
      TermGen tg{S, inds, maxh};
      auto t = tg.gen(r, any, 1 + op.d % 3, false);
      if (r.chance(1, 3)) if (auto p = pick_hom(op.c)) t = TermMutator{S, inds}.go(r, p->t);
      Hom h = sdd::id<C>();
      attempt(op, "building an operation", [&]{ h = hom(*t); });
      logf("  %s", show_term(S, *t).c_str());
      if (oracles() & o_eq) check_alike(h, t, op.b);
      auto n = std::make_unique<HSlot>(HSlot{h, t, 0, std::hash<Hom>()(h)});
      LibScope ls;
      auto& q = homs[op.a / 7 % homs.size()];
      { UserScope us; q = std::move(n); }
      break;
    }
    case K::Apply: exec_apply(op, false); break;
    case K::Repeat: exec_apply(op, true); break;
    case K::ApplyCons:
    {
      std::vector<std::pair<HSlot*, ShapeId>> c;
      for (auto& h : homs) if (h) for (auto s : shapes) if (S[s].tail == h->t->sh and not S[s].gaps) c.push_back({h.get(), s});
      if (c.empty()) break;
      auto pr = c[op.a % c.size()];
      const ShapeId s = pr.second, t = S[s].tail;
      Hom h = pr.first->h;
      TermPtr term = pr.first->t;
      auto x = operand(op.b, t);
      if (r.chance(1, 4)) ord_renew(s);
      auto& o = ord(s);
      MSet y = I.eval(*term, x.m), m(S[s].universe);
      SDD z;
      const bool twice = r.chance(1, 2);
      auto same = [&](const Hom& a, const Hom& b)
      {
        if (not (oracles() & o_eq)) return;
        if (a != b or std::hash<Hom>()(a) != std::hash<Hom>()(b)) fail("hom-canonical", "two cons operations built from equal parts, the order built twice, compare or hash different");
      };
      if (S[s].kind == Kind::Flat)
      {
        std::uint32_t mask = r.below(1u << wc.D);
        for (unsigned d = 0; d < wc.D; ++d) if (mask >> d & 1) m.or_at(d * y.n, y);
        attempt(op, "applying cons", [&]
        {
          const Hom k = sdd::cons(*o.o, vals(mask, op.c & 3), h);
          if (twice) same(k, sdd::cons(ord_again(s), vals(mask, op.c >> 2 & 3), h));
          z = k(o.o->next(), x.x);
        });
      }
      else
      {
        auto n = operand(op.c, S[s].nested);
        n.m.each([&](std::uint32_t v){ m.or_at(v * y.n, y); });
        attempt(op, "applying cons", [&]
        {
          const Hom k = sdd::cons(*o.o, n.x, h);
          if (twice) same(k, sdd::cons(ord_again(s), n.x, h));
          z = k(o.o->next(), x.x);
        });
      }
      put(op.d, z, s, m, "applying cons");
      break;
    }
    case K::Rewrite:
    {
      auto p = pick_hom(op.a);
      if (not p) break;
      Hom h = p->h;
      TermPtr t = p->t;
      const unsigned n = p->rewrites;
      Hom h2 = h;
      attempt(op, "rewriting", [&]{ h2 = sdd::rewrite(*ord(t->sh).o, h); });
      auto q = std::make_unique<HSlot>(HSlot{h2, t, n + 1, std::hash<Hom>()(h2)});
      LibScope ls;
      auto& d = homs[op.d % homs.size()];
      { UserScope us; d = std::move(q); }
      // an operation made of inductives alone makes sense everywhere: rewrite it for another layout too
      if (portable(*t) and r.chance(2, 3))
      {
        std::vector<ShapeId> c;
        for (auto s : shapes) if (not S[s].gaps and s != t->sh and S[s].kind != Kind::Term) c.push_back(s);
        if (c.empty()) break;
        const auto t3 = transplant(*t, c[r.below(c.size())]);
        auto x = operand(op.b, t3->sh);
        const MSet m = I.eval(*t3, x.m);
        SDD y;
        Op o2 = op;
        o2.f = Fault::None; o2.re = 0;
        attempt(o2, "rewriting for another layout", [&]
        {
          const Hom h3 = sdd::rewrite(*ord(t3->sh).o, hom(*t3));
          y = h3(*ord(t3->sh).o, x.x);
        });
        check_result(y, t3->sh, m, "applying an operation rewritten for another layout");
      }
      break;
    }
    case K::HomDrop: { LibScope ls; auto& q = homs[op.a % homs.size()]; UserScope us; q.reset(); break; }
    case K::HomAssign:
    {
      auto p = pick_hom(op.a), q = pick_hom(op.b);
      if (not p) break;
      LibScope ls;
      if (op.c & 1) { Hom y(std::move(p->h)); p->h = std::move(y); const Hom& z = p->h; p->h = z; }
      else { p->h = q->h; UserScope us; p->t = q->t; p->rewrites = q->rewrites; p->hash = q->hash; }
      break;
    }
    case K::HomRebuild:
    {
      auto p = pick_hom(op.a);
      if (not p) break;
      Hom h = p->h;
      TermPtr t = p->t;
      const unsigned n = p->rewrites;
      if (n > 3) break;
      Hom h2 = h;
      if (r.chance(1, 4)) ord_renew(t->sh);
      attempt(op, "building an operation again", [&]{ h2 = hom(*t); for (unsigned i = 0; i < n; ++i) h2 = sdd::rewrite(*ord(t->sh).o, h2); });
      if (oracles() & o_eq)
      {
        if (not (h2 == h) or h2 != h) fail("hom-canonical", "an operation built twice from the same parts compares different: %s", show_term(S, *t).c_str());
        if (std::hash<Hom>()(h2) != std::hash<Hom>()(h)) fail("hom-canonical", "an operation built twice from the same parts hashes differently: %s", show_term(S, *t).c_str());
        if (h < h2 or h2 < h) fail("hom-canonical", "equal operations are ordered");
        for (auto& q : homs) if (q and q->h != h and (q->h < h) == (h < q->h)) fail("hom-canonical", "of two different operations, not exactly one comes before the other");
      }
      if (oracles() & o_eq) check_alike(h, t, op.b);
      break;
    }
    case K::HomRegroup:
    {
      const bool inter = op.c & 1;
      TermGen tg{S, inds, maxh};
      std::vector<TermPtr> parts;
      const unsigned n = r.chance(1, 80) ? r.range(100, 300) : r.chance(1, 10) ? r.range(6, 24) : r.range(2, 5);
      unsigned room = 1000;
      for (unsigned i = 0; i < n; ++i)
      {
        std::vector<HSlot*> c;
        for (auto& q : homs) if (q and q->t->sh == any and q->rewrites == 0 and (not inter or q->t->selector) and weight(*q->t) <= room) c.push_back(q.get());
        if (not c.empty() and r.chance(1, 3)) { parts.push_back(c[r.below(c.size())]->t); room -= weight(*parts.back()); }
        else parts.push_back(tg.gen(r, any, n > 24 ? 0 : r.below(3), inter));
      }
      // another arrangement: permuted, with repetitions, grouped
      std::vector<TermPtr> q = parts;
      const unsigned dup = r.below(3);
      for (unsigned i = 0; i < dup; ++i) q.push_back(parts[r.below(n)]);
      r.shuffle(q);
      auto group = [&](std::vector<TermPtr> v)
      {
        auto t = std::make_shared<Term>();
        t->t = inter ? T::Inter : T::Sum; t->sh = any; t->ch = std::move(v);
        return t;
      };
      while (q.size() > 2 and r.chance(1, 2))
      {
        const unsigned i = r.below(q.size() - 1), k = r.range(1, r.chance(1, 3) ? q.size() - i : std::min<std::uint64_t>(3, q.size() - i));
        std::vector<TermPtr> in(q.begin() + i, q.begin() + i + k);
        q.erase(q.begin() + i, q.begin() + i + k);
        q.insert(q.begin() + r.below(q.size() + 1), group(in));
      }
      auto t1 = group(parts), t2 = group(q);
      Hom a = sdd::id<C>(), b = sdd::id<C>();
      attempt(op, "building an operation from parts", [&]{ a = hom(*t1); b = hom(*t2); });
      if ((oracles() & o_eq) and (a != b or std::hash<Hom>()(a) != std::hash<Hom>()(b)))
        fail("hom-canonical", "the same operands in another order, repeated or grouped, give a different operation: %s and %s", show_term(S, *t1).c_str(), show_term(S, *t2).c_str());
      if (r.chance(1, 2))
      {
        auto hs = std::make_unique<HSlot>(HSlot{b, t2, 0, std::hash<Hom>()(b)});
        for (auto& c : t2->ch) t2->selector = t2->selector and c->selector;
        LibScope ls;
        auto& d = homs[op.d % homs.size()];
        UserScope us;
        d = std::move(hs);
      }
      break;
    }

    case K::GenNew:
    {
      auto p = pick(op.a);
      if (not p) break;
      SDD x = p->x;
      auto g = std::make_unique<GSlot>();
      g->sh = p->sh; g->m = p->m; g->seen = MSet(p->m.n); g->n = 0;
      if (g->m.count() > 1500) break;
      attempt(op, "starting an enumeration", [&]
      {
        const auto before = heap_failures_fired();
        try { Gen q = x.paths(); UserScope us; g->g.reset(new Gen(std::move(q))); }
        catch (std::bad_alloc&) { if (heap_failures_fired() != before) heap_disown_since_failure(); throw; }
      });
      auto& d = gens[op.d % gens.size()];
      if (d) hit(f_gen_abandon);
      { LibScope ls; if (d) d->g.reset(); UserScope us; d = std::move(g); }
      gen_take(*d);
      break;
    }
    case K::GenStep:
    {
      unsigned n = 0;
      for (auto& g : gens) n += g != nullptr;
      if (not n) break;
      unsigned k = op.a % n, i = 0;
      for (;; ++i) if (gens[i] and k-- == 0) break;
      if (n > 1) hit(f_gen_switch);
      exec_gen_step(*gens[i], op);
      break;
    }
    case K::GenDrop:
    {
      auto& d = gens[op.a % gens.size()];
      if (not d) break;
      hit(f_gen_abandon);
      LibScope ls;
      d->g.reset();
      UserScope us;
      d.reset();
      break;
    }

    case K::Count:
    {
      auto p = pick(op.a);
      if (not p) break;
      Slot q = *p;
      bool ok = false;
      std::string got;
      attempt(op, "counting", [&]{ auto n = q.x.size(); UserScope us; ok = n == boost::multiprecision::cpp_int(q.m.count()); if (not ok) got = n.str(); });
      if (not ok) fail("count", "size() is %s for %s", got.c_str(), show(S, q.sh, q.m).c_str());
      ev(q.m.count());
      break;
    }
    case K::CountBig: exec_count_big(op); break;
    case K::Observe: exec_observe(op); break;
    case K::Bad: exec_bad(op); break;
    case K::BadDeep: exec_bad_deep(op); break;
    case K::BadArg:
    {
      hit(f_top);
      auto& o = ord(any);
      Ident id;
      mk_ident(id, 63, 63);
      attempt(op, "a request with an invalid argument", [&]
      {
        bool refused = false;
        try
        {
          switch (op.b % 4)
          {
            case 0: { std::vector<Hom> v; sdd::sum(*o.o, v.begin(), v.end()); break; }
            case 1: { std::vector<Hom> v; sdd::intersection(*o.o, v.begin(), v.end()); break; }
            case 2: { FnSpec f; { UserScope us; f = random_fn(r, wc.D, -1); } int k = fn_id(f); fun_hom(*o.o, id, k); break; }
            default: sdd::local(id, *o.o, hom(*std::make_shared<Term>())); break;
          }
        }
        catch (std::invalid_argument&) { refused = op.b % 4 < 2; }
        catch (sdd::identifier_not_found_error<C>&) { refused = op.b % 4 >= 2; }
        if (not refused) fail("refused", "a request with an invalid argument is not refused as such");
      });
      break;
    }
    case K::ResetHom:
    {
      hit(f_reset);
      if (R.depth) hit(f_reset_nested);
      LibScope ls;
      man->reset_hom_cache();
      if ((oracles() & o_resetsize) and man->hom_cache_stats().size != 0) fail("reset", "the operation cache holds %zu entries after it was cleared", man->hom_cache_stats().size);
      break;
    }
    case K::Lru: if (R.depth == 0) exec_lru(op); break;
    case K::Quiesce: if (R.depth == 0) exec_quiesce(op); break;
    case K::VMk: case K::VIns: case K::VErase: case K::VBin: case K::VCopy: case K::VAssign: case K::VDrop: case K::VQuery: exec_val(op); break;
    case K::Init2: exec_life(op); break;
    case K::Restart: case K::FailInit: if (R.depth == 0) exec_life(op); break;
    case K::Churn:
    {
      const ShapeId s = any;
      std::vector<MSet> ms;
      const unsigned n = 2 + op.d % 6;
      for (unsigned i = 0; i <= n; ++i) ms.push_back(random_set(r, s));
      attempt(op, "a burst of work", [&]
      {
        for (unsigned i = 0; i < n; ++i)
        {
          SDD a = build(s, ms[i], (op.c >> i) & 0xfff), b = build(s, ms[i + 1], (op.a >> i) & 0xfff);
          a = i % 3 == 0 ? a + b : i % 3 == 1 ? a & b : a - b;
          UserScope us;
          check_result(a, s, i % 3 == 0 ? ms[i] | ms[i + 1] : i % 3 == 1 ? ms[i] & ms[i + 1] : ms[i] - ms[i + 1], "a burst of work");
        }
      });
      break;
    }
    case K::Ord: exec_ord(op); break;
    case K::Force: exec_force(op); break;
    case K::Wide: exec_wide(op); break;
    case K::Crowd: exec_crowd(op); break;
    case K::Storm: exec_storm(op); break;
    case K::COUNT_: break;
  }
}

// Operations that compare equal act alike.
template <class C> void World<C>::check_alike(const Hom& h, const TermPtr& t, std::uint32_t seed)
{
  for (auto& q : homs) if (q and q->h == h and q->t->sh == t->sh and q->t != t)
  {
    Rng r(seed);
    const auto u = S[t->sh].universe;
    auto same = [&](const MSet& x)
    {
      if (I.eval(*t, x) != I.eval(*q->t, x)) fail("hom-canonical", "two operations that act differently compare equal: %s and %s", show_term(S, *t).c_str(), show_term(S, *q->t).c_str());
    };
    for (unsigned k = 0; k < std::min(u, 64u); ++k) { MSet x(u); x.set(u <= 64 ? k : r.below(u)); same(x); }
    for (unsigned k = 0; k < 3; ++k) same(random_set(r, t->sh));
    hit(c_eqpairs);
  }
}

template <class C> void World<C>::exec_apply(const Op& op, bool twice)
{
  auto p = pick_hom(op.a);
  if (not p) return;
  Hom h = p->h;
  TermPtr t = p->t;
  auto x = operand(op.b, t->sh);
  auto& o = ord(t->sh);
  MSet m = I.eval(*t, x.m);
  SDD y;
  logf("  %s%s on %s", show_term(S, *t).c_str(), p->rewrites ? " (rewritten)" : "", show(S, x.sh, x.m).c_str());
  attempt(op, "applying an operation", [&]
  {
    CS a[4], b[4];
    const bool measured = (oracles() & o_stats) and R.depth == 0;
    if (measured) stats(a);
    try { y = (op.c & 1) ? h(*o.o, x.x) : h(*o.o, SDD(x.x)); }
    catch (...)
    {
      // user code ran, so something was looked up
      if (measured and frame and frame->thrown)
      {
        stats(b);
        if (b[3].hits + b[3].misses + b[3].filtered == a[3].hits + a[3].misses + a[3].filtered) fail("cache", "a request that failed in user code was counted neither as hit nor as miss nor as filtered");
      }
      throw;
    }
  });
  check_result(y, t->sh, m, "applying an operation");
  if (twice)
  {
    const auto cb = cb_total;
    CS a[4], b[4];
    stats(a);
    SDD z;
    Op o2 = op;
    o2.f = Fault::None; o2.re = 0;
    attempt(o2, "applying an operation again", [&]{ z = h(*o.o, x.x); });
    stats(b);
    if (z != y) { if (oracles() & (o_eq | o_rebuild | o_stats)) fail("repeat", "applying the same operation twice gives different diagrams"); }
    check_result(z, t->sh, m, "applying an operation again");
    // constants and identity are not remembered
    if ((oracles() & o_stats) and R.depth == 0 and op.f == Fault::None and not op.re and not x.m.empty() and t->t != T::Const and h != sdd::id<C>()
        and b[3].filtered == a[3].filtered)
    {
      hit(c_lru);
      if (cb_total != cb or b[3].misses != a[3].misses or b[3].hits != a[3].hits + 1)
        fail("cache", "a request just computed is computed again (%llu callbacks, %zu lookups missed, %zu hit): %s", static_cast<unsigned long long>(cb_total - cb), b[3].misses - a[3].misses, b[3].hits - a[3].hits, show_term(S, *t).c_str());
    }
  }
  put(op.d, y, t->sh, m, "applying an operation");
}

// ---- enumerations -------------------------------------------------------------------------------
template <class C> void World<C>::gen_take(GSlot& g)
{
  LibScope ls;
  if (not *g.g)
  {
    if (g.seen != g.m) fail("paths", "an enumeration ended after %s, the diagram holds %s", show(S, g.sh, g.seen).c_str(), show(S, g.sh, g.m).c_str());
    ev(0x9e);
    g.g.reset();
    for (auto& q : gens) if (q.get() == &g) { UserScope us; q.reset(); return; }
    return;
  }
  const auto& p = g.g->get();
  UserScope us;
  hit(c_paths);
  if (p.empty() and g.m.empty()) return;
  if (p.size() != S[g.sh].nflat) fail("paths", "an enumerated path has %zu levels, the layout %s has %u variables", p.size(), S[g.sh].sig.c_str(), S[g.sh].nflat);
  std::vector<std::uint32_t> masks;
  for (auto& v : p) { masks.push_back(unvals(v)); if (masks.back() == 0) fail("paths", "an enumerated path has an empty set of values"); }
  auto c = cube(g.sh, masks);
  if (not (c - g.m).empty()) fail("paths", "an enumerated path %s is not within the diagram %s", show(S, g.sh, c).c_str(), show(S, g.sh, g.m).c_str());
  if (not (c & g.seen).empty()) fail("paths", "an enumerated path %s overlaps an earlier one", show(S, g.sh, c).c_str());
  g.seen |= c;
  ++g.n;
  ev(c.hash());
}

template <class C> void World<C>::exec_gen_step(GSlot& g, const Op& op)
{
  const unsigned n = op.f == Fault::None ? 1 + op.b % 3 : 1;
  for (unsigned i = 0; i < n; ++i)
  {
    bool broken = false;
    Gen& q = *g.g;
    attempt(op, "advancing an enumeration", [&]{ if (broken) return; try { q(); } catch (...) { broken = true; throw; } });
    if (broken)
    {
      LibScope ls;
      g.g.reset();
      for (auto& d : gens) if (d.get() == &g) { UserScope us; d.reset(); return; }
      return;
    }
    bool more = false;
    { LibScope ls; more = static_cast<bool>(q); }
    gen_take(g);
    if (not more) return;
  }
}

// ---- observers ----------------------------------------------------------------------------------
template <class C> struct Parse
{
  World<C>& w;
  const std::string& s;
  std::size_t i = 0;
  bool ok = true;

  bool eat(const char* t) { std::size_t n = std::strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
  void need(const char* t) { if (not eat(t)) ok = false; }
  unsigned num() { std::size_t j = i; unsigned long v = 0; while (i < s.size() and s[i] >= '0' and s[i] <= '9') v = v * 10 + (s[i++] - '0'); if (i == j) ok = false; return v; }
  std::uint32_t values()
  {
    std::uint32_t m = 0;
    need("{");
    if (eat("}")) return 0;
    do
    {
      unsigned long a = num(), b = a;
      if (eat("..")) b = num();
      if (b - a > 100) ok = false;
      for (unsigned long v = a; ok and v <= b; ++v) { auto it = w.vinv.find(v); if (it == w.vinv.end()) ok = false; else m |= 1u << it->second; }
    } while (ok and eat(","));
    need("}");
    return m;
  }
  MSet diagram(ShapeId sh)
  {
    auto& S = w.S;
    MSet r(S[sh].universe);
    if (not ok) return r;
    if (eat("|0|")) return r;
    if (eat("|1|")) { if (S[sh].kind != Kind::Term) ok = false; else r.set(0); return r; }
    if (S[sh].kind == Kind::Term) { ok = false; return r; }
    if (num() != S[sh].var) ok = false;
    need("[");
    const auto tu = S[S[sh].tail].universe;
    do
    {
      MSet head(S.head(sh));
      if (S[sh].kind == Kind::Flat) { auto m = values(); for (unsigned d = 0; d < S.D; ++d) if (m >> d & 1) head.set(d); }
      else head = diagram(S[sh].nested);
      need(" --> ");
      auto t = diagram(S[sh].tail);
      if (not ok) return r;
      head.each([&](std::uint32_t v){ r.or_at(v * tu, t); });
    } while (ok and eat(" || "));
    need("]");
    return r;
  }
};

struct Sink : std::streambuf
{
  std::string got;
  int_type overflow(int_type c) override { UserScope us; if (c != traits_type::eof()) got.push_back(static_cast<char>(c)); return 0; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { UserScope us; got.append(p, n); return n; }
};

inline std::size_t occurrences(const std::string& s, const char* t)
{
  std::size_t n = 0, k = std::strlen(t);
  for (std::size_t i = s.find(t); i != std::string::npos; i = s.find(t, i + k)) ++n;
  return n;
}

template <class C> void World<C>::exec_observe(const Op& op)
{
  auto p = pick(op.a);
  if (not p) return;
  Slot q = *p;
  const bool gaps = S[q.sh].gaps;
  const Order o = *ord(gaps ? shapes[0] : q.sh).o;
  const auto fired = heap_failures_fired();
  std::size_t before[3], after[3];
  auto sizes = [&](std::size_t (&v)[3]) { LibScope ls; v[0] = man->sdd_stats().size; v[1] = man->hom_stats().size; v[2] = stat_size(man->values_stats()); };
  sizes(before);
  Metrics me;
  metrics(S, q.sh, q.m, me);
  const unsigned k = gaps and op.b % 10 / 2 == 1 ? 0 : op.b % 10;
  auto hp = pick_hom(op.c);
  Hom h = hp ? hp->h : sdd::id<C>();
  if (k < 2)
  {
    Sink b;
    { std::ostream os(&b); attempt(op, "printing", [&]{ { UserScope us; b.got.clear(); } os << q.x; }); }
    Parse<C> ps{*this, b.got};
    auto m = ps.diagram(q.sh);
    if (heap_failures_fired() == fired and (not ps.ok or ps.i != b.got.size() or m != q.m))
      fail("print", "the printed form of %s does not denote it: %s", show(S, q.sh, q.m).c_str(), b.got.substr(0, 300).c_str());
  }
  else if (k < 4)
  {
    Sink b;
    { std::ostream os(&b); attempt(op, "exporting to DOT", [&]{ { UserScope us; b.got.clear(); } os << sdd::tools::dot(q.x, o); }); }
    const auto& t = b.got;
    const auto nodes = occurrences(t, " [label=\"") - occurrences(t, "[shape=square,label=\"");
    const auto flat = [&]{ std::size_t n = 0, i = 0; while ((i = t.find(" -> ", i)) != std::string::npos) { auto e = t.find('\n', i); if (t.substr(i, e - i).find("[label=") != std::string::npos) ++n; ++i; } return n; }();
    const auto hier = occurrences(t, "[style=dotted]");
    const auto all = occurrences(t, " [label=\"") - flat;
    (void)nodes;
    if (heap_failures_fired() == fired and (all != me.flat_nodes + me.hier_nodes or flat != me.flat_arcs or hier != me.hier_arcs))
      fail("dot", "the DOT form of %s has %zu nodes, %zu flat and %zu hierarchical arcs; the reduced form has %u, %u and %u", show(S, q.sh, q.m).c_str(), all, flat, hier, me.flat_nodes + me.hier_nodes, me.flat_arcs, me.hier_arcs);
  }
  else if (k < 7)
  {
    std::pair<unsigned, unsigned> n, a, sn, sa;
    bool freq = true;
    std::size_t bytes = 0, sbytes = 0;
    attempt(op, "measuring", [&]
    {
      n = sdd::tools::nodes(q.x);
      auto f = sdd::tools::arcs(q.x);
      a = sdd::tools::number_of_arcs(f);
      bytes = sdd::tools::size(q.x);
      auto st = sdd::tools::statistics(q.x);
      sn = st.all_nodes(); sa = st.all_arcs(); sbytes = st.bytes();
      UserScope us;
      freq = f.size() == me.freq.size();
      for (auto& kv : me.freq) { auto it = f.find(kv.first); if (it == f.end() or it->second != kv.second) freq = false; }
    });
    if (n != std::make_pair(me.flat_nodes, me.hier_nodes) or sn != n)
      fail("measure", "%u flat and %u hierarchical nodes are reported for %s, its reduced form has %u and %u", n.first, n.second, show(S, q.sh, q.m).c_str(), me.flat_nodes, me.hier_nodes);
    if (a != std::make_pair(me.flat_arcs, me.hier_arcs) or sa != a or not freq)
      fail("measure", "%u flat and %u hierarchical arcs are reported for %s, its reduced form has %u and %u", a.first, a.second, show(S, q.sh, q.m).c_str(), me.flat_arcs, me.hier_arcs);
    const std::size_t want = (me.flat_nodes + me.hier_nodes) * sizeof(typename SDD::unique_type) + me.flat_arcs * sizeof(typename sdd::flat_node<C>::arc_type)
                           + me.hier_arcs * sizeof(typename sdd::hierarchical_node<C>::arc_type) + (me.has_one ? sizeof(sdd::one_terminal<C>) : 0) + (me.has_zero ? sizeof(sdd::zero_terminal<C>) : 0);
    if (bytes != want or sbytes != want) fail("measure", "%zu bytes are reported for %s, its reduced form takes %zu", bytes, show(S, q.sh, q.m).c_str(), want);
    ev(n.first * 7919 + n.second + a.first * 31 + a.second);
  }
  else
  {
    // a stream that fails or throws part-way
    hit(f_stream);
    FaultyBuf b(r_len(op), op.c & 1);
    std::ostream os(&b);
    if (op.c & 2) os.exceptions(std::ios::badbit);
    Op o2 = op;
    attempt(o2, "writing to a failing stream", [&]
    {
      try
      {
        switch (op.d % 4)
        {
          case 0: os << q.x; break;
          case 1: if (gaps) os << q.x; else os << sdd::tools::dot(q.x, o); break;
          case 2: os << h; break;
          default: os << sdd::tools::dot(h); break;
        }
      }
      catch (CbErr3&) {}
      catch (std::ios_base::failure&) {}
    });
    if (b.fired) hit(f_stream_fired);
  }
  if (k == 0 or k == 2)
  {
    Sink b;
    std::ostream os(&b);
    attempt(op, "printing an operation", [&]{ os << h; os << sdd::tools::dot(h); });
  }
  if (k == 5 or k == 9)
  {
    // serialised statistics; what the archive library does without memory is its own affair
    auto arm = heap_suspend();
    Sink good;
    {
      LibScope ls;
      std::ostream os(&good);
      cereal::JSONOutputArchive ar(os);
      ar(cereal::make_nvp("sdd", sdd::tools::statistics(q.x)));
      const std::size_t diagrams = man->sdd_stats().size;
      bool all = Serial<Values>::template manager<C>(ar, *man);
      if (man->sdd_stats().size != diagrams) fail("observer", "serialising statistics changes the number of stored diagrams");
      (void)all;
    }
    auto field = [&](const char* name, std::size_t from) -> long
    {
      auto i = good.got.find(std::string("\"") + name + "\": ", from);
      return i == std::string::npos ? -1 : std::atol(good.got.c_str() + i + std::strlen(name) + 4);
    };
    if (field("flat nodes", 0) != me.flat_nodes or field("hierarchical nodes", 0) != me.hier_nodes or field("flat arcs", 0) != me.flat_arcs or field("hierarchical arcs", 0) != me.hier_arcs)
      fail("measure", "the serialised statistics of %s are wrong: %s", show(S, q.sh, q.m).c_str(), good.got.substr(0, 400).c_str());
    const auto ut = good.got.find("\"SDD unique table\"");
    if (ut != std::string::npos and field("#", ut) != static_cast<long>(before[0])) fail("measure", "the serialised statistics report another number of diagrams than there is");
    hit(f_stream);
    FaultyBuf b(r_len(op), op.c & 1);
    {
      LibScope ls;
      std::ostream os(&b);
      try
      {
        cereal::BinaryOutputArchive ar(os);
        ar(sdd::tools::statistics(q.x));
        Serial<Values>::template manager<C>(ar, *man);
      }
      catch (cereal::Exception&) {}
      catch (CbErr3&) {}
    }
    if (b.fired) hit(f_stream_fired);
    heap_resume(arm);
  }
  sizes(after);
  if (before[0] != after[0] or before[1] != after[1] or before[2] != after[2]) fail("observer", "observing changed what is stored: diagrams %zu to %zu, operations %zu to %zu, values %zu to %zu", before[0], after[0], before[1], after[1], before[2], after[2]);
}

// ---- incompatible operands ----------------------------------------------------------------------
template <class C> bool World<C>::mismatch(ShapeId a, ShapeId b) const { return S[a].kind != S[b].kind or (a and b and S[a].var != S[b].var); }

template <class C> typename World<C>::Slot World<C>::nonempty(std::uint32_t a, ShapeId s)
{
  if (s == 0) { Slot q{sdd::one<C>(), 0, MSet(1), 0}; q.m.set(0); return q; }
  auto q = operand(a, s);
  if (not q.m.empty()) return q;
  q.m.set(a % q.m.n);
  auto arm = heap_suspend();
  { LibScope ls; q.x = state(s, a % q.m.n); }
  heap_resume(arm);
  return q;
}

template <class C> void World<C>::exec_bad(const Op& op)
{
  std::vector<ShapeId> all = shapes;
  all.push_back(0);
  const ShapeId s1 = all[op.a % all.size()];
  std::vector<ShapeId> c;
  for (auto s : all) if (mismatch(s, s1)) c.push_back(s);
  if (c.empty()) return;
  const ShapeId s2 = c[op.b % c.size()];
  auto a = nonempty(op.c, s1), b = nonempty(op.d, s2);
  const unsigned k = op.d % 6;
  // more operands, of either layout; often all but one are of the same
  Rng r(op.b ^ op.c);
  MSet m1 = a.m, m2 = b.m;
  std::vector<SDD> v{a.x, b.x};
  if (k >= 4)
  {
    const unsigned n = r.chance(2, 3) ? 1 : r.range(2, 9), like = r.below(4);
    for (unsigned i = 0; i < n; ++i)
    {
      const bool one = like == 0 ? r.chance(1, 2) : like & 1;
      auto e = nonempty(r.next() & 0x7fffffff, one ? s1 : s2);
      if (one) m1 &= e.m; else m2 &= e.m;
      v.insert(v.begin() + r.below(v.size() + 1), e.x);
    }
  }
  const bool absorbed = m1.empty() or m2.empty();
  const char* nm[] = {"union", "intersection", "difference", "in-place union", "n-ary union", "n-ary intersection"};
  hit(f_top);
  SDD x = a.x;
  bool refused = false;
  attempt(op, "an operation on incompatible diagrams", [&]
  {
    SDD y;
    refused = false;
    try
    {
      switch (k)
      {
        case 0: y = a.x + b.x; break;
        case 1: y = a.x & b.x; break;
        case 2: y = a.x - b.x; break;
        case 3: x += b.x; break;
        case 4: y = sdd::sum<C>(v.begin(), v.end()); break;
        default: y = sdd::intersection<C>(v.begin(), v.end()); break;
      }
    }
    catch (sdd::top<C>& t)
    {
      refused = true;
      if (op.a & 64) { auto arm = heap_suspend(); if (not *t.what()) fail("top", "the incompatibility error has no description"); heap_resume(arm); }
    }
    if (not refused and not (k == 5 and absorbed and y.empty())) fail("accepted", "%s of diagrams with incompatible layouts %s and %s is not refused", nm[k], S[s1].sig.c_str(), S[s2].sig.c_str());
  });
  if (x != a.x) fail("handle", "a refused in-place operation changed its operand");
}

template <class C> void World<C>::exec_bad_deep(const Op& op)
{
  std::vector<ShapeId> all = shapes;
  all.push_back(0);
  const ShapeId s1 = all[op.a % all.size()];
  std::vector<ShapeId> c;
  for (auto s : all) if (mismatch(s, s1)) c.push_back(s);
  if (c.empty()) return;
  const ShapeId s2 = c[op.b % c.size()];
  auto ta = nonempty(op.c, s1), tb = nonempty(op.d, s2);
  const unsigned mode = op.d % 3;
  Rng r(op.c);
  hit(f_top);
  SDD A, B;
  bool overlap = true;
  {
    auto arm = heap_suspend();
    LibScope ls;
    if (mode == 0)
    {
      std::uint32_t m1 = 1 + r.below((1u << wc.D) - 1), m2 = 1 + r.below((1u << wc.D) - 1);
      overlap = m1 & m2;
      A = SDD(40, vals(m1), ta.x);
      B = SDD(40, vals(m2), tb.x);
      // below a common prefix
      for (unsigned k = r.below(3), v = 41; k--; ++v)
      {
        auto m3 = 1 + r.below((1u << wc.D) - 1), m4 = 1 + r.below((1u << wc.D) - 1);
        overlap = overlap and (m3 & m4);
        A = SDD(v, vals(m3), A);
        B = SDD(v, vals(m4), B);
      }
    }
    else if (mode == 1)
    {
      const ShapeId n = shapes[r.below(shapes.size())];
      auto n1 = nonempty(r.next() & 0x7fffffff, n), n2 = nonempty(r.next() & 0x7fffffff, n);
      overlap = not (n1.m & n2.m).empty();
      A = SDD(40, n1.x, ta.x);
      B = SDD(40, n2.x, tb.x);
    }
    else
    {
      A = SDD(40, ta.x, sdd::one<C>());
      B = SDD(40, tb.x, sdd::one<C>());
      if (s1 == 0 or s2 == 0) { heap_resume(arm); return; }
    }
    heap_resume(arm);
  }
  attempt(op, "an operation on deeply incompatible diagrams", [&]
  {
    for (unsigned k = 0; k < 3; ++k)
    {
      SDD y;
      bool refused = false;
      try { y = k == 0 ? A + B : k == 1 ? A & B : A - B; }
      catch (sdd::top<C>&) { refused = true; }
      if (overlap)
      {
        if (not refused) fail("accepted", "%s of diagrams incompatible below a shared prefix is not refused", k == 0 ? "union" : k == 1 ? "intersection" : "difference");
      }
      else if (not refused and ((k == 1 and not y.empty()) or (k == 2 and y != A))) fail("accepted", "%s of disjoint diagrams gives a wrong result", k == 1 ? "intersection" : "difference");
    }
  });
}

// ---- caches -------------------------------------------------------------------------------------
template <class C> void World<C>::exec_lru(const Op& op)
{
  Rng r(op.c);
  const unsigned which = op.a % 4;     // difference, intersection, sum, operations
  HSlot* hs = nullptr;
  ShapeId s = shapes[op.b % shapes.size()];
  if (which == 3)
  {
    hs = pick_hom(op.b);
    if (not hs or hs->t->t == T::Const or hs->h == sdd::id<C>()) return;
    s = hs->t->sh;
  }
  const std::uint64_t capacity = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(0.85 * cap(which)));
  const std::uint64_t window = capacity / 2 > 0 ? capacity / 2 - 1 : 0;
  const unsigned n = 2 + r.below(5);
  std::vector<MSet> ms;
  std::vector<SDD> xs;
  for (unsigned i = 0; i < n; ++i)
  {
    MSet m = random_set(r, s);
    bool dup = m.empty();
    for (auto& q : ms) dup = dup or q == m;
    if (dup) continue;
    LibScope ls;
    xs.push_back(by_residuals(s, m, 0));
    UserScope us;
    ms.push_back(m);
  }
  if (ms.size() < (which == 3 ? 1 : 2)) return;
  std::map<std::pair<unsigned, unsigned>, std::uint64_t> last;
  const unsigned steps = 10 + r.below(40);
  for (unsigned k = 0; k < steps; ++k)
  {
    unsigned i = r.below(ms.size()), j = r.below(ms.size());
    if (which != 3) { if (i == j) continue; if (which != 0 and i > j) std::swap(i, j); }
    else j = 0;
    CS a[4], b[4];
    stats(a);
    SDD y;
    MSet m;
    Op o2 = op;
    o2.f = Fault::None; o2.re = 0;
    attempt(o2, "a repeated request", [&]
    {
      switch (which)
      {
        case 0: y = xs[i] - xs[j]; break;
        case 1: y = xs[i] & xs[j]; break;
        case 2: y = xs[i] + xs[j]; break;
        default: y = hs->h(*ord(s).o, xs[i]); break;
      }
    });
    m = which == 0 ? ms[i] - ms[j] : which == 1 ? ms[i] & ms[j] : which == 2 ? ms[i] | ms[j] : I.eval(*hs->t, ms[i]);
    check_result(y, s, m, "a repeated request");
    stats(b);
    auto& q = last[{i, j}];
    const auto clock0 = a[which].hits + a[which].misses, clock1 = b[which].hits + b[which].misses;
    if (b[which].filtered != a[which].filtered) break;      // not remembered by design
    if (clock1 == clock0) fail("cache", "a request to the cache is counted neither as hit nor as miss");
    if (q and clock0 - (q - 1) <= window)
    {
      hit(c_lru);
      if (b[which].misses != a[which].misses) fail("cache", "a request used %llu lookups ago is computed again, in a cache for %llu entries", static_cast<unsigned long long>(clock0 - (q - 1)), static_cast<unsigned long long>(capacity));
    }
    q = clock1 + 1;
    if (b[which].size > cap(which)) fail("cache", "a cache configured for %llu entries holds %zu", static_cast<unsigned long long>(cap(which)), b[which].size);
    if (r.chance(1, 40) and which == 3) { LibScope ls; man->reset_hom_cache(); UserScope us; last.clear(); }
  }
}

// Fill the caches with a fixed set of requests, so that nothing else stays in them.
template <class C> void World<C>::flush(std::vector<SDD>& pool)
{
  const unsigned n = 20;
  std::vector<SDD> one(n);
  for (unsigned i = 0; i < n; ++i) { one[i] = SDD(0, VT<Values>::mk({i}, 0), sdd::one<C>()); pool.push_back(one[i]); }
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < i; ++j)
    {
      SDD two = SDD(0, VT<Values>::mk({j, i}, 0), sdd::one<C>());
      pool.push_back(two);
      SDD t = one[i] + one[j];
      t = two & one[i];
      t = two & one[j];
      t = two - one[i];
      t = two - one[j];
    }
}

template <class C> void World<C>::measure(std::size_t (&v)[4])
{
  LibScope ls;
  man->reset_hom_cache();
  std::vector<SDD> pool;
  flush(pool);
  {
    // leave a known content in the scratch of rewriting
    auto& o = ord(scratch);
    FnSpec f;
    { UserScope us; f.kind = 0; f.out.assign(wc.D, 1); }
    const int k = fn_id(f);
    std::vector<Hom> v{fun_hom(*o.o, o.flat[0], k), fun_hom(*o.o, o.flat[1], k), sdd::id<C>()};
    Hom h = sdd::rewrite(*o.o, sdd::fixpoint(sdd::sum(*o.o, v.begin(), v.end())));
    (void)h;
  }
  man->reset_hom_cache();
  v[0] = man->sdd_stats().size;
  v[1] = man->hom_stats().size;
  v[2] = stat_size(man->values_stats());
  v[3] = Payload<C>::live();
}

template <class C> void World<C>::exec_quiesce(const Op&)
{
  if (not have_base) return;
  check_all("before dropping everything");
  drop_all();
  hit(c_quiesce);
  std::size_t v[4];
  measure(v);
  if (v[0] != base[0]) fail("reclaim", "nothing is held and the caches have turned over, but %zu diagrams are stored instead of %zu", v[0], base[0]);
  if (v[1] != base[1]) fail("reclaim", "nothing is held and the caches have turned over, but %zu operations are stored instead of %zu", v[1], base[1]);
  if (v[2] != base[2]) fail("reclaim", "nothing is held and the caches have turned over, but %zu sets of values are stored instead of %zu", v[2], base[2]);
  if (v[3] != base[3]) fail("reclaim", "nothing is held and the caches have turned over, but %zu user objects are alive instead of %zu", v[3], base[3]);
}

// ---- sets of values -----------------------------------------------------------------------------
template <class C> void World<C>::exec_val(const Op& op)
{
  Rng r(op.c);
  auto pickv = [&](std::uint32_t a) -> VSlot* { std::vector<VSlot*> c; for (auto& x : vals_) if (x) c.push_back(x.get()); return c.empty() ? nullptr : c[a % c.size()]; };
  auto store = [&](const Values& v, const std::set<unsigned>& m, const char* what)
  {
    std::set<unsigned> got;
    VT<Values>::each(v, [&](unsigned x){ got.insert(x); });
    if (got != m) fail("values", "%s: the set of values holds %zu elements, expected %zu or other ones", what, got.size(), m.size());
    if (v.empty() != m.empty() or v.size() != m.size()) fail("values", "%s: size() or empty() is wrong", what);
    for (auto& q : vals_) if (q)
    {
      const bool same = q->m == m;
      if ((q->v == v) != same or (q->v != v) == same) fail("values", "%s: two sets of values compare %s, their contents are %s", what, same ? "different" : "equal", same ? "equal" : "different");
      if (same and std::hash<Values>()(q->v) != std::hash<Values>()(v)) fail("values", "%s: equal sets of values hash differently", what);
      if (same and (q->v < v or v < q->v)) fail("values", "%s: equal sets of values are ordered", what);
      if (not same and (q->v < v) == (v < q->v)) fail("values", "%s: of two different sets of values, not exactly one comes before the other", what);
      for (auto& p : vals_) if (p and q->v < v and v < p->v and not (q->v < p->v)) fail("values", "%s: the order of sets of values is not transitive", what);
    }
    LibScope ls;
    auto& d = vals_[op.d % vals_.size()];
    UserScope us;
    auto n = std::make_unique<VSlot>(VSlot{v, m});
    d = std::move(n);
  };
  ev(op.a);
  switch (op.k)
  {
    case K::VMk:
    {
      std::vector<unsigned> x;
      std::set<unsigned> m;
      const bool large = r.chance(1, 40);
      const unsigned n = large ? r.range(40, 700) : r.below(r.chance(1, 6) ? 40 : 8);
      for (unsigned i = 0; i < n; ++i) { x.push_back(large ? VT<Values>::rnd_wide(r) : VT<Values>::rnd(r)); m.insert(x.back()); }
      Values v;
      attempt(op, "building a set of values", [&]{ v = VT<Values>::mk(x, op.b); });
      store(v, m, "building a set of values");
      break;
    }
    case K::VIns:
    {
      auto p = pickv(op.a);
      if (not p) break;
      VSlot q = *p;
      const unsigned x = r.chance(1, 3) and not q.m.empty() ? *q.m.begin() : VT<Values>::rnd(r);
      const bool was = q.m.count(x);
      Values v = q.v;
      attempt(op, "inserting a value", [&]{ v = q.v; insert_value(v, x, was); });
      auto m = q.m;
      m.insert(x);
      store(v, m, "inserting a value");
      break;
    }
    case K::VErase:
    {
      auto p = pickv(op.a);
      if (not p) break;
      VSlot q = *p;
      unsigned x = VT<Values>::rnd(r);
      if (r.chance(2, 3) and not q.m.empty()) { auto it = q.m.begin(); std::advance(it, r.below(q.m.size())); x = *it; }
      Values v = q.v;
      auto m = q.m;
      m.erase(x);
      attempt(op, "erasing a value", [&]{ v = q.v; erase_value(v, x, q.m.count(x)); });
      store(v, m, "erasing a value");
      break;
    }
    case K::VBin:
    {
      auto p = pickv(op.a), q = pickv(op.b);
      if (not p) break;
      VSlot a = *p, b = *q;
      std::set<unsigned> m;
      Values v;
      const char* what[] = {"union of values", "intersection of values", "difference of values"};
      const unsigned k = op.c % 3;
      if (k == 0) { m = a.m; m.insert(b.m.begin(), b.m.end()); }
      else for (auto x : a.m) if ((b.m.count(x) != 0) == (k == 1)) m.insert(x);
      attempt(op, what[k], [&]{ v = k == 0 ? sum(a.v, b.v) : k == 1 ? intersection(a.v, b.v) : difference(a.v, b.v); });
      store(v, m, what[k]);
      break;
    }
    case K::VCopy: { auto p = pickv(op.a); if (p) { VSlot q = *p; store(q.v, q.m, "copying a set of values"); } break; }
    case K::VAssign:
    {
      auto p = pickv(op.a), q = pickv(op.b);
      if (not p) break;
      LibScope ls;
      if (op.c & 1) { const Values& z = p->v; p->v = z; }
      else { p->v = q->v; UserScope us; auto m = q->m; p->m = m; }
      check_val(*p, "assigning a set of values");
      break;
    }
    case K::VDrop: { LibScope ls; auto& d = vals_[op.a % vals_.size()]; UserScope us; d.reset(); break; }
    default:
    {
      auto p = pickv(op.a);
      if (not p) break;
      VSlot q = *p;
      attempt(op, "examining a set of values", [&]{ query_value(q, r); });
    }
  }
}

template <class C> template <std::size_t N> void World<C>::insert_value(sdd::values::bitset<N>& v, unsigned x, bool) { v.insert(x); }
template <class C> template <class T> void World<C>::insert_value(sdd::values::flat_set<T>& v, unsigned n, bool was)
{
  const T x = VT<Values>::enc(n);
  auto p = v.insert(x);
  if (p.second == was) fail("values", "insert() reports %s for a value that was %s", p.second ? "insertion" : "no insertion", was ? "there" : "not there");
  if (p.first == v.end() or *p.first != x) fail("values", "insert() does not return the position of the value");
}
template <class C> template <std::size_t N> void World<C>::erase_value(sdd::values::bitset<N>& v, unsigned x, bool) { sdd::values::bitset<N> y; y.insert(x); v = difference(v, y); }
template <class C> template <class T> void World<C>::erase_value(sdd::values::flat_set<T>& v, unsigned x, bool was)
{
  if (v.erase(VT<Values>::enc(x)) != (was ? 1u : 0u)) fail("values", "erase() reports a wrong number of values");
}
template <class V> struct QueryValue;
template <std::size_t N> struct QueryValue<sdd::values::bitset<N>> { template <class Q> static void go(Q& q, Rng& r)
{
  UserScope us;
  for (unsigned i = 0; i < N; ++i) if (q.v.test(i) != (q.m.count(i) != 0)) fail("values", "test() is wrong");
  const unsigned k = r.below(N);
  auto a = q.v << k, b = q.v >> k;
  for (unsigned i = 0; i < N; ++i)
  {
    if (a.test(i) != (i >= k and q.m.count(i - k))) fail("values", "shifting left is wrong");
    if (b.test(i) != (i + k < N and q.m.count(i + k))) fail("values", "shifting right is wrong");
  }
} };
template <class T> struct QueryValue<sdd::values::flat_set<T>> { template <class Q> static void go(Q& q, Rng& r)
{
  using Values = sdd::values::flat_set<T>;
  UserScope us;
  auto same = [](const T& a, unsigned b) { return dec_value(a) == b; };
  if (static_cast<std::size_t>(q.v.end() - q.v.begin()) != q.m.size() or not std::equal(q.v.begin(), q.v.end(), q.m.begin(), same)) fail("values", "iteration does not give the values in order");
  if (not std::equal(q.v.rbegin(), q.v.rend(), q.m.rbegin(), same)) fail("values", "reverse iteration does not give the values in order");
  if (q.v.cbegin() != q.v.begin() or q.v.cend() != q.v.end() or q.v.crbegin() != q.v.rbegin() or q.v.crend() != q.v.rend()) fail("values", "the constant iterators are others");
  for (unsigned k = 0; k < 6; ++k)
  {
    unsigned n = k and not q.m.empty() and r.chance(1, 2) ? *q.m.rbegin() : VT<Values>::rnd(r);
    if (not q.m.empty() and r.chance(1, 3)) { auto it = q.m.begin(); std::advance(it, r.below(q.m.size())); n = *it + r.below(2); }
    const T x = VT<Values>::enc(n);
    if (q.v.count(x) != q.m.count(n)) fail("values", "count() is wrong");
    auto f = q.v.find(x);
    if ((f != q.v.end()) != (q.m.count(n) != 0) or (f != q.v.end() and *f != x)) fail("values", "find() is wrong");
    auto l = q.v.lower_bound(x), u = q.v.upper_bound(x);
    auto ml = q.m.lower_bound(n), mu = q.m.upper_bound(n);
    if (l - q.v.begin() != std::distance(q.m.begin(), ml) or u - q.v.begin() != std::distance(q.m.begin(), mu)) fail("values", "lower_bound() or upper_bound() is wrong");
  }
} };
template <class C> void World<C>::query_value(VSlot& q, Rng& r) { QueryValue<Values>::go(q, r); }

// ---- starting and stopping ----------------------------------------------------------------------
template <class C> void World<C>::exec_life(const Op& op)
{
  bool conflict = false;
  for (auto& w : R.worlds) if (w.get() != this and w->up() and share_values(wc.kind, w->kind())) conflict = true;
  if (not man)
  {
    if (conflict)
    {
      if (try_start()) fail("init", "a configuration that shares the stored sets of values with a live one was initialised");
      hit(f_init_refused);
      ev(0x1f);
      R.check_all("after a refused initialisation");
    }
    else { start(); ev(0x15); }
    return;
  }
  if (op.k == K::Init2)
  {
    bool refused = false;
    auto cf = conf();
    {
      LibScope ls;
      try { auto m = sdd::init<C>(cf); (void)m; }
      catch (std::runtime_error&) { refused = true; }
      catch (std::exception& e) { fail("init", "a second initialisation fails with an unexpected error: %s", e.what()); }
    }
    if (not refused) fail("init", "a second initialisation is not refused");
    hit(f_init_refused);
    check_all("after a refused initialisation");
    // the manager may be held more than once
    if (op.b % 3 == 0) { LibScope ls; auto m2 = std::make_unique<Manager>(*man); std::swap(m2, man); m2.reset(); }
    return;
  }
  finish();
  hit(f_restart);
  R.check_no_leak("after stopping");
  if (op.k == K::FailInit)
  {
    hit(f_init_failed);
    const auto fired = heap_failures_fired();
    bool ok = true;
    heap_arm_failure(1 + op.a % 45, 1);
    try { init_raw(); }
    catch (std::bad_alloc&) { ok = false; }
    catch (std::exception& e) { heap_disarm(); fail("init", "initialisation without memory fails with an unexpected error: %s", e.what()); }
    heap_disarm();
    if (ok and not man) fail("init", "initialisation gave no manager");
    if (ok) { cur() = this; finish_quietly(); }
    else if (heap_failures_fired() == fired) fail("init", "initialisation reports lack of memory although no allocation failed");
    ev(ok);
    R.check_no_leak("after an initialisation that failed");
  }
  if (op.k == K::Restart and op.b % 3 == 0 and R.worlds.size() > 1) return;       // stay down
  start();
}

// ---- orders -------------------------------------------------------------------------------------
template <class C> void World<C>::exec_ord(const Op& op)
{
  Rng r(op.c);
  // a random tree of identifiers
  struct Node { Ident id; bool art; std::vector<Node> in; };
  unsigned uniq = 1;
  std::vector<Ident> used;
  bool dup = false;
  const bool dups = r.chance(1, 3);
  std::function<std::vector<Node>(unsigned, unsigned)> gen = [&](unsigned n, unsigned depth)
  {
    std::vector<Node> v;
    while (n)
    {
      Node x;
      x.art = false;
      if (dups and not used.empty() and r.chance(1, 8)) { x.id = used[r.below(used.size())]; dup = true; }
      else mk_ident(x.id, r.below(40), uniq++);
      used.push_back(x.id);
      --n;
      if (n and depth and r.chance(1, 3))
      {
        const unsigned k = r.range(1, n);
        n -= k;
        x.in = gen(k, depth - 1);
      }
      v.push_back(x);
    }
    return v;
  };
  auto tree = gen(r.chance(1, 100) ? r.range(100, 400) : r.range(1, r.chance(1, 5) ? 40 : 9), r.below(4));
  std::function<OB(const std::vector<Node>&, std::size_t, unsigned)> mk = [&](const std::vector<Node>& v, std::size_t i, unsigned how) -> OB
  {
    if (i == v.size()) return OB();
    if (how % 5 == 2 and std::all_of(v.begin() + i, v.end(), [](const Node& x){ return x.in.empty(); }))
    {
      std::vector<Ident> ids;
      { UserScope us; for (auto k = i; k < v.size(); ++k) ids.push_back(v[k].id); }
      return OB(ids.begin(), ids.end());
    }
    if (how % 2)
    {
      OB head = v[i].in.empty() ? OB(v[i].id) : OB(v[i].id, mk(v[i].in, 0, how / 2));
      return head << mk(v, i + 1, how / 2 + i);
    }
    OB ob = mk(v, i + 1, how / 2);
    if (v[i].in.empty()) ob.push(v[i].id); else ob.push(v[i].id, mk(v[i].in, 0, how));
    return ob;
  };
  std::vector<Ident> flat;
  std::function<void(const std::vector<Node>&)> fl = [&](const std::vector<Node>& v) { for (auto& x : v) { if (x.in.empty()) flat.push_back(x.id); else fl(x.in); } };
  fl(tree);
  std::function<std::string(const std::vector<Node>&)> key = [&](const std::vector<Node>& v)
  {
    std::string s;
    for (auto& x : v) { s += ident_str(x.id); if (not x.in.empty()) s += "(" + key(x.in) + ")"; s += " "; }
    return s;
  };

  OB ob;
  attempt(op, "building an order builder", [&]{ ob = mk(tree, 0, op.b & 0xff); });
  {
    LibScope ls;
    if (ob.size() != used.size()) fail("order", "an order builder for %zu identifiers has size %zu", used.size(), ob.size());
    if (ob.height() != tree.size()) fail("order", "an order builder with %zu identifiers at its top level has height %zu", tree.size(), ob.height());
  }
  if (dup)
  {
    attempt(op, "building an order with a duplicate identifier", [&]
    {
      bool refused = false;
      try { Order o(ob); }
      catch (sdd::duplicate_identifier_error<C>&) { refused = true; }
      if (not refused) fail("order", "a duplicate identifier is accepted");
    });
    return;
  }
  const unsigned strat = op.a % 4;
  unsigned per = r.below(6);
  if (per == 0) per = 2;
  std::unique_ptr<Order> o;
  attempt(op, "building an order", [&]
  {
    OB b = strat == 1 ? sdd::flatten<C>()(ob) : strat == 2 ? sdd::identifiers_per_hierarchy<C>(per)(ob) : ob;
    Order x(b);
    UserScope us;
    o.reset(new Order(x));
  });
  ev(flat.size());
  // flat listing
  std::vector<Ident> got;
  { LibScope ls; o->flat(std::back_inserter(got)); }
  if (got != flat) fail("order", "the flattened order lists %zu identifiers, expected %zu or another sequence", got.size(), flat.size());
  // positions, variables, lookup, hierarchy
  std::vector<unsigned> pos, path;
  std::string seen, text;
  unsigned bad_height = 0;
  std::function<unsigned(const Order&, bool)> walk = [&](const Order& x, bool artificial) -> unsigned
  {
    if (x.empty()) return 0;
    const unsigned here = x.position();
    {
      UserScope us;
      if (not pos.empty() and here <= pos.back()) fail("order", "positions do not grow from top to bottom: %u, then %u", pos.back(), here);
    }
    auto& n = o->node_from_position(here);
    if (n.position() != here) fail("order", "a position does not lead to its level");
    {
      UserScope us;
      if (n.path().size() != path.size() or not std::equal(path.begin(), path.end(), n.path().begin())) fail("order", "the path to a level is not the hierarchy it lies in");
      for (auto q : pos)
      {
        const bool in = std::find(path.begin(), path.end(), q) != path.end();
        if (o->contains(q, here) != in or o->contains(here, q)) fail("order", "a level is reported to lie in another one although it does not, or the reverse");
      }
      pos.push_back(here);
    }
    const bool art = x.identifier().is_artificial();
    if (not art)
    {
      auto& m = o->node(x.identifier().user());
      if (m.position() != here or m.variable() != x.variable() or not (m.identifier() == x.identifier())) fail("order", "an identifier is found at another level");
    }
    std::size_t line;
    {
      UserScope us;
      if (art and strat != 2) fail("order", "an order has a level nobody asked for");
      text += std::string(2 * path.size(), ' ');
      if (art) text += "@" + std::to_string(x.identifier().artificial()) + "@"; else { text += ident_str(x.identifier().user()); seen += ident_str(x.identifier().user()); }
      line = text.size();
      path.push_back(here);
    }
    auto nested = x.nested();
    if (art and nested.empty()) fail("order", "an artificial level has nothing in it");
    if (not art and not nested.empty()) { UserScope us; seen += "("; }
    walk(nested, art);
    if (not art and not nested.empty()) { UserScope us; seen += ")"; }
    { UserScope us; path.pop_back(); if (not art) seen += " "; }
    const unsigned below = walk(x.next(), artificial);
    if (x.variable() != below) fail("order", "a level above %u others has variable %u", below, static_cast<unsigned>(x.variable()));
    { UserScope us; text.insert(line, " (" + std::to_string(below) + ")\n"); }
    if (artificial and below + 1 > per) bad_height = below + 1;
    return below + 1;
  };
  attempt(op, "looking identifiers up", [&]
  {
    { UserScope us; pos.clear(); path.clear(); seen.clear(); text.clear(); }
    walk(*o, strat == 2 and per > 1);
  });
  {
    std::string want;
    if (strat == 1) { for (auto& id : flat) want += ident_str(id) + " "; } else want = key(tree);
    if (seen != want) fail("order", "an order built from %s has structure %s", want.c_str(), seen.c_str());
    if (bad_height) fail("order", "a hierarchy made for at most %u identifiers has %u", per, bad_height);
  }
  {
    // its printed form
    const auto fired = heap_failures_fired();
    Sink b;
    { std::ostream os(&b); attempt(op, "printing an order", [&]{ { UserScope us; b.got.clear(); } os << *o; }); }
    if (heap_failures_fired() == fired and b.got != text) fail("order", "the printed form of an order is\n%s\ninstead of\n%s", b.got.substr(0, 300).c_str(), text.substr(0, 300).c_str());
  }
  if (strat != 1) for (auto& id : used) attempt(op, "looking an identifier up", [&]{ o->node(id); });
  else for (auto& id : flat) attempt(op, "looking an identifier up", [&]{ o->node(id); });
  attempt(op, "looking an unknown identifier up", [&]
  {
    Ident id;
    mk_ident(id, 63, 63);
    bool refused = false;
    try { o->node(id); } catch (sdd::identifier_not_found_error<C>&) { refused = true; }
    if (not refused) fail("order", "an unknown identifier is found");
  });
  {
    // equal exactly when they are built alike
    auto other = tree;
    std::function<void(std::vector<Node>&)> alter = [&](std::vector<Node>& v)
    {
      auto& x = v[r.below(v.size())];
      if (not x.in.empty() and r.chance(1, 2)) { alter(x.in); return; }
      switch (r.below(5))
      {
        case 0: std::swap(v.front(), v.back()); break;
        case 1: if (v.size() > 1) v.pop_back(); break;
        case 2: x.in.clear(); break;
        case 3: if (v.size() > 1 and v.front().in.empty()) { Node y = v.back(); v.pop_back(); v.front().in.push_back(y); } break;
        default: break;
      }
    };
    alter(other);
    const bool same = key(other) == key(tree);
    attempt(op, "comparing orders", [&]
    {
      Order a(ob), b(mk(other, 0, op.d & 0xff));
      if (same and std::hash<Order>()(a) != std::hash<Order>()(b)) fail("order", "equal orders hash differently");
      if ((a == b) != same) fail("order", "orders for %s and %s compare %s", key(tree).c_str(), key(other).c_str(), same ? "different" : "equal");
    });
    attempt(op, "an order of nothing", [&]
    {
      Order e((OB()));
      if (not e.empty() or not (e == Order(OB())) or e == *o) fail("order", "an order of nothing is not empty, or equals something");
    });
  }
}

// ---- the FORCE heuristic ------------------------------------------------------------------------
template <class C> void World<C>::exec_force(const Op& op)
{
  using Graph = sdd::force::hypergraph<C>;
  using Worker = sdd::force::worker<C>;
  Rng r(op.c);
  const unsigned n = r.chance(1, 6) ? r.range(17, 60) : r.range(1, 14);
  std::vector<Ident> ids(n);
  for (unsigned i = 0; i < n; ++i) mk_ident(ids[i], i % 40, i + 1);
  r.shuffle(ids);
  struct Edge { std::vector<Ident> v; std::vector<unsigned> at; double w; };
  std::vector<Edge> edges;
  const unsigned ne = r.below(2 * n + 1);
  const bool weighted = r.chance(1, 2);
  for (unsigned i = 0; i < ne; ++i)
  {
    Edge e;
    static const double ws[] = {0.25, 0.5, 1, 1.5, 2, 3.7, 10};
    e.w = weighted ? r.pick(ws) : 1;
    unsigned k = r.below(std::min(n, 5u) + 1);
    std::set<unsigned> s;
    while (k--) s.insert(r.below(n));
    for (auto x : s) e.at.push_back(x);
    r.shuffle(e.at);
    for (auto x : e.at) e.v.push_back(ids[x]);
    edges.push_back(e);
  }
  if (r.chance(1, 8))
  {
    auto twice = ids;
    twice.insert(twice.begin() + r.below(n + 1), ids[r.below(n)]);
    attempt(op, "a hypergraph with a duplicate identifier", [&]
    {
      bool refused = false;
      try { Graph g(twice.begin(), twice.end()); }
      catch (std::runtime_error&) { refused = true; }
      if (not refused) fail("force", "a hypergraph with a duplicate identifier is accepted");
    });
  }
  auto fill = [&](Graph& g) { for (auto& e : edges) if (e.w == 1 and not weighted) g.add_hyperedge(e.v.begin(), e.v.end()); else g.add_hyperedge(e.v.begin(), e.v.end(), e.w); };
  auto list = [&](const OB& ob)
  {
    std::vector<Ident> v;
    Order o(ob);
    for (auto x = o; not x.empty(); x = x.next())
    {
      if (not x.nested().empty() or x.identifier().is_artificial()) fail("force", "the computed order is not flat");
      auto id = x.identifier().user();
      UserScope us;
      v.push_back(id);
    }
    return v;
  };
  const unsigned iters = r.chance(1, 6) ? 0 : 1 + r.below(r.chance(1, 4) ? 60 : 12);
  const bool again = r.chance(1, 3);
  struct Out { std::vector<Ident> v, v2; std::vector<double> s, s2; };
  auto run = [&](bool reverse)
  {
    Out out;
    attempt(op, "the FORCE heuristic", [&]
    {
      { UserScope us; out = Out(); }
      Graph g(ids.begin(), ids.end());
      fill(g);
      Worker w(g, reverse);
      auto v = list(w(iters));
      auto k = w.spans().size();
      { UserScope us; out.v = v; out.s.assign(w.spans().begin(), w.spans().end()); }
      if (again)
      {
        auto v2 = list(w(iters));
        UserScope us;
        out.v2 = v2;
        out.s2.assign(w.spans().begin() + k, w.spans().end());
      }
    });
    return out;
  };
  auto judge = [&](const std::vector<Ident>& v, const std::vector<double>& spans)
  {
    auto a = v, b = ids;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) fail("force", "the computed order has %zu identifiers, the hypergraph %zu, or they are others", a.size(), b.size());
    if (spans.size() != iters) fail("force", "%zu spans are reported for %u iterations", spans.size(), iters);
    if (spans.empty()) return;
    std::map<Ident, long> at;
    for (std::size_t i = 0; i < v.size(); ++i) at[v[i]] = i;
    long total = 0;
    for (auto& e : edges) if (not e.v.empty())
    {
      long lo = at[e.v[0]], hi = lo;
      for (auto& x : e.v) { lo = std::min(lo, at[x]); hi = std::max(hi, at[x]); }
      total += hi - lo;
    }
    const double best = *std::min_element(spans.begin(), spans.end());
    if (total != best) fail("force", "the computed order has total span %ld, but an order with span %g was met", total, best);
  };
  auto a = run(false);
  judge(a.v, a.s);
  if (again) judge(a.v2, a.s2);
  ev(a.v.size());
  for (auto s : a.s) ev(static_cast<std::uint64_t>(s));
  // a hypergraph whose construction had to be resumed after failures
  {
    std::unique_ptr<Graph> g;
    attempt(op, "building a hypergraph", [&]{ UserScope us; g.reset(); LibScope ls; Graph x(ids.begin(), ids.end()); UserScope us2; g.reset(new Graph(x)); });
    for (auto& e : edges) attempt(op, "adding a hyperedge", [&]{ g->add_hyperedge(e.v.begin(), e.v.end(), e.w); });
    auto arm = heap_suspend();
    {
      LibScope ls;
      Worker w(*g);
      auto v = list(w(iters));
      std::vector<double> s(w.spans().begin(), w.spans().end());
      if (v != a.v or s != a.s) fail("force", "a hypergraph built edge by edge, with failures in between, gives a different order");
      g.reset();
    }
    heap_resume(arm);
  }
  // other hypergraphs in between must not matter
  if (r.chance(1, 2)) { const unsigned k = r.range(1, 3); attempt(op, "another hypergraph", [&]{ for (unsigned i = 0; i < k; ++i) { Graph g(ids.begin(), ids.end() - r.below(ids.size())); } }); }
  auto b = run(false);
  if (a.v != b.v or a.s != b.s or a.v2 != b.v2) fail("force", "the same hypergraph gives a different order the second time");
  auto c = run(true);
  std::reverse(c.v.begin(), c.v.end());
  if (a.v != c.v) fail("force", "the reverse order is not the reverse of the order");
  // its picture
  const auto fired = heap_failures_fired();
  Sink k;
  std::size_t links = 0, real = 0;
  for (auto& e : edges) { links += e.v.size(); real += not e.v.empty(); }
  {
    std::ostream os(&k);
    attempt(op, "exporting a hypergraph", [&]{ { UserScope us; k.got.clear(); } Graph g(ids.begin(), ids.end()); fill(g); os << sdd::tools::dot(g); });
  }
  if (heap_failures_fired() == fired and (occurrences(k.got, " -- v") != links or occurrences(k.got, "shape=point") != real or occurrences(k.got, "[label=\"") != n + real))
    fail("force", "the DOT form of a hypergraph of %u identifiers, %zu edges and %zu links is something else", n, real, links);
}

// ---- large cardinalities ------------------------------------------------------------------------
template <class V> struct WideDomain { static constexpr unsigned size = 400; };
template <std::size_t N> struct WideDomain<sdd::values::bitset<N>> { static constexpr unsigned size = N; };

template <class C> void World<C>::exec_count_big(const Op& op)
{
  Rng r(op.c);
  // A cache smaller than the diagram is high makes operations take exponential time: keep it short.
  // A single cube needs no operation at all.
  const unsigned k = 1 + op.b % 3;
  const unsigned cap = k == 1 or std::min(wc.sum, std::min(wc.inter, wc.diff)) >= 1024 ? 1000 : 10;
  const unsigned n = std::min(cap, 1 + static_cast<unsigned>(r.below(r.chance(1, 4) ? 200 : 60)));
  using Cube = std::vector<std::vector<std::uint32_t>>;
  std::vector<unsigned> inner(n);
  const bool hier = r.chance(1, 2);
  for (auto& x : inner) x = hier and r.chance(1, 3) ? 1 + r.below(cap > 10 and r.chance(1, 6) ? 80 : 6) : 0;
  auto value = [&]{ std::uint32_t m = r.chance(1, 2) ? (1u << wc.D) - 1 : r.below(1u << wc.D); return m ? m : 1u; };
  auto random_cube = [&](const Cube* like)
  {
    Cube c(n);
    for (unsigned i = 0; i < n; ++i)
      for (unsigned k = 0; k < std::max(1u, inner[i]); ++k) c[i].push_back(like and r.chance(9, 10) ? (*like)[i][k] : value());
    return c;
  };
  auto build_cube = [&](const Cube& c)
  {
    SDD x = sdd::one<C>();
    for (unsigned i = 0; i < n; ++i)
    {
      if (inner[i] == 0) { x = SDD(i, vals(c[i][0]), x); continue; }
      SDD y = sdd::one<C>();
      for (unsigned k = 0; k < inner[i]; ++k) y = SDD(k, vals(c[i][k]), y);
      x = SDD(i, y, x);
    }
    return x;
  };
  using Int = boost::multiprecision::cpp_int;
  auto card = [&](const Cube& c) { Int p = 1; for (auto& l : c) for (auto m : l) p *= __builtin_popcount(m); return p; };
  auto meet = [&](const Cube& a, const Cube& b) { Cube c = a; for (unsigned i = 0; i < n; ++i) for (std::size_t k = 0; k < c[i].size(); ++k) c[i][k] &= b[i][k]; return c; };
  Cube a = random_cube(nullptr), b = random_cube(&a), c = random_cube(&a);
  Int want = card(a);
  if (k >= 2) want += card(b) - card(meet(a, b));
  if (k >= 3) want += card(c) - card(meet(a, c)) - card(meet(b, c)) + card(meet(meet(a, b), c));
  Int got;
  attempt(op, "counting a large diagram", [&]
  {
    SDD x = build_cube(a);
    if (k >= 2) x = x + build_cube(b);
    if (k >= 3) x = x + build_cube(c);
    Int g = x.size();
    UserScope us;
    got = g;
  });
  if (r.chance(1, 6))
  {
    // hierarchies made of themselves: the count squares at every step
    want = 1;
    attempt(op, "counting a large shared hierarchy", [&]
    {
      const unsigned depth = 2 + op.d % 10;
      const auto m = op.a % ((1u << wc.D) - 1) + 1;
      SDD x(0, vals(m), sdd::one<C>());
      { UserScope us; want = __builtin_popcount(m); }
      for (unsigned i = 0; i < depth; ++i)
      {
        x = SDD(1, x, SDD(0, x, sdd::one<C>()));
        UserScope us;
        want *= want;
      }
      Int g = x.size();
      UserScope us;
      got = g;
    });
  }
  if (r.chance(1, 5))
  {
    // arcs that hold many values
    const unsigned most = WideDomain<Values>::size < 400 ? WideDomain<Values>::size : std::is_same<Values, sdd::values::flat_set<unsigned>>::value and r.chance(1, 10) ? 70000 : 700;
    const unsigned levels = most > 700 ? 2 : r.range(1, 6);
    std::vector<std::pair<unsigned, unsigned>> spans;
    for (unsigned i = 0; i < levels; ++i) { const unsigned lo = r.below(most / 2), hi = lo + 1 + r.below(most - lo); spans.push_back({lo, hi}); }
    const unsigned lo2 = r.below(most - 1), hi2 = lo2 + 1 + r.below(most - lo2 - 1);
    const bool two = r.chance(1, 2), nested = r.chance(1, 3);
    want = 1;
    for (auto& q : spans) want *= q.second - q.first;
    if (two)
    {
      // another range at the top
      Int below = want / (spans.back().second - spans.back().first);
      std::set<unsigned> u;
      for (unsigned x = spans.back().first; x < spans.back().second; ++x) u.insert(u.end(), x);
      for (unsigned x = lo2; x < hi2; ++x) u.insert(x);
      want = below * u.size();
    }
    auto range = [&](unsigned a, unsigned b) { std::vector<unsigned> x; { UserScope us; for (unsigned v = a; v < b; ++v) x.push_back(v); } return VT<Values>::mk(x, b - a > 100 ? 0 : op.d & 3); };
    attempt(op, "counting a diagram with many values", [&]
    {
      SDD x = sdd::one<C>(), y = x;
      for (unsigned i = 0; i < levels; ++i) { y = SDD(i, range(lo2, hi2), x); x = SDD(i, range(spans[i].first, spans[i].second), x); }
      if (two) x = x + y;
      if (nested) x = SDD(0, x, sdd::one<C>());
      Int g = x.size();
      UserScope us;
      got = g;
    });
  }
  if (got != want) { auto g = got.str(), w = want.str(); fail("count", "size() is %s for a large diagram (%u cubes over %u levels, or a hierarchy made of itself) that holds %s", g.substr(0, 200).c_str(), k, n, w.substr(0, 200).c_str()); }
  hit(c_nontrivial);
}

// ---- many arcs, many operands -------------------------------------------------------------------
template <class C> void World<C>::exec_wide(const Op& op)
{
  Rng r(op.c);
  const unsigned D = std::min<unsigned>(WideDomain<Values>::size, r.chance(1, 3) ? 400 : r.range(10, 70));
  const unsigned form = r.below(3);        // two variables; the first nested; the second nested
  using Set = std::map<unsigned, std::set<unsigned>>;     // value of the first variable -> values of the second
  auto leaf = [&](const std::set<unsigned>& v) { std::vector<unsigned> x; { UserScope us; x.assign(v.begin(), v.end()); } return SDD(0, VT<Values>::mk(x, op.d & 3), sdd::one<C>()); };
  auto cube = [&](const std::set<unsigned>& a, const std::set<unsigned>& b) -> SDD
  {
    SDD t = leaf(b);
    if (form == 2) t = SDD(0, t, sdd::one<C>());
    if (form == 1) return SDD(1, leaf(a), t);
    std::vector<unsigned> x;
    { UserScope us; x.assign(a.begin(), a.end()); }
    return SDD(1, VT<Values>::mk(x, op.d & 3), t);
  };
  auto gen = [&](unsigned n, bool distinct, std::vector<std::pair<std::set<unsigned>, std::set<unsigned>>>& cubes, Set& m)
  {
    for (unsigned i = 0; i < n; ++i)
    {
      std::set<unsigned> a, b;
      if (distinct) { a.insert(r.below(D)); unsigned k = r.range(1, 3); while (k--) b.insert(r.below(D)); }
      else { unsigned k = r.range(1, 12); while (k--) a.insert(r.below(D)); k = r.range(1, 12); while (k--) b.insert(r.below(D)); }
      for (auto x : a) m[x].insert(b.begin(), b.end());
      cubes.push_back({a, b});
    }
  };
  std::vector<std::pair<std::set<unsigned>, std::set<unsigned>>> ca, cb;
  Set ma, mb;
  const unsigned most = form == 1 ? 20 : r.chance(1, 8) ? 400 : 70;
  gen(r.range(1, most), most > 70 or r.chance(1, 2), ca, ma);
  gen(r.range(1, most), most > 70 or r.chance(1, 2), cb, mb);
  Set want;
  const unsigned k = op.b % 3;
  if (k == 0) { want = ma; for (auto& q : mb) want[q.first].insert(q.second.begin(), q.second.end()); }
  else
    for (auto& q : ma)
    {
      auto it = mb.find(q.first);
      for (auto y : q.second) if ((it != mb.end() and it->second.count(y)) == (k == 1)) want[q.first].insert(y);
    }
  SDD A, B, X, Y;
  boost::multiprecision::cpp_int n;
  attempt(op, "operations on wide diagrams", [&]
  {
    std::vector<SDD> v;
    for (auto& q : ca) v.push_back(cube(q.first, q.second));
    A = sdd::sum<C>(v.begin(), v.end());
    v.clear();
    B = sdd::zero<C>();
    for (auto& q : cb) B += cube(q.first, q.second);
    X = k == 0 ? A + B : k == 1 ? A & B : A - B;
    // again, value by value
    for (auto& q : want) if (not q.second.empty()) { std::set<unsigned> one; { UserScope us; one.insert(q.first); } v.push_back(cube(one, q.second)); }
    Y = sdd::sum<C>(v.begin(), v.end());
    auto c = X.size();
    UserScope us;
    n = c;
  });
  std::size_t total = 0;
  for (auto& q : want) total += q.second.size();
  if (n != total) fail("count", "size() is %s for a wide diagram of %zu assignments", n.str().substr(0, 60).c_str(), total);
  if (X != Y) { if (oracles() & (o_eq | o_rebuild)) fail("canonical", "two wide diagrams built to denote the same %zu assignments do not compare equal", total); }
  // what the diagrams say, path by path
  auto decode = [&](const SDD& x)
  {
    Set got;
    LibScope ls;
    if (x.empty()) return got;
    auto g = x.paths();
    while (g)
    {
      const auto& p = g.get();
      UserScope us;
      if (p.size() != 2) fail("paths", "a path of a wide diagram has %zu levels", p.size());
      VT<Values>::each(p[0], [&](unsigned a){ VT<Values>::each(p[1], [&](unsigned b){ if (not got[a].insert(b).second) fail("paths", "two paths of a wide diagram overlap"); }); });
      LibScope ls2;
      g();
    }
    return got;
  };
  auto trim = [](Set s) { for (auto it = s.begin(); it != s.end();) it = it->second.empty() ? s.erase(it) : std::next(it); return s; };
  static const char* nm[] = {"union", "intersection", "difference"};
  const SDD* xs[] = {&A, &B, &X, &Y};
  const Set* ms[] = {&ma, &mb, &want, &want};
  for (unsigned i = 0; i < 4; ++i)
  {
    auto arm = heap_suspend();
    auto got = decode(*xs[i]);
    heap_resume(arm);
    if (got != trim(*ms[i])) fail("result", "%s on wide diagrams: wrong set", i == 2 ? nm[k] : "union");
  }
  hit(c_nontrivial);
  ev(total);
}

// ---- very many handles to one thing -------------------------------------------------------------
template <class C> void World<C>::exec_crowd(const Op& op)
{
  const std::size_t n = 1 + op.b % 140000;
  auto p = pick(op.a);
  auto h = pick_hom(op.a);
  switch (op.c % 3)
  {
    case 0: if (p) { std::vector<SDD> v; v.reserve(n); LibScope ls; for (std::size_t i = 0; i < n; ++i) v.push_back(p->x); check_slot(*p, "with very many copies"); v.clear(); check_slot(*p, "after very many copies"); } break;
    case 1: if (h) { std::vector<Hom> v; v.reserve(n); LibScope ls; for (std::size_t i = 0; i < n; ++i) v.push_back(h->h); v.clear(); } break;
    default: for (auto& q : vals_) if (q) { std::vector<Values> v; v.reserve(n); LibScope ls; for (std::size_t i = 0; i < n; ++i) v.push_back(q->v); v.clear(); check_val(*q, "after very many copies"); break; }
  }
  hit(f_drop);
}

// ---- very many requests -------------------------------------------------------------------------
template <class C> void World<C>::exec_storm(const Op& op)
{
  Rng r(op.c);
  const unsigned e = r.chance(1, 8) ? r.below(18) : r.below(11);
  const unsigned n = (1u << e) + r.below(1u << e);
  const unsigned nv = std::min(wc.D, 4u), nm = 1u << nv;
  const unsigned form = r.below(3);            // one level; two levels; nested
  const ShapeId layout = form == 0 ? S.flat(0) : form == 1 ? S.flat(S.flat(0)) : S.nest(S.flat(0), 0);
  FnSpec f = random_fn(r, wc.D, -1);
  for (auto& x : f.out) x &= nm - 1;
  if (f.kind == 1) for (unsigned d = 0; d < wc.D; ++d) f.out[d] &= 1u << d;
  auto image = [&](unsigned m) { unsigned y = 0; for (unsigned d = 0; d < nv; ++d) if (m >> d & 1) y |= f.out[d]; return y; };
  Op o2 = op;
  o2.f = Fault::None; o2.re = 0;
  attempt(o2, "very many requests", [&]
  {
    std::vector<SDD> h(nm), low(nm);
    const SDD one = SDD(0, vals(1), sdd::one<C>());
    auto mk = [&](unsigned m) -> SDD
    {
      SDD x = SDD(0, vals(m), sdd::one<C>());
      return form == 0 ? x : form == 1 ? SDD(1, vals(3), x) : SDD(0, x, sdd::one<C>());
    };
    for (unsigned m = 0; m < nm; ++m) h[m] = mk(m);
    auto& o = ord(layout);
    Hom fun = fun_hom(*o.o, o.flat[form == 1 ? 1 : 0], fn_id(f));
    const unsigned mix_of = r.below(32);       // which requests there are
    for (unsigned i = 0; i < n; ++i)
    {
      const unsigned a = r.below(nm), b = r.below(nm);
      unsigned k = r.below(5);
      if (not (mix_of >> k & 1)) k = i % 3;
      unsigned want = 0;
      SDD x;
      switch (k)
      {
        case 0: want = a | b; x = h[a] + h[b]; break;
        case 1: want = a & b; x = h[a] & h[b]; break;
        case 2: want = a & ~b; x = h[a] - h[b]; break;
        case 3: want = image(a); x = fun(*o.o, h[a]); break;
        default: want = b; h[a] = SDD(); x = mk(b); h[a] = mk(a); break;
      }
      if (x != h[want]) fail("result", "after %u of very many requests: request %u on %u and %u does not give %u", i, k, a, b, want);
    }
  });
  hit(c_ops, n);
  check_all("after very many requests");
}

} // namespace sim
