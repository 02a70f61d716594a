#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Union, intersection and difference compute the exact set",
  "Whenever union, intersection or difference (binary, n-ary or in-place) is applied to diagrams over the same variable layout, the result denotes exactly the union, intersection or difference of the sets of assignments the operands denote. This holds for flat and hierarchical layouts, whatever was computed before, whatever order operands are given in, wherever the allocator placed the nodes, and however small the caches, tables and scratch buffer are configured.",
  ["inputs", "histories", "configurations"],
  "every sequence of operations over every set of diagrams, for every memory placement of nodes and every configuration of cache, table and arena sizes",
  "The tests compute a few dozen fixed expressions on fresh managers with caches that never fill; operand order inside the algorithms is address order and results come from caches, so the space is placements x cache histories x inputs.",
  ["sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/dd/nary.hh", "sdd/dd/square_union.hh", "sdd/dd/alpha.hh", "sdd/mem/cache.hh", "sdd/mem/linear_alloc.hh", "sdd/values/flat_set.hh", "sdd/values/bitset.hh"],
  ["square union and partition refinement in the three algorithms", "operation caches keyed on canonical operands", "arena-backed temporary containers with heap fallback"],
  ["result of every operation, decoded node by node and compared with an explicit set of assignments"])
p("C02", "Two diagrams are equal exactly when they denote the same set",
  "At every moment, two live diagrams over the same layout compare equal (and hash equal) if and only if they denote the same set of assignments. This is independent of how, when and in what order each was built, and of what was destroyed, recreated, cached, evicted or rehashed in between.",
  ["histories", "inputs", "configurations"],
  "all pairs of diagrams live at any point of any history, across node destruction and re-creation, table growth and address reuse",
  "Tests compare a handful of pairs; equality is pointer identity, so it depends on hash-table behaviour under insertion, deletion, growth and address reuse that only long histories reach.",
  ["sdd/mem/unique_table.hh", "sdd/mem/hash_table.hh", "sdd/mem/ptr.hh", "sdd/mem/unique.hh", "sdd/dd/definition.hh", "sdd/dd/node.hh", "sdd/dd/alpha.hh", "sdd/dd/square_union.hh"],
  ["unique table with structural hashing and equality", "canonical form enforced by square union"],
  ["handle equality and hash, against equality of decoded sets and a from-scratch rebuild"])
p("C03", "A diagram handle denotes the same set for as long as it is held",
  "Once obtained, a diagram handle keeps denoting the same set, with the same equality and hash, until it is reassigned or destroyed, whatever else happens: other operations, destruction of other handles, cache eviction or clearing, table growth. Copying, moving, swapping and assigning handles, including assigning a handle to itself or to a part of the diagram it alone keeps alive, transfers exactly the source's set.",
  ["histories", "schedules", "configurations"],
  "every interleaving of handle creation, copy, move, self-assignment, assignment from a sub-part, destruction and unrelated work",
  "Lifetimes are reference counts shared by user handles, node arcs, cache entries and iterators; tests never destroy in adversarial orders nor re-examine old handles after eviction and address reuse.",
  ["sdd/mem/ptr.hh", "sdd/mem/unique.hh", "sdd/mem/unique_table.hh", "sdd/mem/cache.hh", "sdd/dd/alpha.hh"],
  ["intrusive reference counting", "deletion handlers erase a node only when unreferenced"],
  ["every live handle re-decoded throughout the run"])
p("C04", "What nothing refers to any more is reclaimed",
  "A node, value set or operation stays stored only while a live handle, a live node, an operation cache or a pending iterator needs it: when user handles are dropped and the caches are emptied or forced to turn over, the stored counts return to their starting values. Destroying the manager after all handles returns every block of memory the library obtained, even after operations that failed with an exception.",
  ["histories", "fault_sequences"],
  "every history of operations, including aborted ones, followed by dropping the handles",
  "No test observes memory; leaks appear only on specific paths (a duplicate found at unification, an exception between allocation and publication, an abandoned iterator).",
  ["sdd/mem/unique_table.hh", "sdd/mem/ptr.hh", "sdd/mem/cache.hh", "sdd/dd/alpha.hh", "sdd/hom/consolidate.hh", "sdd/internal_manager.hh", "sdd/values/flat_set.hh", "sdd/mem/linear_alloc.hh"],
  ["reference counts trigger erase from unique tables", "cache pool and LRU list own entries", "RAII for builders and rewinders"],
  ["unique-table statistics and live heap blocks at quiescent points"])
p("C05", "Applying an operation yields exactly its mathematical result",
  "Applying an operation (identity, sum, composition, intersection of selectors, fixpoint, local, function, inductive, cons, constant, if-then-else and their nestings) to a diagram yields exactly the set its definition prescribes for the operand's set. The result is the same whether it is computed afresh or served from a cache of any size at any point of any history.",
  ["inputs", "histories", "configurations", "programs"],
  "every operation term and operand over every layout, every cache size and every preceding history",
  "Tests apply a few fixed terms once, with caches that never evict; memoised sub-results, selector/shifter shortcuts, skipping and regrouping of locals only go wrong on particular term/operand/history combinations.",
  ["sdd/hom/evaluation.hh", "sdd/hom/definition.hh", "sdd/hom/sum.hh", "sdd/hom/composition.hh", "sdd/hom/intersection.hh", "sdd/hom/fixpoint.hh", "sdd/hom/local.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/hom/cons.hh", "sdd/hom/constant.hh", "sdd/hom/if_then_else.hh", "sdd/mem/cache.hh"],
  ["memoised recursive evaluation with level skipping", "construction-time simplification and regrouping"],
  ["result decoded and compared with an interpreter on explicit sets"])
p("C06", "Rewriting for saturation never changes an operation's results",
  "Rewriting an operation for a given order yields an operation that returns, on every diagram over that order, exactly what the original returns. This holds for nested sums, intersections of selectors and fixpoints at every depth of the hierarchy, in any history.",
  ["inputs", "programs", "histories"],
  "every rewritable operation term, every order and every operand",
  "Tests check the syntactic outcome of a few rewrites; equivalence on every operand over every hierarchy is not sampled, and evaluation order in saturation follows addresses.",
  ["sdd/hom/rewrite.hh", "sdd/hom/saturation_sum.hh", "sdd/hom/saturation_intersection.hh", "sdd/hom/saturation_fixpoint.hh", "sdd/hom/evaluation.hh"],
  ["partition of operands into skipped, general and local parts", "saturation operators re-apply the parts"],
  ["original and rewritten operation applied to the same operand, both against the set interpreter"])
p("C07", "A failing user callback is contained",
  "If a user-supplied function, inductive operation or initialiser throws, at any of its calls, that exception reaches the caller unchanged, and every existing handle still denotes its set. The library remains fully usable: the same request repeated without the failure, and any later request, give the correct result, and nothing is leaked.",
  ["fault_sequences", "histories"],
  "every call of every user callback as the failure point, repeatedly, at any depth of evaluation",
  "Failure points are call indices inside deep memoised recursion; no test throws from inside an evaluation and then goes on using the manager.",
  ["sdd/hom/evaluation.hh", "sdd/mem/cache.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/hom/local.hh", "sdd/hom/fixpoint.hh", "sdd/mem/linear_alloc.hh", "sdd/dd/definition.hh"],
  ["result inserted in the cache only after evaluation succeeded", "arena rewinders and builders unwind by RAII"],
  ["exception identity at the caller; state re-checked and request retried afterwards"])
p("C08", "Incompatible operands are refused and change nothing",
  "Combining two diagrams whose topmost levels are incompatible (different variables, flat against nested, terminal against node) is refused with the library's incompatibility error unless an operand is empty or both are the same diagram, and a mismatch further down is refused likewise whenever the operands share an assignment prefix that leads to it. The refusal, at whatever depth it is detected, leaves every handle and every later result unaffected and leaks nothing.",
  ["inputs", "histories", "fault_sequences"],
  "every pair of layouts and diagrams, at every nesting depth of the mismatch, in any history",
  "Tests check the error on a few top-level mismatches and stop there; mismatches deep inside operands surface mid-algorithm with temporary state and caches half way.",
  ["sdd/dd/check_compatibility.hh", "sdd/dd/top.hh", "sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/dd/nary.hh", "sdd/mem/cache.hh"],
  ["compatibility check when partitioning operands", "exceptions unwind through caches without inserting"],
  ["error type at the caller, then continued differential checking"])
p("C09", "Path enumeration is exact however it is interleaved",
  "Enumerating the paths of a diagram yields cubes of value sets that are pairwise disjoint and together cover exactly the diagram's assignments, variables in order from top to bottom. This holds when several enumerations advance in any interleaving with each other and with any other work, including destruction of the handle the enumeration started from; an enumeration may be abandoned at any point.",
  ["schedules", "inputs", "histories"],
  "every diagram and every interleaving of generator steps with other operations, and every abandonment point",
  "Tests drain single generators immediately; suspended generators hold references across node destruction, eviction and address reuse, and unwinding an abandoned one is never exercised.",
  ["sdd/dd/path_generator.hh", "sdd/dd/path_generator_fwd.hh", "sdd/dd/sdd_stack.hh", "sdd/dd/definition.hh"],
  ["stackful coroutine owning a copy of the diagram", "explicit stack of pending hierarchical successors"],
  ["each yielded path, accumulated and compared with the explicit set at exhaustion"])
p("C10", "Counting is exact",
  "The reported number of combinations of a diagram equals the number of assignments it denotes, exactly and without overflow, for flat and hierarchical layouts and however much sharing there is. It does not depend on history and does not disturb anything.",
  ["inputs", "histories"],
  "every diagram, including ones whose cardinality exceeds machine integers",
  "Tests count a few small diagrams; sharing patterns, address reuse between counts and very large cardinalities are not sampled.",
  ["sdd/dd/count_combinations.hh", "sdd/dd/definition.hh", "sdd/tools/nodes.hh"],
  ["memoised recursive product and sum in arbitrary precision"],
  ["size() against the popcount of the explicit set and exact big-integer arithmetic on large cubes"])
p("C11", "Caches respect their capacity and their statistics add up",
  "At every moment each operation cache holds no more entries than its configuration permits, while still serving a request it recently computed without recomputing it. The statistics always balance: entries present equal those inserted minus those evicted or cleared, and every lookup is counted once as hit, miss or filtered.",
  ["histories", "configurations", "fault_sequences"],
  "every history of lookups, evictions, clears and failed evaluations, for every cache size",
  "Tests fill one small cache once with an integer operation; long mixed histories with failed evaluations, clears and recursive insertions during a lookup are not sampled.",
  ["sdd/mem/cache.hh", "sdd/mem/lru_list.hh", "sdd/mem/hash_table.hh", "sdd/mem/cache_entry.hh", "sdd/manager.hh", "sdd/tools/manager_statistics.hh"],
  ["fixed pool, LRU list and intrusive hash table kept in step", "counters updated at each decision"],
  ["manager statistics after every request; number of user-callback invocations on an immediate repeat"])
p("C12", "Clearing the operation cache is invisible except for time",
  "Clearing the homomorphism cache at any moment, any number of times, empties it and changes neither existing handles nor any later result. The cache keeps working afterwards: it fills again, evicts again within its capacity, and releases what the cleared entries kept alive.",
  ["schedules", "histories", "configurations"],
  "every position and repetition of the clear in every history, for every cache size",
  "No test clears the cache and then works it to eviction again.",
  ["sdd/manager.hh", "sdd/mem/cache.hh", "sdd/mem/lru_list.hh", "sdd/hom/context.hh"],
  ["clear disposes entries back to the pool"],
  ["differential checking of the whole run with clears injected, plus cache statistics after each clear"])
p("C13", "Running out of memory is contained",
  "If any memory allocation made on behalf of a request fails, the request either succeeds with the correct result or reports the out-of-memory condition as an exception to its caller (text output may instead leave it in the state of the stream); the process is not terminated and no handle changes. Afterwards the same request and all later ones give correct results, and the library has lost no memory.",
  ["fault_sequences", "histories"],
  "every allocation of every request as the failure point, in any history",
  "Allocation failure cannot be produced by the existing tests at all; each request performs tens to hundreds of allocations, each a distinct failure point.",
  ["sdd/mem/unique_table.hh", "sdd/mem/hash_table.hh", "sdd/mem/cache.hh", "sdd/mem/linear_alloc.hh", "sdd/values/flat_set.hh", "sdd/dd/definition.hh", "sdd/hom/definition.hh", "sdd/hom/consolidate.hh", "sdd/hom/fixpoint.hh"],
  ["standard containers give the strong or basic guarantee", "results published only after they are complete"],
  ["outcome of the request with the k-th allocation failing, then continued differential checking and final leak accounting"])
p("C14", "The library starts, stops and restarts cleanly",
  "While a manager for a configuration is alive, a second initialisation that would share its state is refused with an error and disturbs nothing; different configurations that share no state work side by side without affecting each other. After the manager is destroyed, or after an initialisation that failed part-way, the library can be initialised again and behaves like a fresh one.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of initialisations, failures during initialisation, shutdowns and restarts of one or several configurations, interleaved with work",
  "Each test initialises one manager once per process fixture; failed initialisation and coexistence are not exercised.",
  ["sdd/manager.hh", "sdd/internal_manager.hh", "sdd/values_manager.hh", "sdd/mem/ptr.hh", "sdd/values/flat_set.hh"],
  ["global pointers per configuration and value type", "deletion handlers installed and reset with the manager"],
  ["outcome of each initialisation, and differential checking of the work done under each manager"])
p("C15", "Requests issued from inside user callbacks are isolated",
  "A user callback may itself issue library requests (set operations, operation applications, enumerations, cache clearing) while an evaluation is in progress. The inner requests and the outer evaluation all yield exactly the results they would yield if run alone, for every placement of the inner requests.",
  ["schedules", "histories", "configurations"],
  "every placement of inner requests at callback invocations, at any recursion depth, for every cache and scratch-buffer size",
  "The tests' callbacks are pure; re-entry evicts entries and reuses scratch memory underneath an evaluation in progress.",
  ["sdd/mem/cache.hh", "sdd/mem/linear_alloc.hh", "sdd/hom/evaluation.hh", "sdd/hom/inductive.hh", "sdd/hom/function.hh", "sdd/dd/nary.hh"],
  ["lookup and insertion separated by the evaluation", "stack discipline of the arena"],
  ["outer and inner results against the set interpreter"])
p("C16", "The same operation built twice is the same operation",
  "Two operation handles built from equal parts compare equal and hash equal, whatever happened between the two constructions; for sums and intersections this includes operands given in another order, repeated, or grouped into nested sums or intersections. Operations that act differently on some diagram never compare equal.",
  ["programs", "histories", "configurations"],
  "every pair of operation terms built at any two moments of any history, with any memory placement",
  "Tests compare a few terms; operands are sorted by address and shared through a table whose contents come and go.",
  ["sdd/hom/definition.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/consolidate.hh", "sdd/hom/composition.hh", "sdd/hom/cons.hh", "sdd/mem/unique_table.hh", "sdd/mem/hash_table.hh"],
  ["unification in the homomorphism table", "operands sorted and deduplicated before unification"],
  ["handle equality after rebuilding a term with permuted operands; behaviour of unequal terms"])
p("C17", "Observers neither disturb nor depend on anything but the set",
  "Printing, exporting to DOT, serialising statistics and measuring a diagram (nodes, arcs, size) leave every handle, every later result and the stored counts unchanged, even when the output stream fails or throws part-way. The measured node and arc counts are those of the unique reduced form of the set, so they depend only on the set and its layout, not on history.",
  ["histories", "fault_sequences", "inputs"],
  "every diagram and operation, every failure position of the output stream, in any history",
  "Tests print to healthy streams and count a few diagrams; failing streams and history dependence are not exercised.",
  ["sdd/tools/nodes.hh", "sdd/tools/arcs.hh", "sdd/tools/size.hh", "sdd/tools/sdd_statistics.hh", "sdd/tools/dot/sdd.hh", "sdd/tools/dot/homomorphism.hh", "sdd/dd/definition.hh", "sdd/dd/alpha.hh"],
  ["visitors with local memo tables keyed on nodes"],
  ["counts against the reduced form computed from the explicit set; state re-checked after faulty output"])
p("C18", "Shared sets of values behave as immutable mathematical sets",
  "Sets of values stored in shared, unified form compare equal exactly when they hold the same values, and union, intersection, difference, insertion, erasure and construction from any range yield exactly the prescribed set. A set held by a user or by a diagram never changes, whatever is built, modified or destroyed elsewhere, and unreferenced sets are reclaimed.",
  ["histories", "inputs"],
  "every history of building, editing, copying and dropping value sets interleaved with diagrams that use them",
  "Tests check single calls on small sets; sharing through the unification table under destruction, growth and address reuse is not sampled.",
  ["sdd/values/flat_set.hh", "sdd/values/values_traits.hh", "sdd/values_manager.hh", "sdd/mem/unique_table.hh", "sdd/mem/ptr.hh"],
  ["unification of value sets in their own table", "copy-on-write editing"],
  ["contents, equality and hash of every live value set against an explicit set"])
p("C19", "Variable orders place and find every identifier consistently",
  "Building an order from any sequence of identifiers and nested hierarchies gives every identifier a unique position, finds each of them and refuses duplicates and unknown identifiers; orders are equal exactly when they are built alike, and tell which level lies in which. The order-reshaping strategies keep exactly the same identifiers in the same sequence. A construction or lookup that runs out of memory reports it, leaks nothing and can be repeated.",
  ["inputs", "fault_sequences"],
  "every sequence of identifiers and hierarchy, and every allocation of its construction as the failure point",
  "Infinitely many orders; tests sample a few, and none of them fails an allocation.",
  ["sdd/order/order_builder.hh", "sdd/order/order.hh", "sdd/order/strategies/flatten.hh", "sdd/order/strategies/identifiers_per_hierarchy.hh"],
  ["recursive construction of the node vector"])
p("C20", "The FORCE heuristic keeps the identifiers and returns its best order",
  "Applying the FORCE heuristic to any hypergraph returns a flat order with exactly the identifiers of the hypergraph, once each, whose total span is the smallest of all the iterations made; asking for the reverse gives the mirror image. The result depends only on the hypergraph, not on hypergraphs built or orders computed earlier, duplicates are refused, and a construction that runs out of memory leaves the hypergraph as it was, leaks nothing and can be resumed.",
  ["inputs", "histories", "fault_sequences"],
  "every hypergraph, every history of earlier hypergraphs, and every allocation as the failure point",
  "No test runs FORCE at all; what it returns depends on weights, iteration counts and what ran before.",
  ["sdd/order/strategies/force.hh", "sdd/order/strategies/force_hypergraph.hh", "sdd/order/strategies/force_hyperedge.hh", "sdd/tools/dot/force_hypergraph.hh"],
  ["iterative centre-of-gravity sorting, best order kept", "cross-linked vertices and hyperedges"],
  ["total span of the returned order recomputed from the hypergraph"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
