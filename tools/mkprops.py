#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand after editing; checks never run it).
import json, os
I="include/cpp-sort/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":[f if f.startswith("docs") else I+f for f in files],
       "mechanism":[{"name":n,"where":I+w if not w.startswith("docs") else w} for n,w in mech],
       "observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","Comparison sorters sort: the result is an ordered permutation of the input",
  "For every comparison sorter, every collection size and content, every iterator category the sorter accepts, every strict weak order used as comparator and every projection, the call returns with the range holding exactly the original elements (each one once, with its payload) ordered so that no projected element compares less than its predecessor. This also holds for every supported configuration of a sorter (buffer provider of grail_sorter and wiki_sorter, arity of d_ary_heap_sorter) and for proxy-like containers such as std::deque, std::list and std::forward_list.",
  ["inputs","configurations"],"all element sequences x comparators x projections x iterator categories x sorter configurations",
  "Tests sort a handful of distributions at three or four sizes, mostly of distinct ints; size thresholds, few-unique, nearly-sorted and adversarial inputs that select the other branches of hybrid algorithms are not reached, and permutation of payloads is mostly not checked.",
  ["sorters/","detail/"],
  [("each sorter's algorithm","detail/pdqsort.h"),("block merge","detail/grail_sort.h"),("block merge","detail/wiki_sort.h"),("run merging","detail/timsort.h"),("tree/heap based","detail/cartesian_tree_sort.h"),("introsort-like","detail/quicksort.h")],
  ["the range before and after the call to the sorter, elements tagged with unique ids"])

p("C02","Type-specific sorters sort every value of every type they accept",
  "counting_sorter, ska_sorter and the spread sorters (integer, float, string and the aggregate) turn every collection of the types they document into an ordered permutation of the input: every integer type up to 128 bits with its extreme values, float and double with infinities, zeros, denormals and both signs, strings and string views with embedded nulls, high bytes, shared prefixes and prefixes of one another, pairs, tuples and indexable types. The same holds through a projection and, where documented, in descending order with std::greater<>.",
  ["inputs","configurations"],"all value sequences of each supported type, including extreme values and ranges, with or without projection / std::greater<>",
  "Tests use one or two small ranges per type; the radix passes, bucket bounds, sign handling and overflow at the extremes of each type depend on the values.",
  ["sorters/counting_sorter.h","sorters/ska_sorter.h","sorters/spread_sorter/","detail/counting_sort.h","detail/ska_sort.h","detail/spreadsort/"],
  [("key to unsigned mapping and American-flag passes","detail/ska_sort.h"),("bucket layout from min/max","detail/spreadsort/detail/integer_sort.h"),("value range histogram","detail/counting_sort.h")],
  ["the range before and after the call"])

p("C03","Fixed-size sorters sort every input of their size and keep documented weights",
  "Every valid specialization of low_comparisons_sorter, low_moves_sorter, sorting_network_sorter, merge_exchange_network_sorter and odd_even_merge_network_sorter turns any N elements into an ordered permutation, with any comparator and projection, and never touches an element outside those N. The network sorters perform a fixed number of compare-exchanges equal to the size of their index_pairs() (for sorting_network_sorter, the documented best-known count), swap_index_pairs and swap_index_pairs_force_unroll applied to index_pairs() sort too, and the documented comparison weights, move weights and stability of these sorters hold.",
  ["inputs","configurations"],"all permutations and all 0-1 inputs of each size N in each sorter's domain",
  "Tests sort random arrays once per size; a wrong comparator in a network of 64 inputs is exposed only by particular 0-1 inputs, and the weights are never summed.",
  ["fixed/","detail/low_comparisons/","detail/low_moves/","detail/sorting_network/","utility/sorting_networks.h"],
  [("hand-unrolled networks","detail/sorting_network/sort64.h"),("index pair tables","detail/sorting_network/sort32.h"),("decision trees","detail/low_comparisons/sort9.h"),("cocktail selection sort","fixed/low_moves_sorter.h")],
  ["the N elements before and after the call, count of comparisons and moves, neighbours of the N elements"])

p("C04","Stable sorting is really stable, and stability traits tell the truth",
  "Every sorter that is always stable, and every sorter obtained through stable_adapter, make_stable, stable_t or cppsort::stable_sort, keeps equivalent elements in their original relative order for every input, comparator, projection and iterator category. Whenever is_stable or is_always_stable is true for a sorter (or utility such as sorted_indices) called with given arguments, the call is stable.",
  ["inputs","configurations"],"all sequences with equivalent elements x stable sorters and stabilised sorters (including nested adapters) x call signatures",
  "Tests check stability on a few shuffled collections; instability in merge buffers, descending-run reversal or block tagging needs particular runs of duplicates at particular sizes.",
  ["adapters/stable_adapter.h","adapters/self_sort_adapter.h","adapters/hybrid_adapter.h","detail/stable_adapter_hybrid_adapter.h","detail/stable_adapter_self_sort_adapter.h","sorter_traits.h","stable_sort.h","detail/grail_sort.h","detail/wiki_sort.h","detail/timsort.h","detail/spinsort.h","detail/merge_sort.h","detail/inplace_merge.h"],
  [("association of positions","adapters/stable_adapter.h"),("is_stable dispatch","sorter_traits.h"),("specialisation of stable_adapter for verge","adapters/verge_adapter.h")],
  ["relative order of the ids of equivalent elements after the call, value of is_stable<Sorter(Args...)>"])

p("C05","Sorter adapters sort correctly whatever sorter they adapt",
  "container_aware_adapter, counting_adapter, drop_merge_adapter, hybrid_adapter, indirect_adapter, out_of_place_adapter, schwartz_adapter, self_sort_adapter, small_array_adapter, split_adapter, stable_adapter, make_stable and verge_adapter, and any nesting of them, produce an ordered permutation of the input for every adapted sorter that satisfies their requirements and for every input, comparator, projection and accepted iterator category.",
  ["inputs","configurations"],"adapter nestings x adapted sorters x inputs x comparators x projections x iterator categories",
  "Tests check each adapter over a few sorters with one or two shuffled collections; adapters that run their own algorithm around the adapted sorter (drop-merge, split, verge, indirect, schwartz) have data-dependent branches that such inputs miss.",
  ["adapters/","detail/drop_merge_sort.h","detail/split_sort.h","detail/vergesort.h","detail/indiesort.h","detail/associate_iterator.h"],
  [("drop-merge","detail/drop_merge_sort.h"),("SplitSort","detail/split_sort.h"),("vergesort","detail/vergesort.h"),("cycle leader","adapters/indirect_adapter.h"),("associated proxy iterator","detail/associate_iterator.h")],
  ["the range before and after the call to the resulting sorter"])

p("C06","Sorting stays inside the given range and has no undefined behaviour",
  "While sorting or measuring a range [first, last) of any size and content, no component dereferences or modifies an element outside the range (also when it is a sub-range of a larger collection), moves an iterator past the bounds of the range, accesses memory it does not own, leaks memory, or executes undefined behaviour. The internal assertions and audits of the library never fail on valid input.",
  ["inputs","configurations"],"all ranges, including empty and one-element ones and sub-ranges of larger collections, for every sorter, adapter, probe and utility",
  "Tests run under sanitizers in CI on the same few inputs; an out-of-range access at a size threshold or for a rare pattern needs that input, and reads of valid neighbours of a sub-range are invisible to sanitizers.",
  ["detail/","sorters/","adapters/","probes/","utility/"],
  [("unguarded loops with sentinels","detail/insertion_sort.h"),("block offsets","detail/grail_sort.h"),("temporary buffers","detail/memory.h"),("immovable_vector","detail/immovable_vector.h")],
  ["checked iterators, guard elements around the range, AddressSanitizer / UBSan / LeakSanitizer reports, library assertions"])

p("C07","Element lifecycle: no lost, duplicated, resurrected or self-moved elements",
  "Sorters and adapters only require movability: they work with move-only, non-default-constructible elements, never copy an element, never compare or project an element in a moved-from state (moving one along, as a swap of a slot with itself does, is tolerated), never self-move-assign a live element, never assign to or destroy storage holding no object, and destroy each temporary element exactly once. When the call returns every element of the range is live.",
  ["inputs","histories"],"all sequences of constructions, moves, swaps and destructions that sorting any input produces",
  "Tests sort one shuffled move-only collection of 491 elements per sorter; the buffer and rotation paths taken for other sizes and patterns are never observed with such a type.",
  ["detail/memory.h","detail/merge_move.h","detail/inplace_merge.h","detail/recmerge_forward.h","detail/immovable_vector.h","detail/associate_iterator.h","detail/","adapters/","fixed/"],
  [("destruct_n, destroying deleters","detail/memory.h"),("gap/hole moves","detail/insertion_sort.h"),("move buffers","detail/merge_move.h")],
  ["special member functions of an instrumented element type, calls to comparators and projections"])

p("C08","Exceptions thrown by user code never leak, double-destroy or corrupt",
  "If a comparator, a projection or a move operation of the elements throws at any point while sorting or measuring, that same exception reaches the caller, no memory leaks, every object constructed by the library is destroyed exactly once and no object outside the range is affected. The collection then still holds only valid (possibly moved-from) objects that can be destroyed or assigned, and the same sorter object can sort again.",
  ["fault_sequences","inputs"],"every k-th comparison, projection or move of every sort as a throw point",
  "Tests throw once, at the 150th move of one input; unwinding from inside each buffer, tree, list or merge phase depends on the throw point.",
  ["detail/memory.h","detail/immovable_vector.h","detail/fixed_size_list.h","detail/scope_exit.h","detail/","adapters/","probes/"],
  [("RAII of temporaries","detail/memory.h"),("RAII of nodes","detail/fixed_size_list.h"),("scope guards","detail/scope_exit.h")],
  ["exception reaching the caller, live-object registry, allocation counters and LeakSanitizer after the throw"])

p("C09","Allocation failure: no-bad_alloc sorters still sort, others fail cleanly",
  "When any of the memory allocations made during a call fails, the sorters documented as never throwing std::bad_alloc (merge, pdq, quick, quick_merge, split, std, and the in-place ones) still return a correctly (and, if stable, stably) sorted collection, and every other sorter, adapter or probe either completes correctly or throws std::bad_alloc without leaking or destroying anything twice. Probes documented to fall back to less memory return the same value as with memory.",
  ["fault_sequences","inputs"],"failure of the k-th allocation, of all allocations from the k-th on, and of all allocations above a size, for every k that occurs",
  "Tests only exhaust the heap completely, for a few sorters and one input; partial failures select intermediate buffer sizes and fall-back merges that are never run.",
  ["detail/memory.h","detail/inplace_merge.h","detail/buffered_inplace_merge.h","detail/recmerge_bidirectional.h","detail/recmerge_forward.h","detail/merge_sort.h","probes/dis.h","probes/osc.h","adapters/split_adapter.h"],
  [("temporary buffer that shrinks","detail/memory.h"),("buffer-size adaptive merge","detail/inplace_merge.h"),("SymMerge fall-back","detail/symmerge.h")],
  ["operator new calls made by the library with injected failures, result of the call"])

p("C10","Worst-case comparison counts stay within the documented complexity",
  "For every input, including adversarially constructed ones, the number of comparisons performed by each sorter stays within its documented worst-case complexity: O(n log n) for the O(n log n) sorters in every iterator category (O(n log^2 n) where documented), O(n^2) for insertion and selection sort. merge_insertion_sorter never needs more comparisons than the Ford-Johnson bound sum of ceil(log2(3i/4)) for i in 1..n.",
  ["inputs"],"all inputs, in particular anti-quicksort adversaries and killer patterns, of growing sizes",
  "Tests never count comparisons on adversarial inputs; a lost introsort fall-back keeps every test green.",
  ["detail/pdqsort.h","detail/quicksort.h","detail/quick_merge_sort.h","detail/introselect.h","detail/adaptive_quickselect.h","detail/merge_insertion_sort.h","detail/smoothsort.h","detail/heapsort.h","detail/"],
  [("bad-partition counter and heapsort fall-back","detail/pdqsort.h"),("median of medians fall-back","detail/introselect.h"),("optimal insertion order","detail/merge_insertion_sort.h")],
  ["calls to the comparator, which may answer adaptively (McIlroy adversary)"])

p("C11","Adaptive sorters are linear on presorted inputs and follow their measure",
  "The sorters documented with an O(n) best case need O(n) comparisons on already sorted input (and on the other inputs their description names, such as few long ascending or descending runs for vergesort and timsort-like sorters, and collections of identical elements where documented as adaptive), and the Rem-adaptive sorters and adapters (drop-merge, split) need n + f(k) comparisons when k elements are out of place, for all n. Sorting networks excepted, no sorter becomes slower than its worst case on those inputs.",
  ["inputs"],"all sizes n and all sorted or nearly-sorted inputs of that size",
  "No test counts comparisons for presorted inputs, so lost adaptivity is invisible to them.",
  ["detail/vergesort.h","detail/timsort.h","adapters/drop_merge_adapter.h","adapters/split_adapter.h","detail/drop_merge_sort.h","detail/split_sort.h","detail/melsort.h","detail/slabsort.h","detail/cartesian_tree_sort.h","detail/splaysort.h","detail/spinsort.h","detail/smoothsort.h"],
  [("run detection","detail/vergesort.h"),("galloping and run stack","detail/timsort.h"),("dropped elements","detail/drop_merge_sort.h")],
  ["calls to the comparator and to the adapted sorter"])

p("C12","Auxiliary heap and stack memory stays within the documented bounds",
  "The heap memory requested during a call stays within the documented space complexity for every input: no allocation at all for the sorters documented as O(1), O(log n) or O(log^2 n) memory (heap, insertion, selection, smooth, poplar, d-ary heap, pdq, quick, quick_merge, default grail and wiki), O(n) for the others, and the size asked by the buffer provider for buffered sorters. Stack use (recursion depth) stays polylogarithmic in n for every input, including adversarial ones.",
  ["inputs","configurations"],"all inputs of growing sizes, including killer patterns, x buffer providers",
  "Tests do not observe allocations or stack depth; recursion into the larger side or a buffer of the wrong size passes every functional test.",
  ["detail/pdqsort.h","detail/quicksort.h","detail/quick_merge_sort.h","detail/grail_sort.h","detail/wiki_sort.h","utility/buffer.h","detail/memory.h","detail/"],
  [("recursion on the smaller side","detail/quicksort.h"),("buffer providers","utility/buffer.h")],
  ["operator new/delete calls and peak live bytes, lowest stack address seen in comparators"])

p("C13","Probes compute exactly the measure of presortedness they name",
  "Each probe (block, dis, enc, exc, ham, inv, max, mono, osc, par, rem, runs, sus) returns exactly the value of its documented definition for every collection, including those with equivalent elements (for block and exc, whose definition needs distinct elements, the value is that of one of the ways to order the equivalent elements; exc is the smallest), with every comparator and projection, for every iterator category, on iterables and on iterator pairs.",
  ["inputs"],"all sequences (exhaustively for small sizes), comparators, projections, iterator categories",
  "Tests check one or two hand-computed sequences per probe.",
  ["probes/","detail/count_inversions.h","detail/longest_non_descending_subsequence.h","detail/is_p_sorted.h"],
  [("each probe's algorithm","probes/osc.h"),("patience","detail/longest_non_descending_subsequence.h"),("merge counting","detail/count_inversions.h")],
  ["return value of the probe against a brute-force definition"])

p("C14","Probes obey the laws of measures of presortedness and only observe",
  "Every probe returns 0 on sorted input (equivalent elements included), never more than max_for_size(n) (a bound attained by some input of size n, except ham at n = 1), gives the same value for order-isomorphic inputs, and leaves the measured collection unmodified: no element is moved, copied or swapped. The laws of measures of presortedness hold where the named measure has them: removing an element does not make dis, enc, inv, max, mono, par, rem, runs, sus larger (block and osc too when keys are distinct); putting an element in front adds at most the size (all but ham and osc); concatenating X and Y with X below Y gives at most the sum (dis, exc, ham, inv, max, par, rem, runs, sus). The documented relations between measures hold (e.g. max <= dis <= inv, rem <= inv, enc <= sus <= runs <= rem, mono <= runs, osc <= 4 inv, par = dis).",
  ["inputs"],"all sequences and pairs of sequences (exhaustively for small sizes)",
  "Tests check 0 on sorted input and max_for_size on one input per probe.",
  ["probes/","detail/count_inversions.h","detail/is_p_sorted.h","docs/Measures-of-presortedness.md"],
  [("max_for_size","probes/inv.h")],
  ["return values over related inputs, contents of the collection before and after"])

p("C15","Metrics report exactly what they measure and still sort",
  "metrics::comparisons, metrics::moves, metrics::projections and counting_adapter sort the collection like the adapted sorter does and return exactly the number of comparator calls, element moves (as defined: constructions and assignments, none missed), and projection calls that the adapted sorter performs on that input; metrics::running_time sorts and returns a non-negative duration. Instances can be reused: each call reports only its own work, and metric values compare, assign and convert like the values they wrap.",
  ["inputs","histories"],"all inputs, adapted sorters, call signatures, and sequences of calls on one metric object",
  "Tests count one input with one or two sorters.",
  ["metrics/","adapters/counting_adapter.h","detail/comparison_counter.h","utility/metrics_tools.h"],
  [("counting comparator","detail/comparison_counter.h"),("counting element reference","metrics/moves.h"),("counting projection","metrics/projections.h")],
  ["value returned against independent counters in the comparator, projection and element"])

p("C16","Every call form of the unified sorting interface means the same thing",
  "For every sorter, calling it with an iterable or with its iterators, with or without comparator and projection, in the order documented, with std::less<>/utility::identity/std::identity given or defaulted, with function pointers, pointers to members, lambdas, as_comparison/as_projection, flip/not_fn or refined functions, through the global instance, a converted function pointer, or cppsort::sort / cppsort::stable_sort, yields the same result as the equivalent basic call. Sorter traits (is_comparison_sorter, is_projection_sorter, iterator_category, ...) agree with the calls that compile.",
  ["programs","inputs"],"all combinations of callable kinds and argument forms, over inputs where the forms would differ if mixed up",
  "Tests exercise each form with one sorter on one input; overload resolution is per combination of types.",
  ["sorter_facade.h","sort.h","stable_sort.h","sorter_traits.h","refined.h","utility/as_function.h","utility/functional.h"],
  [("overload set with defaulted arguments","sorter_facade.h"),("refined","refined.h"),("as_function","utility/as_function.h")],
  ["resulting order for each call form"])

p("C17","Total, weak and partial order comparators implement their orders",
  "total_less/total_greater, weak_less/weak_greater and partial_less/partial_greater implement, for every pair of integers (up to 128 bits) or of floating point values (infinities, signed zeros, denormals, NaNs of either sign and payload), the documented order of that strength: total order and weak order comparators are strict weak orders consistent with operator< on ordinary values, greater is less with swapped arguments, and sorting floating point collections with total or weak comparators works whatever NaNs they contain.",
  ["inputs"],"all pairs and triples of values, particularly the IEEE 754 special ones",
  "Tests compare a few special values.",
  ["comparators/total_less.h","comparators/total_greater.h","comparators/weak_less.h","comparators/weak_greater.h","comparators/partial_less.h","comparators/partial_greater.h","detail/floating_point_weight.h"],
  [("bit-pattern weights","detail/floating_point_weight.h")],
  ["truth value of each comparator against a reference order on bit patterns; axioms over triples"])

p("C18","natural_less and case_insensitive_less are consistent string orders",
  "natural_less orders any two sequences of char as a natural order does (digit runs by numeric value however long, other characters by value), and case_insensitive_less orders any two sequences of char or wchar_t as the lexicographical order of their lower-cased characters in the given or global locale, refined or not. Both are strict weak orders on all such sequences, including empty ones, prefixes, embedded nulls, high-bit characters and heterogeneous containers.",
  ["inputs"],"all pairs and triples of strings over alphabets of letters, digits, punctuation, null and high-bit characters",
  "Tests sort two short word lists.",
  ["comparators/natural_less.h","comparators/case_insensitive_less.h","detail/three_way_compare.h"],
  [("digit run comparison","comparators/natural_less.h"),("ctype tolower, refined comparators","comparators/case_insensitive_less.h")],
  ["truth value against a reference implementation; strict weak order axioms over triples"])

p("C19","Function-object utilities compute exactly what they wrap",
  "flip, not_fn, projection_compare, as_function, as_comparison, as_projection, projections chained with operator|, indirect, identity, half, log, sqrt, function_constant, iter_move/iter_swap, size, make_integer_range and metric tools return for all arguments what their wrapped or documented function returns, forwarding each argument (value category, order, exactly one call) unchanged, also after the documented unwrapping of nested adapters. Transparency and branchless traits propagate as documented.",
  ["programs","inputs"],"all callables, argument value categories and nestings of the adapters",
  "Tests check a couple of nestings with one callable each.",
  ["comparators/flip.h","comparators/not_fn.h","comparators/projection_compare.h","utility/functional.h","utility/as_function.h","utility/iter_move.h","utility/size.h","utility/branchless_traits.h","utility/make_integer_range.h","utility/adapter_storage.h"],
  [("unwrapping overloads","comparators/flip.h"),("chaining","utility/functional.h")],
  ["recorded calls of the wrapped function: arguments, order, value category, result"])

p("C20","sorted_indices, sorted_iterators and apply_permutation agree with sorting",
  "For every sorter and collection, sorted_indices and sorted_iterators return each index or iterator exactly once, in an order that sorts the collection (stably when is_stable says so), without modifying the collection; apply_permutation with those indices, or with any permutation of [0, n), moves exactly the designated elements to their positions.",
  ["inputs"],"all collections, permutations, sorters, comparators and projections",
  "Tests use one collection of ten elements.",
  ["utility/sorted_indices.h","utility/sorted_iterators.h","utility/apply_permutation.h"],
  [("cycle following","utility/apply_permutation.h"),("index/iterator sort through projection","utility/sorted_indices.h")],
  ["returned vectors, collection contents before and after"])

p("C21","Container-aware list algorithms relink nodes and keep iterators valid",
  "Sorting a std::list or std::forward_list through container_aware_adapter with a sorter that has a dedicated algorithm (insertion, merge, mel, selection) yields an ordered permutation, stable where documented, in which every iterator, pointer and reference obtained before still designates the same element in the same container: no element is moved, copied or reallocated. For user-defined containers the adapter calls the algorithm found by ADL and otherwise falls back to the adapted sorter.",
  ["inputs","histories"],"all lists, comparators, projections, and throw points of comparators",
  "Tests sort one shuffled list per sorter and never check node identity.",
  ["adapters/container_aware_adapter.h","detail/container_aware/"],
  [("splice based algorithms","detail/container_aware/merge_sort.h"),("melsort","detail/container_aware/mel_sort.h")],
  ["addresses and ids of nodes before and after, element move/copy counters"])

p("C22","indirect, schwartz and out_of_place keep their operation-count contracts",
  "indirect_adapter performs at most 3n/2 element moves in total (a minimal cycle-wise permutation, none for elements already in place) and leaves the collection in its original state if an exception is thrown while the iterators are being sorted; schwartz_adapter calls the projection exactly once per element; out_of_place_adapter moves each element once to the buffer and once back around the adapted sort. They return the result of the adapted sorter where documented.",
  ["inputs","fault_sequences"],"all inputs and permutations, adapted sorters, and throw points of comparisons",
  "Tests count neither moves nor projection calls for these adapters, and throw in none of them.",
  ["adapters/indirect_adapter.h","adapters/schwartz_adapter.h","adapters/out_of_place_adapter.h","detail/schwartz_small_array.h","detail/associate_iterator.h","detail/indiesort.h"],
  [("cycle leader with one temporary","adapters/indirect_adapter.h"),("association with projected values","adapters/schwartz_adapter.h")],
  ["move and projection counters, collection contents after an exception"])

p("C23","Adapters dispatch to the right sorter, keep its state and forward its result",
  "hybrid_adapter calls the first adapted sorter of the best matching iterator category that accepts the call (flattening nested hybrids), small_array_adapter exactly the fixed-size sorter of the array's size within its domain, self_sort_adapter the collection's own sort or stable_sort when suitable, and stable_adapter the raw sorter only when it is stable. Adapters store copies of stateful sorters, expose them with get(), invoke the stored object, and return what the adapted sorter returns where documented.",
  ["programs","inputs"],"all combinations of adapted sorters (categories, constraints, state, result types) and arguments",
  "Tests check a few combinations.",
  ["adapters/hybrid_adapter.h","adapters/small_array_adapter.h","adapters/self_sort_adapter.h","adapters/stable_adapter.h","utility/adapter_storage.h","detail/checkers.h","detail/raw_checkers.h","sorter_traits.h"],
  [("choice by iterator category and order","adapters/hybrid_adapter.h"),("adapter_storage","utility/adapter_storage.h")],
  ["tracing sorters that log which one was called, on which object state, and what was returned"])

p("C24","Sorters are deterministic and free of shared mutable state",
  "For a given input every sorter, adapter and probe performs exactly the same sequence of comparisons and produces the same result, whatever ran before, wherever the data and buffers are in memory. Any number of threads may use the same sorter, adapter or probe objects concurrently on disjoint collections without data races, with the same results as sequentially.",
  ["schedules","inputs","histories"],"all interleavings of concurrent calls on shared sorter objects; all repetitions and memory layouts",
  "Tests are single threaded and never compare two executions.",
  ["sorters/","adapters/","detail/","probes/","docs/Home.md","utility/static_const.h"],
  [("stateless function objects, const call operators","sorter_facade.h"),("documented determinism","docs/Home.md")],
  ["ThreadSanitizer reports; recorded comparison traces of repeated and concurrent calls"])

p("C25","Algorithms work through proxy iterators and customised iter_move/iter_swap",
  "The sorters, adapters and probes documented to support proxy iterators sort or measure correctly ranges whose reference type is a proxy (zipped ranges and other iterators with ADL iter_move and iter_swap, and std::vector<bool>), keeping the proxied parts together, moving elements only through the customisation points, and without requiring post-increment or post-decrement operators.",
  ["inputs","configurations"],"all inputs over proxy iterator types for every proxy-capable sorter and adapter",
  "Tests sort one short collection through a proxy for a few components.",
  ["utility/iter_move.h","detail/associate_iterator.h","detail/","sorters/","adapters/"],
  [("iter_move / iter_swap customisation","utility/iter_move.h"),("rvalue_type_t temporaries","detail/insertion_sort.h")],
  ["both halves of zipped ranges after sorting, counters in iter_move and iter_swap"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
