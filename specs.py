# What each check builds and runs. See run.py for the meaning of the fields.
import os

SPECS = {}

RULE_INPUTS = ("Inputs: all weak orderings of up to 6 (thorough: 7) elements, every size 7..70 with rotating patterns, "
               "threshold sizes (around powers of two and the sizes where algorithms switch) with 36 patterns, larger sizes with some patterns; "
               "patterns include shuffled, few-unique, runs, nearly sorted, rotated, killer sequences. ")


ALL_PARTS = list(range(1, 16))           # 1..9 sorters, 10..15 adapters (harness/vh_sorters.h)


def sorter_parts(src, parts, shards=2, defs=(), **kw):
    """One program per part of the sorter lists; compilers and standards rotate."""
    def builds(tier):
        out = []
        for p in parts:
            b = {"name": "p%d" % p, "src": src, "opt": "-O1", "std": (14, 17, 20)[p % 3],
                 "cxx": "clang++" if p % 2 == 0 else "g++", "defs": ["PART=%d" % p] + list(defs), "shards": shards}
            b.update(kw)
            out.append(b)
            if tier == "thorough":       # the other compiler too
                c = dict(b)
                c["name"] += "x"
                c["cxx"] = "g++" if p % 2 == 0 else "clang++"
                c["std"] = kw.get("std") or (17, 20, 14)[p % 3]
                out.append(c)
        return out
    return builds


SPECS["C01"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is sorted by every comparison sorter (and configuration) over several containers, comparators and projections; "
            "records carry a unique id, so the monitor checks both order and permutation. Non-trivial: at least two distinct keys; distinct by (sorter, combination, keys).",
    "technique": "runtime oracle (order + id permutation) over generated and exhaustive small inputs",
    "level_note": "Held on the inputs explored; says nothing about inputs outside the generators. Trusts the oracle in checks/C01/main.cpp and the compilers.",
    "builds": sorter_parts("checks/C01/main.cpp", range(1, 10), shards=4, defs=["EXTRA=1"]), "min_evaluations": 500000,
    "need_events": ["killer_inputs", "elements_judged", "huge_collections"],
}

SPECS["C05"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is sorted by 32 adapted sorters (indirect, out_of_place, schwartz, stable, make_stable, drop_merge, split, verge, hybrid, counting and nestings) "
            "over several containers, comparators and projections, judged for order and permutation of unique ids.",
    "technique": "runtime oracle (order + id permutation) over generated and exhaustive small inputs, for adapters and nestings of adapters",
    "level_note": "Held on the inputs and adapter nestings explored. Trusts the oracle in checks/C01/main.cpp and the compilers.",
    "builds": sorter_parts("checks/C01/main.cpp", range(10, 16), shards=5, defs=["EXTRA=1", 'PID="C05"']), "min_evaluations": 400000,
}

SPECS["C06"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is sorted by every sorter and adapter through iterators that check each operation against their range, over instrumented elements surrounded by guards, "
            "and over exactly sized allocations, in programs built with ASan, UBSan, LSan and the library audits.",
    "technique": "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, library audits, checked iterators and guard elements",
    "level_note": "Held on the executions observed. Sanitizers miss intra-object overflows and reused memory; the checked iterators see only accesses made through them.",
    "builds": sorter_parts("checks/C07/main.cpp", ALL_PARTS, shards=2, defs=["LIGHT=1", 'PID="C06"'], opt="-O0", san="asan", audits=True), "min_evaluations": 100000,
    "need_events": ["killer_inputs", "comparisons", "moves", "elements_judged"],
}

SPECS["C07"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is sorted by every sorter and adapter over move-only, non-default-constructible elements that know their own address and state (live, moved-from, dead); "
            "comparisons, projections, moves, constructions and destructions are all monitored.",
    "technique": "element lifecycle monitor (state machine per object) on every comparison, projection, move, construction and destruction",
    "level_note": "Held on the executions observed. Buffered sorters (wiki_sorter, grail_sorter with a buffer) are observed with default-constructible elements, which they need.",
    "builds": sorter_parts("checks/C07/main.cpp", ALL_PARTS, shards=2), "min_evaluations": 400000,
    "need_events": ["killer_inputs", "comparisons", "moves", "elements_judged", "temporaries"],
}

def c08_builds(tier):
    return sorter_parts("checks/C08/main.cpp", ALL_PARTS, shards=4)(tier) + [
        {"name": "more", "src": "checks/C08/more.cpp", "opt": "-O1", "std": 17, "cxx": "g++", "shards": 5, "weight": 2},
        {"name": "more_asan", "src": "checks/C08/more.cpp", "opt": "-O1", "std": 20, "cxx": "clang++", "san": "asan", "audits": True, "shards": 5, "weight": 3}]

SPECS["C08"] = {
    "level": "exploration",
    "rule": "Every sorter and adapter sorts inputs of 1..513 (fast ones: 1025) elements while the k-th call of the comparator, of the projection, or the k-th move throws; every k when there are "
            "few such operations, otherwise the first ones, the last ones, the middle and random ones. The same for every probe (which must leave the collection untouched), ska, spread and fixed-size sorters, list algorithms, "
            "sorted_indices, sorted_iterators, apply_permutation and metrics, also under ASan. Monitors: the exception that comes out, object balance, memory balance, guard elements, "
            "validity and uniqueness of the elements left, and the collection assigned to and sorted again afterwards. One evaluation is one (sorter, call form, input, kind, k).",
    "technique": "fault injection (exception at the k-th comparison/projection/move) with object-lifecycle and allocation monitors",
    "level_note": "Held at the throw points explored. Throwing copies do not occur (elements are move-only); throwing iterators and destructors are out of scope.",
    "builds": c08_builds, "min_evaluations": 300000,
    "need_events": ["killer_inputs", "propagated", "compare_points", "move_points", "projection_points", "collections_untouched", "lists_judged"],
}

SPECS["C04"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Keys are coarsened to create ties; elements carry ids. Every sorter documented or declared (is_stable) stable for a call form is called that way over vector, deque, list and "
            "forward_list, iterators and iterables, comparators and projections, half of the time with little or no heap memory, and its result compared with the unique stable order. Distinct by (sorter, form, keys).",
    "technique": "runtime oracle: the unique stable permutation, on ties-rich inputs, for every call form whose is_stable trait is true or that is documented stable",
    "level_note": "Held on the inputs explored. The forms checked are those the traits of the tree declare stable plus the documented ones.",
    "builds": sorter_parts("checks/C04/main.cpp", [1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23], shards=2, std=17), "min_evaluations": 400000,
    "need_events": ["stable_forms", "ties_judged", "calls_short_of_memory"],
}

SPECS["C13"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is measured by every probe over vector, deque, list, forward_list, arrays, reverse and checked iterators, with iterators and iterables, comparators and projections, and the value compared "
            "with an independent implementation of the definition; collections of 70001 elements check counts beyond 32 bits. Distinct by (probe, form, keys).",
    "technique": "runtime oracle: reference value of each measure computed from its definition",
    "level_note": "Exact for all measures, except block and exc with equivalent elements, judged against the range of values over the orders of the equivalent elements (up to 6 elements) or bounds (more).",
    "builds": sorter_parts("checks/C13/main.cpp", [1, 2, 3, 4], shards=3, std=17), "min_evaluations": 100000,
    "need_events": ["exact_values", "nonzero_values"],
}

SPECS["C14"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "For each probe: bounds against max_for_size, 0 on the sorted collection, order-isomorphic copies, removals of each element, prefixes, ordered concatenations, known worst cases of every size up to 150, the same measure while allocations fail; "
            "move-only monitored elements behind checked iterators for observation only; relations between the thirteen values of one input. Distinct by (probe, law family, keys).",
    "technique": "runtime monitoring of algebraic laws over the values returned for related inputs, and an element monitor that counts moves and constructions",
    "level_note": "Held on the inputs explored; the laws claimed are those that the named measures have (checked by exhaustive enumeration of the definitions).",
    "builds": sorter_parts("checks/C14/main.cpp", [1, 2, 3, 4], shards=3, std=17), "min_evaluations": 50000,
    "need_events": ["bounds_checked", "isomorphic_pairs", "removals", "concatenations", "maxima", "observations", "relations", "measured_without_memory"],
}

def c09_builds(tier):
    return sorter_parts("checks/C09/main.cpp", ALL_PARTS, shards=2)(tier) + [
        {"name": "probes", "src": "checks/C09/probes.cpp", "opt": "-O1", "std": 17, "cxx": "g++", "shards": 9}]

SPECS["C09"] = {
    "level": "exploration",
    "rule": "Every sorter and adapter (through forward, bidirectional and raw iterators), every probe, the radix and counting sorters, container-aware list sorts, sorted_indices and sorted_iterators run on inputs of 2..1025 "
            "(thorough: 5000) elements while allocation k fails, every allocation from k on fails, or allocations above a size fail; every k when there are few allocations, otherwise the first, middle, last and random ones. "
            "One evaluation is one (component, call form, input, plan) where at least one allocation happens.",
    "technique": "fault injection in operator new with order/stability/permutation oracle, object-lifecycle and allocation monitors",
    "level_note": "Held at the fault plans explored. Sorters with a space complexity above O(1) are allowed to throw std::bad_alloc unless documented otherwise.",
    "builds": c09_builds, "min_evaluations": 30000,
    "need_events": ["failed_allocations", "bad_alloc_propagated", "sorted_despite_failures", "completed_despite_failures", "probe_values"],
}

def c10_builds(tier):
    return sorter_parts("checks/C10/main.cpp", ALL_PARTS, shards=2)(tier) + [
        {"name": "fj", "src": "checks/C10/fj.cpp", "opt": "-O1", "std": 17, "cxx": "g++", "shards": 2}]

SPECS["C10"] = {
    "level": "exploration",
    "rule": "Every sorter and adapter, per iterator category, with and without memory and with a comparator flagged branchless, against McIlroy's quicksort adversary (plain, mirrored, and with a third of the values fixed), against the killer "
            "sequences it produced, and against 36 patterns, for sizes up to 20000 (thorough: 200000). merge_insertion_sorter on all permutations of up to 8 (9) elements, all weak orderings of up to 6, and patterns and adversaries of every size up to 90 (300). "
            "Distinct by (sorter, form, input).",
    "technique": "counting comparator playing an adaptive adversary, against per-sorter bounds c*n*log2(n) (c measured, times 1.6), n^2/2, and the exact Ford-Johnson sum",
    "level_note": "Held on the executions observed. The O(n log n) constants are empirical (1.6 times the largest ratio measured), the Ford-Johnson bound is exact.",
    "builds": c10_builds, "min_evaluations": 150000,
    "need_events": ["adversary_runs", "pattern_runs", "bound_reached"],
}

def c11_builds(tier):
    return sorter_parts("checks/C11/main.cpp", range(1, 17), shards=1)(tier) + [
        {"name": "measure", "src": "checks/C11/measure.cpp", "opt": "-O1", "std": 17, "cxx": "g++", "shards": 4, "weight": 3}]

SPECS["C11"] = {
    "level": "exploration",
    "rule": "Sixteen presorted families (sorted, with duplicates, all equal, descending, four runs up/down/mixed, few elements out of place, merged, rotated, ...) of sizes 24..50000 (thorough: every size to 200, and 1000000) "
            "sorted by each adaptive sorter or adapter through each iterator category, with and without memory, with a comparator flagged branchless or not. Then ten families with more and more disorder "
            "(k runs, encroaching lists, shuffled monotone sequences, local shuffles, displaced, swapped and moved elements, permuted blocks) where the count is held to the measure the algorithm follows, computed from its definition. Distinct by (sorter, form, family, input).",
    "technique": "counting comparator against linear bounds (exactly n - 1 where the algorithm only scans) and bounds in n and the input's measure of presortedness (n + Inv - 1 exact for insertion sort)",
    "level_note": "Linear constants are empirical (largest ratio observed over six seeds and sizes up to 100000, times 1.25 or 2); only families observed to be linear are claimed. quick_merge_sorter and std_sorter are documented with a linear best case "
                  "which no input family tried here reaches: nothing is claimed for them.",
    "builds": c11_builds, "min_evaluations": 60000,
    "need_events": ["linear_runs", "measured_runs"],
}

SPECS["C12"] = {
    "level": "exploration",
    "rule": "36 input patterns of sizes 2..100000 and collections chosen online by an adversary (two modes, three starting orders, up to 20000; thorough: 100000) sorted by every sorter and adapter over vectors, lists and forward lists "
            "of records of 8 and 96 bytes, while operator new/delete and the lowest stack address seen by the comparator are recorded. Distinct by (sorter, form, input).",
    "technique": "allocation and stack-depth monitor against the documented memory bounds (none / buffer provider's size / linear / logarithmic)",
    "level_note": "Linear constants are empirical (twice the largest ratio observed); stack depth is sampled in comparisons, so only the part of the recursion that compares is seen, and judged at -O1.",
    "builds": sorter_parts("checks/C12/main.cpp", list(range(1, 17)), shards=1), "min_evaluations": 100000,
    "need_events": ["calls_measured", "calls_with_heap"],
}


SPECS["C15"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is sorted by every sorter and adapter, bare, then through metrics::comparisons, projections, moves, running_time and counting_adapter (several count types, reused const objects, iterable, iterator and short call forms) over move-only elements "
            "whose moves, comparisons and projections are counted independently; metric values are checked against the relations of the values they wrap; running_time against clock readings inside and around the call.",
    "technique": "independent counters in comparator, projection and element against the values reported",
    "level_note": "moves is judged against the moves of the elements themselves, and against the bare sorter except when the projection is flagged branchless (wrapping it loses the flag, as documented) and for sorters whose buffers need default-constructible elements.",
    "builds": sorter_parts("checks/C15/main.cpp", ALL_PARTS, shards=1, opt="-O0"),  # GCC 13 at -O1 miscompiles counters held by reference (see DESIGN.md)
    "min_evaluations": 100000,
    "need_events": ["comparisons", "moves", "projections", "values_compared", "metric_values"],
}


def c03(tier):
    out = []
    for p in range(1, 15):
        out.append({"name": "p%d" % p, "src": "checks/C03/main.cpp", "cxx": "clang++" if p in (2, 5, 11) else "g++", "std": (14, 17, 20)[p % 3], "opt": "-O2" if p in (2, 5) else "-O1" if p == 10 else "-O0",
                    "defs": ["PART=%d" % p] + (["NARROW=1"] if p in (2, 5) else []), "shards": {10: 3, 13: 3, 12: 2}.get(p, 1), "weight": 3 if p in (2, 5, 12, 13) else 1})
    return out


SPECS["C03"] = {
    "level": "exploration",
    "rule": "Every network sorter of 0..64 inputs (merge exchange up to 200, odd-even merge up to 128): the sequence of element pairs compared is recorded on real runs over instrumented elements "
            "(all weak orderings up to 6, all 0-1 inputs up to 11, patterns, random 0-1 inputs), must not depend on the contents nor differ in number from index_pairs() and from the documented table, "
            "and an offline checker then follows every 0-1 input (all 2^N of them, as sets of states) through the recorded trace. low_comparisons_sorter and low_moves_sorter sort every permutation of up to 11 "
            "(thorough: 12) elements, with the sums of comparisons and moves compared to the documented weights. Scalars (branchless code) and every call form are run too. Non-trivial: at least two distinct keys.",
    "technique": "trace recording by an instrumented comparator, offline 0-1 checker over the recorded traces, exhaustive permutations with counting monitors, guard elements and checked iterators",
    "level_note": "Exhaustive for the observed traces up to 64 lines under the 0-1 principle (the trace is shown independent of contents on the inputs run) and for low_* up to 11 (12) elements; sampled beyond.",
    "builds": c03, "min_evaluations": 50000, "need_events": ["networks_decided", "permutations_sorted", "traces_recorded", "scalar_runs"],
}


def c02(tier):
    out = []
    for p in range(1, 15):
        out.append({"name": "p%d" % p, "src": "checks/C02/main.cpp", "cxx": "clang++" if p % 2 == 0 else "g++", "std": (17, 20, 14)[p % 3] if p not in (6, 13) else 20 if p == 13 else 17,
                    "opt": "-O1", "defs": ["PART=%d" % p], "shards": {9: 4, 2: 2, 7: 2, 8: 2}.get(p, 1), "weight": 2 if p in (6, 7, 8, 9, 13) else 1})
        out.append({"name": "a%d" % p, "src": "checks/C02/main.cpp", "cxx": "g++" if p % 2 == 0 else "clang++", "std": (20, 14, 17)[p % 3] if p not in (6, 13) else 17,
                    "opt": "-O0", "defs": ["PART=%d" % p, "LIGHT=1"], "san": "asan", "audits": True, "shards": 1, "weight": 2 if p in (6, 7, 8, 9, 13) else 1})
    return out


SPECS["C02"] = {
    "level": "exploration",
    "rule": "Every type documented for counting_sorter, ska_sorter and the spread sorters (bool, all character and integer types up to 128 bits, float, double, pointers, strings of every character type, string_view, vectors, deques, arrays, "
            "pairs and tuples, nested three deep): 36 patterns over palettes of four styles (extreme values; a tiny alphabet; any bits; few values per digit with long common prefixes), all weak orderings of up to 4 (5) elements, "
            "sizes around 128, 1000 and 1024 where the algorithms switch, up to 20000 (100000); values in vectors, deques and between guards; records with four kinds of projections; std::greater<> where documented; "
            "ranges of values too wide to count. Distinct by (sorter, type, form, keys, style).",
    "technique": "runtime oracle (std::sort by operator<, bitwise value multiset, id permutation, guards) over generated values of every documented type, repeated under ASan, UBSan and the library audits",
    "level_note": "Held on the values explored. NaNs are excluded (no order); std::wstring in string_spread_sorter needs 2-byte wchar_t and cannot be run here.",
    "builds": c02, "min_evaluations": 150000, "need_events": ["collections_judged", "bad_alloc_for_wide_ranges"],
}

def c20_builds(tier):
    return sorter_parts("checks/C20/main.cpp", ALL_PARTS, shards=2)(tier) + [
        {"name": "perm", "src": "checks/C20/perm.cpp", "opt": "-O1", "std": 17, "cxx": "g++", "shards": 2},
        {"name": "perm_asan", "src": "checks/C20/perm.cpp", "opt": "-O1", "std": 14, "cxx": "clang++", "san": "asan", "audits": True, "shards": 2}]

SPECS["C20"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "For every sorter and adapter, sorted_indices and sorted_iterators are called on constant and mutable collections (checked forward, bidirectional and random-access iterators over monitored elements, deque, list, "
            "forward_list) with comparators and projections; the positions in the result are judged, and applied with apply_permutation. apply_permutation also runs every permutation of up to 7 (thorough: 8) elements and generated ones up to 20000 with several index types.",
    "technique": "permutation/order/stability oracle on the returned positions, element monitor proving that the collection is untouched, and element-identity oracle for apply_permutation",
    "level_note": "Held on the inputs explored. Stability is demanded whenever is_stable says so for the call.",
    "builds": c20_builds, "min_evaluations": 150000,
    "need_events": ["positions_judged", "stable_results", "unstable_results", "permutations_applied", "elements_placed", "moves"],
}

def c21_builds(tier):
    return [
        {"name": "main", "src": "checks/C21/main.cpp", "opt": "-O1", "std": 17, "cxx": "g++", "defs": ["DEFAULT_ALLOC=1"], "shards": 4},
        {"name": "noalloc", "src": "checks/C21/main.cpp", "opt": "-O2", "std": 20, "cxx": "clang++", "shards": 4},
        {"name": "asan", "src": "checks/C21/main.cpp", "opt": "-O1", "std": 14, "cxx": "clang++", "san": "asan", "audits": True, "defs": ["DEFAULT_ALLOC=1"], "shards": 4},
        {"name": "adl14", "src": "checks/C21/adl.cpp", "opt": "-O1", "std": 14, "cxx": "g++", "shards": 1},
        {"name": "adl20", "src": "checks/C21/adl.cpp", "opt": "-O1", "std": 20, "cxx": "clang++", "shards": 1}]

SPECS["C21"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is sorted as std::list and std::forward_list of monitored elements, with the default allocator and with allocators that are stateful and not default-constructible, by container_aware_adapter of insertion, selection, merge and mel sorters, "
            "five call forms; every node, iterator and pointer taken before is compared afterwards, and reused. A second program sorts containers whose namespace has each of the 16 subsets of the sort overloads through 10 call forms and monitors which algorithm ran, with which sorter, and what it returned.",
    "technique": "node-identity monitor (addresses, iterators, allocator events, element moves) with order/stability oracle; dispatch monitor for user containers",
    "level_note": "Held on the inputs explored. mel_sorter's algorithms are not documented stable and are not held to it.",
    "builds": c21_builds, "min_evaluations": 500000,
    "need_events": ["nodes_judged", "iterators_reused", "dispatched_to_1", "dispatched_to_2", "dispatched_to_4", "dispatched_to_8", "dispatched_to_16", "fallbacks"],
}

SPECS["C22"] = {
    "level": "exploration",
    "rule": RULE_INPUTS + "Each is sorted through indirect_adapter, out_of_place_adapter and schwartz_adapter around a watched sorter (every sorter, forward, bidirectional and random-access iterators), five call forms; "
            "the moves, projections, destinations and results are counted element by element. Exceptions are thrown from the n-th comparison of an indirect sort.",
    "technique": "element and projection monitors (exact counts per element, order of events against the start and end of the adapted sort), fault injection in comparators",
    "level_note": "Held on the inputs explored.",
    "builds": sorter_parts("checks/C22/main.cpp", range(1, 10), shards=2), "min_evaluations": 100000,
    "need_events": ["cycles_followed", "elements_left_in_place", "exceptions_with_original_state", "elements_buffered", "elements_projected_once", "results_forwarded", "calls_while_unwinding"],
}

def c18_builds(tier):
    return [
        {"name": "main", "src": "checks/C18/main.cpp", "opt": "-O1", "std": 17, "cxx": "g++", "shards": 3},
        {"name": "asan", "src": "checks/C18/main.cpp", "opt": "-O1", "std": 14, "cxx": "clang++", "san": "asan", "audits": True, "shards": 8},
        {"name": "cl20", "src": "checks/C18/main.cpp", "opt": "-O2", "std": 20, "cxx": "clang++", "shards": 3}]

SPECS["C18"] = {
    "level": "exploration",
    "rule": "natural_less: all pairs of strings of up to 4 characters over {0 1 9 a / :} (quick: a fifth of the longest), generated and mutated strings with long runs of digits and zeros, nulls and high-bit characters, through strings, vectors, lists, deques, views, arrays, "
            "iterators that judge every step, and exactly sized storage; case_insensitive_less: strings over letters, nulls and high-bit characters of both widths in four locales (classic, C.UTF-8, an odd one of ours, and as the global locale), plain, with a locale, refined, copied, flipped; "
            "customisations by ADL; collections sorted by twelve sorters; heterogeneous set lookups. Distinct by pair of strings.",
    "technique": "runtime oracle (orders computed from tokens or lower-cased copies), checked iterators and ASan/UBSan against reads outside of the sequences",
    "level_note": "Held on the strings explored; the oracle being a weak order on keys, agreement with it implies the strict weak order on these.",
    "builds": c18_builds, "min_evaluations": 800000,
    "need_events": ["pairs_compared", "collections_sorted", "customisations_called", "sets_checked", "arrays"],
}

def c17_builds(tier):
    return [
        {"name": "laws14", "src": "checks/C17/main.cpp", "opt": "-O1", "std": 14, "cxx": "g++", "defs": ["PART=0"], "shards": 1},
        {"name": "laws20", "src": "checks/C17/main.cpp", "opt": "-O2", "std": 20, "cxx": "clang++", "defs": ["PART=0"], "shards": 1},
        {"name": "lawssan", "src": "checks/C17/main.cpp", "opt": "-O1", "std": 17, "cxx": "clang++", "san": "asan", "defs": ["PART=0"], "shards": 1},
    ] + sorter_parts("checks/C17/main.cpp", range(1, 10), shards=1)(tier)

SPECS["C17"] = {
    "level": "exploration",
    "rule": "All pairs from palettes (all values of 8-bit types; extreme values, powers of two, random values of 17 integer types up to 128 bits; zeros, denormals, infinities, quiet and signaling NaNs with several payloads and both signs, random values of float, double, long double) "
            "given to the six comparators as constant, mutable and temporary arguments, and all triples for the laws of strict weak orders; customisations by ADL with each fallback; rejections. "
            "Then every sorter sorts collections of floats and doubles full of such values by total_less, total_greater, weak_less and weak_greater. Distinct by value or (sorter, comparator, collection).",
    "technique": "runtime oracle: ranks computed from the bits of the values, direct law checking on triples, bitwise multiset and rank order of sorted collections",
    "level_note": "Exhaustive for pairs of 8-bit integers; held on the values explored otherwise. NaNs of one sign are equivalent for all orders (documented).",
    "builds": c17_builds, "min_evaluations": 300000,
    "need_events": ["comparisons_judged", "triples_judged", "customisations_called", "rejections", "collections_judged", "nans"],
}

def c19_builds(tier):
    return [
        {"name": "gcc14", "src": "checks/C19/main.cpp", "opt": "-O1", "std": 14, "cxx": "g++", "shards": 1},
        {"name": "gcc20", "src": "checks/C19/main.cpp", "opt": "-O2", "std": 20, "cxx": "g++", "shards": 1},
        {"name": "clang17", "src": "checks/C19/main.cpp", "opt": "-O1", "std": 17, "cxx": "clang++", "san": "asan", "audits": True, "shards": 1},
        {"name": "clang20", "src": "checks/C19/main.cpp", "opt": "-O0", "std": 20, "cxx": "clang++", "shards": 1}]

SPECS["C19"] = {
    "level": "exploration",
    "rule": "Callables that record each call (which callable, its value category, the address and value category of each argument) wrapped by flip, not_fn, projection_compare, as_comparison, as_projection, operator|, identity and 1 to 3 level nestings of these, "
            "called with all 16 combinations of argument categories, as 4 categories of callable, with both results, with distinct and identical arguments; member pointers, functions, function pointers; half, sqrt, log, indirect, function_constant and chains over generated values; "
            "iter_move and iter_swap over four kinds of customised iterators, plain, reversed and moved; metrics, size, integer ranges, adapter storage, refinement; types and traits. Distinct by configuration or value.",
    "technique": "runtime oracle over recorded calls: which callable, arguments (identity, order, value category, copies), number of calls and results",
    "level_note": "Held on the nestings and values explored.",
    "builds": c19_builds, "min_evaluations": 20000,
    "need_events": ["calls_judged", "types_judged", "facts_judged", "values_judged", "iterator_operations", "metrics_judged"],
}

def c23_builds(tier):
    n = int(os.environ.get("VERIF_SEED", "1") or 1) % 1000
    out = []
    for p in range(1, 9 if tier == "thorough" else 5):
        out.append({"name": "hybrid%d" % p, "src": "checks/C23/hybrid.cpp", "opt": "-O0", "std": (14, 17, 20)[p % 3], "cxx": "clang++" if p % 2 else "g++", "defs": ["PART=%d" % p, "NCOMBOS=12", "HSEED=%d" % (n + 1)], "shards": 1})
    for p in range(1, 7):
        out.append({"name": "state%d" % p, "src": "checks/C23/state.cpp", "opt": "-O0", "std": 14 if p in (3, 6) else 20 if p == 5 else 17, "cxx": "clang++" if p % 2 else "g++", "defs": ["PART=%d" % p], "shards": 1})
    out.append({"name": "statesan", "src": "checks/C23/state.cpp", "opt": "-O0", "std": 17, "cxx": "clang++", "san": "asan", "defs": ["PART=4"], "shards": 1})
    out.append({"name": "hybridsan", "src": "checks/C23/hybrid.cpp", "opt": "-O0", "std": 17, "cxx": "clang++", "san": "asan", "defs": ["PART=9", "NCOMBOS=6", "HSEED=%d" % (n + 1)], "shards": 1})
    return out

SPECS["C23"] = {
    "level": "exploration",
    "rule": "Sorters that log each call (which one, the object, its state, the iterators) are combined in hybrids drawn at compile time from the seed (1 to 4 sorters; three iterator categories; six constraints on what they accept; with and without state; every nesting of hybrids), and called with forward, bidirectional and random-access collections of two types, as iterables and iterators, with every combination of comparator and projection, through copies, moves, stable_adapter and function pointers. "
            "Each single-sorter adapter over stateful and empty, stable and unstable sorters; stable_adapter over calls stable always, never or sometimes; self_sort_adapter over collections with each of the 64 sets of sort methods and lists; small_array_adapter over arrays of 1 to 10 elements and seven domains, alone and in hybrids. Distinct by configuration and collection size.",
    "technique": "runtime oracle over the logged calls: the documented choice is recomputed and compared with what was called, on which object, in which state, and with which result",
    "level_note": "Held on the combinations drawn and enumerated.",
    "builds": c23_builds, "min_evaluations": 10000,
    "need_events": ["calls_judged", "rejections_judged", "hybrids", "stabilized_hybrids", "stored_objects_called", "function_pointers_called", "states_followed", "results_judged", "self_sorts_judged", "arrays_judged", "stability_judged"],
}


def c24_builds(tier):
    out = []
    for p in range(1, 18):
        out.append({"name": "same%d" % p, "src": "checks/C24/main.cpp", "opt": "-O1", "std": 20 if p % 3 == 0 else 17, "cxx": "clang++" if p % 2 else "g++", "defs": ["PART=%d" % p, "MODE=0"], "flags": ["-pthread"], "shards": 1})
        out.append({"name": "threads%d" % p, "src": "checks/C24/main.cpp", "opt": "-O1" if p > 15 or tier == "thorough" else "-O0", "std": 17, "cxx": "clang++", "san": "tsan", "defs": ["PART=%d" % p, "MODE=1"], "flags": ["-pthread"], "shards": 1})
    return out

SPECS["C24"] = {
    "level": "exploration",
    "rule": "Every sorter and adapter of the lists, the type-specific, fixed-size and container-aware ones, the probes, sorted_indices, sorted_iterators and apply_permutation, over 36 input patterns: one execution traced (comparisons with their operands and results, projections, moves) and compared with seven others of the same input with other contents of fresh memory and stack, "
            "other placements of the elements, after other (half of them interrupted by exceptions) operations on the same objects, in another thread, in a destructor during stack unwinding, and with callbacks that run operations on the same objects meanwhile; then six threads running everything at once on the same sorter objects with injected yields under ThreadSanitizer, each compared with the sequential trace. Distinct by operation and input.",
    "technique": "runtime monitoring: trace comparison between perturbed executions, ThreadSanitizer over concurrent workloads with injected yields",
    "level_note": "Held on the executions compared and the interleavings observed.",
    "builds": c24_builds, "min_evaluations": 20000,
    "need_events": ["operations_traced", "executions_compared", "executions_while_unwinding", "nested_operations", "histories", "interrupted_histories", "concurrent_calls", "overlapping_calls", "comparisons_in_threads"],
}

def c25_builds(tier):
    return [{"name": "p%d" % p, "src": "checks/C25/main.cpp", "opt": "-O1" if tier == "thorough" else "-O0", "std": (17, 20, 14)[p % 3], "cxx": "g++" if p in (4, 6) else "clang++", "san": "asan", "defs": ["PART=%d" % p], "shards": 1} for p in (16, 10, 18, 13, 15, 14, 5, 12, 1, 17, 11, 2, 9, 3, 4, 6, 7, 8)]

SPECS["C25"] = {
    "level": "exploration",
    "rule": "Every sorter and adapter of the lists over forward, bidirectional and random-access iterators whose reference is a proxy (two zipped collections, or elements which can be moved by iter_move only), with and without iter_swap, and over std::vector<bool>, plus reversed ranges in C++20, the fixed-size and type-specific sorters, nested adapters, probes, sorted_indices, "
            "sorted_iterators and apply_permutation, over 36 input patterns and seven call forms; every half of every element is tracked (halves together, none lost, duplicated, read when moved-from or moved but through iter_move, iter_swap or a store), under ASan and UBSan. Distinct by algorithm, iterator and input.",
    "technique": "runtime monitoring: instrumented proxy iterators and elements, AddressSanitizer and UndefinedBehaviorSanitizer",
    "level_note": "Held on the executions observed.",
    "builds": c25_builds, "min_evaluations": 15000,
    "need_events": ["ranges_sorted", "reversed_ranges_sorted", "bit_ranges_sorted", "typed_ranges_sorted", "ranges_measured", "permutations_applied", "iter_moves", "iter_swaps", "stores", "comparisons", "projections", "dereferences"],
}


def c16_builds(tier):
    out = []
    for p in ALL_PARTS:
        out.append({"name": "forms%d" % p, "src": "checks/C16/forms.cpp", "opt": "-O0", "std": (14, 17, 20)[p % 3], "cxx": "clang++", "defs": ["PART=%d" % p], "shards": 1})
        if tier == "thorough":
            out.append({"name": "forms%dx" % p, "src": "checks/C16/forms.cpp", "opt": "-O1", "std": (17, 20, 14)[p % 3], "cxx": "g++", "defs": ["PART=%d" % p], "shards": 1})
    for p in range(1, 10):
        out.append({"name": "facade%d" % p, "src": "checks/C16/facade.cpp", "opt": "-O0", "std": (20, 14, 17)[p % 3], "cxx": "clang++" if p % 2 else "g++", "defs": ["PART=%d" % p], "shards": 1})
    for p in range(1, 5):
        out.append({"name": "misc%d" % p, "src": "checks/C16/misc.cpp", "opt": "-O0", "std": (20, 14, 17)[p % 3], "cxx": "clang++" if p % 2 else "g++", "defs": ["PART=%d" % p], "shards": 1})
    out.append({"name": "miscsan", "src": "checks/C16/misc.cpp", "opt": "-O0", "std": 20, "cxx": "clang++", "san": "asan", "defs": ["PART=3"], "shards": 1})
    out.append({"name": "facadesan", "src": "checks/C16/facade.cpp", "opt": "-O0", "std": 17, "cxx": "clang++", "san": "asan", "defs": ["PART=9"], "shards": 1})
    return out

SPECS["C16"] = {
    "level": "exploration",
    "rule": "Every sorter and adapter of the lists through some 70 call forms (iterable, temporary, iterators; comparison and projection functions of every kind, given, defaulted or both; function pointers; cppsort::sort and stable_sort; other collections), over generated collections; "
            "sorter_facade over 80 sorter implementations which offer every documented combination of overloads, 19 forms each; global instances, type-specific and fixed-size sorters, overloads without a sorter. Distinct by (sorter, form, input).",
    "technique": "runtime oracle: order under the key that the form means, permutation, equality with the result of the basic call; logs of which overload of the implementation was called, with which callables; callables that report use after move or destruction and unrefined calls; traits compared with what compiles",
    "level_note": "Held on the call forms enumerated and the inputs explored.",
    "builds": c16_builds, "min_evaluations": 20000,
    "need_events": ["calls_judged", "results_compared", "function_pointers", "fragile_calls", "refined_calls", "refinements", "other_collections", "non_const_comparisons", "cxx20_forms",
                    "facade_calls", "iterable_overloads", "iterables_dispatched_to_iterators", "iterator_overloads", "projections_baked", "traits_compared", "calls_not_available", "stateful_calls",
                    "instances_compared", "categories_judged", "typed_calls", "rejections_judged", "calls_without_sorter", "fixed_calls"],
}
