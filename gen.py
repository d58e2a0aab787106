#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (committed output; run by hand)."""
import json, os, props
HERE = os.path.dirname(os.path.abspath(__file__))
I = "include/mdds/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech], observe_at=observe, hook_needed=None)))
IH = ["inputs", "histories"]
FST = ["flat_segment_tree.hpp", "flat_segment_tree_def.inl", "flat_segment_tree_itr.hpp", "node.hpp"]
prop("F01", "Flat segment tree insertion is last-write-wins (or first-write-wins)",
 "After any sequence of segment insertions a flat segment tree maps every key of its range to the value of the last segment inserted over it (to the default value where there is none); parts of a segment outside the range are cut off and empty segments change nothing. Every insertion reports whether it changed any key's value and gives a position that can serve as hint, and a hint, right or wrong, never changes the outcome.",
 IH, "every range, every sequence of N segments with any ends and values, front/back/hinted insertion, every probe key",
 "The tests insert a few dozen fixed segments; the interaction of segment ends with existing nodes has many orderings, each a different code path.",
 FST, [("insert, insert_segment_impl, insert_to_pos", "flat_segment_tree_def.inl")], ["search", "iteration", "pair.second of insert*"])
prop("F02", "Flat segment tree queries agree and the tree is canonical",
 "For every key, linear search, hinted search, tree search, leaf iteration (both directions) and segment iteration of a flat segment tree give the same value and the same enclosing segment; keys outside the range are not found. Neighbouring segments always have different values and strictly increasing ends that begin and end with the tree's range.",
 IH, "every tree reachable by N insertions, every key, every start position of the search",
 "The search routines are exercised at a few keys of a few trees; agreement must hold for every key of every tree.",
 FST, [("search, search_tree, search_by_key_impl", "flat_segment_tree_def.inl"), ("build_tree", "node.hpp"), ("const_segment_iterator", "flat_segment_tree_itr.hpp")], ["search", "search_tree", "begin..end", "begin_segment..end_segment"])
prop("F03", "Shifting a flat segment tree moves values by exactly the given amount",
 "Deleting a key range from a flat segment tree moves everything to its right left by the width of the range and fills the right end with the default value; inserting a gap moves everything to its right by the width and fills the gap with the value to its left, or with the default value if the start node is to be skipped. Values pushed beyond the range disappear, the range stays the same and the tree stays canonical.",
 IH, "every tree of N insertions, every range or gap, shifts in sequence",
 "A handful of shift examples in the tests; ends that coincide with nodes, or fall outside, are separate paths.",
 FST, [("shift_left, shift_right, shift_leaf_key_*", "flat_segment_tree_def.inl")], ["search", "iteration"])
prop("F04", "Copying, moving, swapping, clearing and comparing flat segment trees",
 "A copied, moved-to or swapped flat segment tree has exactly the content of its source, later changes of one never show in another, and a cleared tree maps every key to the default value. Two trees compare equal exactly if they have the same range and map every key to the same value.",
 IH, "pairs of trees built by any insertions, every operation, later changes of either",
 "The tests copy two or three fixed trees.",
 FST, [("copy and move constructors, operator=, swap, clear, operator==", "flat_segment_tree_def.inl")], ["operator==", "search"])
ST = ["segment_tree.hpp", "segment_tree_def.inl", "node.hpp"]
prop("S01", "A segment tree search returns exactly the segments that contain the key",
 "After building, a point search in a segment tree returns every inserted segment with start <= key < end exactly once with its value, and nothing else; the result list, its iterators, its size and the result object's copies agree.",
 IH, "every multiset of N segments (duplicates, shared ends), every probe key",
 "Tests search a few fixed sets; the tree shape depends on the order of all end points.",
 ST, [("build_tree, search", "segment_tree_def.inl"), ("descend_tree_for_search", "segment_tree_def.inl")], ["search", "search_results"])
prop("S02", "Erasing from a segment tree removes exactly the chosen segments",
 "Erasing by value or by predicate removes exactly the segments that match and reports how many, the remaining ones are still found by later searches, and further insertions followed by a rebuild behave as if the tree had been built from what is left. A search on a tree that needs a rebuild is refused or reported, never wrong.",
 IH, "every set of N segments, every erasure, reinsertion and rebuild",
 "Few erase histories are tested; stale references from inner nodes show only in particular shapes.",
 ST, [("erase, erase_if, insert, build_tree", "segment_tree_def.inl")], ["search", "size", "valid_tree"])
prop("S03", "Copy, move, equality and rejected input of segment trees",
 "Copies and moved-to segment trees hold the same segments as their source and answer searches alike, and changes of one never show in another. Two trees are equal exactly if they hold the same multiset of segments; an empty or reversed segment is rejected and changes nothing.",
 IH, "pairs of trees of any N segments", "A couple of fixed examples in the tests, none with duplicates.",
 ST, [("copy/move constructors, operator==, insert", "segment_tree_def.inl")], ["operator==", "search", "size"])
PQ = ["point_quad_tree.hpp", "quad_node.hpp"]
prop("P01", "Point quad tree lookup and region search are exact",
 "After any insertions, looking up a point gives the value last stored at exactly that point or reports that there is none, and a region search returns exactly the stored points inside the region, each once. Results iterate forwards and backwards.",
 IH, "every arrangement of N points (shared coordinates included), every region",
 "Quadrant decisions depend on ties between coordinates that fixed examples rarely hit.",
 PQ, [("insert, find, search_region", "point_quad_tree.hpp"), ("get_quadrant", "quad_node.hpp")], ["find", "search_region"])
prop("P02", "Removing a point from a point quad tree removes only that point",
 "Removing a point makes exactly that point unreachable; every other point keeps its value and is still found by lookup and region search, whatever the arrangement. Removing an absent point changes nothing.",
 IH, "every arrangement of N points, every removal, insertions afterwards",
 "Removal of inner nodes has many geometric cases; the tests remove a few points.",
 PQ, [("remove, find_replacement_node, adjust_quad, reinsert_tree", "point_quad_tree.hpp")], ["find", "search_region", "size"])
prop("P03", "Copying, moving, swapping, clearing and comparing point quad trees",
 "A copied, moved-to or swapped point quad tree holds exactly the points of its source, independent of it, and a cleared tree is empty. Two trees are equal exactly if they hold the same points with the same values, whatever the order of insertion.",
 IH, "pairs of trees of any N points in any order", "Only fixed small trees are compared in tests.",
 PQ, [("operator=, swap, clear, operator==", "point_quad_tree.hpp")], ["operator==", "find"])
RT = ["rtree.hpp", "rtree_def.inl"]
prop("R01", "R-tree search returns exactly the matching values",
 "After any insertions an overlap search in an R-tree returns exactly the stored values whose extents overlap the query, an exact search exactly those whose extents equal it, each once, for points and extents alike, with or without forced reinsertion. The tree's size and overall extent match its content.",
 IH, "every arrangement of N extents in 1 or 2 dimensions, every query extent",
 "Node splits choose by areas and margins; the tests cover few arrangements.",
 RT, [("insert, split_node, pick_optimal_distribution, perform_forced_reinsertion", "rtree_def.inl"), ("search", "rtree_def.inl")], ["search", "size", "extent"])
prop("R02", "Erasing from an R-tree removes only the value erased",
 "Erasing the value at a search position removes exactly that value; all others are still found, through any number of erasures and later insertions.",
 IH, "every arrangement of N extents, every value erased, larger trees with any run of erasures",
 "Underflow handling depends on node occupancy on every level.",
 RT, [("erase, erase_impl, shrink_extent_upward", "rtree_def.inl")], ["search", "size"])
prop("R03", "R-trees stay balanced, within capacity and tightly bounded",
 "After any history all leaves of an R-tree are on the same level, every directory holds between its minimum and maximum number of children (the root excepted), every directory's extent is exactly the bounding box of its children, and a root with one child directory is collapsed.",
 IH, "every history of insertions and erasures within the bounds, trees of up to four levels",
 "Structure checks in the tests run on a few fixed data sets.",
 RT, [("split_node, insert_dir, erase_impl, check_integrity", "rtree_def.inl")], ["walk", "check_integrity"])
prop("R04", "A bulk-loaded R-tree is equivalent to one built by insertion",
 "Bulk loading any set of values gives a tree with exactly those values, found by the same searches, structurally sound, and open to later insertion and erasure.",
 IH, "every arrangement of N extents", "Bulk loading is tested with two data sets.",
 RT, [("bulk_loader::pack, pack_level", "rtree_def.inl")], ["search", "walk"])
prop("R05", "Copying, moving, swapping and clearing R-trees",
 "A copied, moved-to or swapped R-tree has the content of its source and stays fully usable and independent under later insertions and erasures; a cleared or moved-from tree is empty and usable.",
 IH, "trees of any N extents, every operation, later changes", "Copies in the tests are read, hardly modified.",
 RT, [("copy/move, operator=, swap, clear", "rtree_def.inl")], ["search", "walk"])
prop("M01", "Sorted string map lookups are exact in both directions",
 "For any table sorted by key, looking up a string gives the value of exactly that key or the null value, whatever the bytes and lengths; looking up a value gives a key that has that value, or an empty string if none has, with either reverse-lookup strategy.",
 ["inputs"], "every sorted table of up to N keys, every query string, every value",
 "Tests use one or two fixed tables.",
 ["sorted_string_map.hpp", "sorted_string_map_def.inl", "cref_wrapper.hpp"], [("find, find_key, hash_key_finder, linear_key_finder", "sorted_string_map_def.inl")], ["find", "find_key"])
TR = ["trie_map.hpp", "trie_map_def.inl", "trie_map_itr.hpp"]
prop("T01", "Trie map behaves as a map from strings to values",
 "After any insertions and erasures a trie map holds exactly the keys inserted and not erased, each with its last value: lookup, size, emptiness and node-by-node traversal say so, and erasing reports whether the key was there. Prefixes and extensions of stored keys are not confused with them, and the empty key and keys with any unit values work.",
 IH, "every history of N insertions, erasures and insertions of keys up to length L over all unit values",
 "Tests use word lists; prefix relations between a missing key and stored keys matter.",
 TR, [("insert, erase, find, find_prefix_node_with_stack", "trie_map_def.inl")], ["find", "erase", "size", "root_node"])
prop("T02", "Trie iteration and prefix search are complete and in key order",
 "Iterating a trie map visits every key exactly once in ascending key order with its value, forwards and backwards, from the ends or from a found key. A prefix search visits exactly the keys that start with the prefix, in the same order.",
 IH, "every map of N keys, every prefix, every start", "Backward iteration and keys that are prefixes of others are tested on few shapes.",
 TR, [("iterator_base::operator++/--, search_results", "trie_map_itr.hpp"), ("begin, prefix_search", "trie_map_def.inl")], ["begin..end", "prefix_search"])
prop("T03", "A packed trie map is equivalent to the map it was packed from",
 "A packed trie map made by copying, by moving or from sorted entries answers lookup, prefix search, iteration and node traversal exactly as the original map.",
 IH, "every map of N keys, three ways of packing, several key unit and pack types", "Packing is tested with word lists of plain letters.",
 TR, [("compact, compact_node, traverse_range, find_child_pos", "trie_map_def.inl"), ("packed_iterator_base", "trie_map_itr.hpp")], ["find", "prefix_search", "begin..end", "root_node"])
prop("T04", "Saving and loading a packed trie map round-trips",
 "Loading a state saved by a packed trie map gives an equal map, whatever its content and value type, and consumes exactly what was saved. A state of another value type or one cut short at any byte is rejected and leaves the map it was loaded into unchanged.",
 ["inputs", "fault_sequences"], "every map of N keys and values, five value types, every cut",
 "Tests round-trip a few maps and never cut a stream.",
 TR, [("save_state, load_state, value_serializer", "trie_map_def.inl")], ["save_state", "load_state"])
prop("T05", "Copying, moving, swapping, clearing and comparing trie maps",
 "Copies and moved-to trie maps, packed or not, have exactly the content of their source and are independent of it; default constructed, cleared and moved-from ones behave as empty maps where the library leaves them so. Two maps are equal exactly if they hold the same keys with the same values.",
 IH, "pairs of maps of any N keys", "Fixed examples only.",
 TR, [("copy/move, operator=, swap, operator==", "trie_map_def.inl")], ["operator==", "find", "begin..end"])
LEVEL_NOTE = ("Within the bounds of the harnesses (see the evidence file and DESIGN.md) every path of the real code, compiled from /repo's current headers to LLVM IR, is executed symbolically and "
 "every assertion, memory access and branch is decided by Z3 for all values of the inputs; counterexamples are replayed natively. Trusts the interpreter in engine/, the models of libstdc++.so functions in rt/, clang's lowering and Z3; sampled paths are cross-checked against native runs. Nothing is claimed beyond the bounds.")
def main():
    P2 = [p for p in P if p["id"] in props.CHECKS] + [p for p in P if p["id"] in NA]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P2: f.write(json.dumps(p) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the compiled library code with SMT (Z3), bounded", level="model_checking", level_note=LEVEL_NOTE) for p in P2 if p["id"] in props.CHECKS]
    m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
        notes="No hooks in /repo: the harnesses use the public API only. check.py replay FILE re-runs a reported input natively.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    missing = [k for k in props.CHECKS if k not in {p["id"] for p in P}]
    assert not missing, missing
NA = {}
if os.path.exists(os.path.join(HERE, "gen_v.py")): exec(open(os.path.join(HERE, "gen_v.py")).read())
if __name__ == "__main__": main()
