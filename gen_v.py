MV = ["multi_type_vector/soa/main_def.inl", "multi_type_vector/aos/main_def.inl", "multi_type_vector/types.hpp", "multi_type_vector/block_funcs.hpp"]
SOA, AOS = "multi_type_vector/soa/main_def.inl", "multi_type_vector/aos/main_def.inl"
prop("V01", "A multi_type_vector is written like a flat array of typed cells",
 "After any sequence of set, range set, set_empty, push_back, emplace_back, push_back_empty, resize, clear and shrink_to_fit a multi_type_vector (either storage layout) has at every position exactly the type and value last written there, or is empty there. Its blocks tile the whole length without gaps, no two neighbouring blocks have the same type, and the iterator returned refers to the block at the position written. A position outside the vector is refused with std::out_of_range and nothing changes.",
 IH, "every arrangement of blocks (empty ones of any length), every operation at every position including ones near the largest, every probe position",
 "Where a write begins and ends relative to block borders and neighbour types selects one of some dozens of code paths; the tests visit fixed positions.",
 MV, [("set_impl, set_cells_impl, set_empty_impl, push_back, resize, merge_with_adjacent_blocks", SOA), ("the same", AOS)], ["get", "get_type", "is_empty", "position", "begin..end", "size"])
prop("V02", "Inserting into and erasing from a multi_type_vector shifts everything behind by exactly that much",
 "insert and insert_empty put the given cells before the given position and move everything from there on by their number; erase removes exactly the given range and closes the gap. Every other cell keeps type and value, blocks that meet with equal types are merged, block positions stay exact, and an invalid position or range is refused and changes nothing. Both storage layouts behave alike.",
 IH, "every arrangement of blocks, every range, mixed with the other operations",
 "Merging after erasure and splitting at insertion depend on both neighbours' types; few combinations are tested.",
 MV, [("erase_impl, erase_in_single_block, insert_cells_impl, insert_empty_impl", SOA), ("the same", AOS)], ["get", "position", "begin..end", "size"])
prop("V03", "Positions, hints and iterators of a multi_type_vector are exact",
 "position() gives the block that contains a position and the offset in it, with or without a hint; next_position, advance_position and logical_position agree with looking the position up; forward and reverse iteration meet the same blocks in opposite order. A position hint, whichever block of the container it refers to and even one of another container, never changes what an operation does or which positions it refuses.",
 IH, "every arrangement of blocks, every position, every step, every block as hint",
 "Hints are an optimisation; a wrong result needs a particular relation of hint and position, and the tests pass only obvious hints.",
 MV + ["multi_type_vector/soa/iterator.hpp", "multi_type_vector/aos/iterator.hpp"], [("get_block_position (hinted), position, advance_position, next_position", SOA), ("iterator_base", "multi_type_vector/soa/iterator.hpp")], ["position", "advance_position", "set(hint, ...)"])
prop("V04", "Transferring or swapping ranges between multi_type_vectors moves exactly those cells",
 "transfer moves the cells of the source range to the destination position and leaves empty cells behind; swap of ranges exchanges the cells of two equally long ranges. All other cells of both vectors stay as they were, both stay in canonical form, elements are neither copied nor lost, and an invalid range on either side is refused and changes neither vector.",
 IH, "pairs of vectors of any block arrangement, every range and destination, hints",
 "The ranges' borders relative to the blocks of both vectors multiply the cases; only some are tested.",
 MV, [("transfer_impl, transfer_single_block, transfer_multi_blocks, swap_impl, swap_single_blocks, swap_multi_to_multi_blocks", SOA), ("the same", AOS)], ["get", "begin..end"])
prop("V05", "Managed elements of a multi_type_vector are owned exactly once",
 "A vector with managed element blocks deletes every element it owns exactly once: when it is overwritten, erased, cleared, cut off or the vector is destroyed, and not when it is released, transferred, swapped or moved. release and release_range hand the elements to the caller, leave the positions empty and keep everything else.",
 IH, "every arrangement of blocks with owned elements, every operation, release of any cell or range",
 "A leak or double delete shows only under a memory checker and on the path that has it.",
 MV, [("managed_element_block, noncopyable_managed_element_block", "multi_type_vector/types.hpp"), ("release, release_range, delete_element_block", SOA)], ["release", "memory"])
prop("V06", "Copying, cloning, moving, swapping, comparing and constructing multi_type_vectors",
 "A copy, clone, moved-to or swapped vector has exactly the cells of its source and later changes of one never show in another; a moved-from vector is empty and usable; copying refuses non-copyable blocks. Vectors are equal exactly if they have the same length and equal cells, however they came about; construction from a length, a value or a sequence gives exactly those cells or is refused.",
 IH, "pairs of vectors of any block arrangement, every operation, later changes of either", "Copies of fixed vectors only; no test uses a vector after moving from it.",
 MV, [("copy and move constructors, operator=, clone, swap, operator==", SOA), ("the same", AOS)], ["operator==", "get", "size"])
prop("V07", "Block events of a multi_type_vector balance",
 "Counting element blocks reported as acquired minus those reported as released always gives the number of element blocks the vectors using the handlers hold, through every operation, copy, move and swap.",
 IH, "every arrangement of blocks, every operation, two vectors exchanging content",
 "Event counts are asserted at selected points; a path that forgets one event leaves the content right.",
 MV, [("m_hdl_event.element_block_acquired / released", SOA), ("the same", AOS)], ["event handler"])
prop("V08", "Copy-on-write sharing between multi_type_vectors is invisible",
 "With copy-on-write enabled a clone shares blocks with its source, and yet every later change of either, through any operation, shows in that one alone; detaching gives each its own blocks; shared elements are released exactly once.",
 IH, "any vector, any clone or move of it, any change of either, then detaching, then reading both",
 "Isolation must hold for every mutating operation on every arrangement; the tests check some operations.",
 MV, [("m_cow_store, detach, unborrow_block", SOA)], ["get", "detach", "memory"])
prop("V09", "Every element store of a multi_type_vector behaves alike",
 "Boolean blocks, blocks on std::vector and blocks on delayed_delete_vector store, shift, exchange and give back elements in the same way. A delayed_delete_vector behaves as an array under any history of insertions, erasures at the front or elsewhere, resizing, assignment, copy, move and swap, whatever number of erased front elements it still holds.",
 IH, "histories of N operations on a store with any number of delayed removals; vectors with boolean and std::vector blocks under every operation",
 "The delayed front removals change the index arithmetic of every later operation; tests remove from the front of few stores.",
 ["multi_type_vector/delayed_delete_vector.hpp", "multi_type_vector/types.hpp"], [("erase, resize, clear_removed, swap", "multi_type_vector/delayed_delete_vector.hpp"), ("element_block", "multi_type_vector/types.hpp")], ["get", "iteration", "size"])
prop("V10", "Bulk adjustment of block positions is exact for every unrolling variant",
 "In a multi_type_vector with many blocks, an insertion or erasure near the front moves the position of every later block by exactly the size of the change, for every loop-unrolling and SIMD variant and every number of blocks.",
 ["inputs"], "block counts over every remainder of the unrolling factor, every size of change, every block probed",
 "The remainder loop of an unrolled variant is wrong only for particular block counts.",
 ["multi_type_vector/soa/block_util.hpp"], [("adjust_block_positions", "multi_type_vector/soa/block_util.hpp")], ["position", "get_type"])
prop("V11", "A clone that fails leaves every multi_type_vector as it was",
 "When cloning an element throws, at whichever element, cloning a multi_type_vector throws and the source is unchanged; with copy-on-write enabled, the operation that needed to detach does not happen: both sharers keep exactly their cells and stay usable. Elements cloned before the failure are deleted, nothing leaks, nothing is deleted twice, and block events stay balanced.",
 ["inputs", "fault points"], "every arrangement of blocks, every operation, failure at any of the first cloned elements",
 "A failure in the middle of several blocks needs a throwing clone at a particular element; no test lets one fail except at fixed places.",
 MV, [("detach_impl, clone construction", SOA), ("clone construction", AOS), ("clone_block, element_block", "multi_type_vector/types.hpp")], ["get", "memory", "event handler"])
MX = ["multi_type_matrix.hpp", "multi_type_matrix_def.inl"]
prop("X01", "A multi_type_matrix is a two-dimensional array of typed elements",
 "After any sequence of set, range set, set_column, set_row_empty, set_column_empty, set_empty, resize with or without a value, copy from an array or from a matrix of another size, transpose, swap, assignment, copy, move and clear, every element has exactly the type and value these operations say and every getter reads it so; the size is exact, and resize, copy and transpose keep or move every element as defined. Matrices are equal exactly if their sizes and elements are. Elements outside the matrix and arrays of the wrong size are refused and change nothing.",
 IH, "matrices of up to 1000 rows and a few columns with runs of elements at any position, every operation at any position, any probe; 32-bit and 64-bit integer elements",
 "A range or resize passes through column borders differently for every number of rows; the tests use few sizes and no integer matrix is transposed or resized.",
 MX, [("set, set_empty, set_row_empty, resize, copy, transpose, operator==", "multi_type_matrix_def.inl")], ["get_*", "get_type", "size", "operator=="])
prop("X02", "Walking a multi_type_matrix visits each element of the range once and in order",
 "walk over a whole matrix or a sub-matrix passes the blocks of exactly the elements in the range, column by column; a parallel walk over two matrices of equal size passes matching elements together. A range that is empty, reversed or passes the border of either matrix is refused.",
 ["inputs"], "every matrix within bounds, every sub-range", "A sub-range that begins or ends inside a block meets one of several clipping rules; the tests walk few ranges.",
 MX, [("walk, block_node, assign_walk_args", "multi_type_matrix_def.inl")], ["walk"])
prop("X03", "A collection traverses its vectors side by side without skipping or repeating anything",
 "Iterating a collection of equally long multi_type_vectors gives, for every position of the chosen range and every chosen vector in turn, the node with exactly that position, vector, type and value, to the end and no further; copied and swapped collections do the same. Vectors of different lengths and ranges outside them are refused.",
 ["inputs"], "several vectors with any arrangement of elements, any range of positions and of vectors, iteration by pre- and post-increment",
 "Each vector changes block at its own positions; the tests use a few aligned examples.",
 ["multi_type_vector/collection.hpp", "multi_type_vector/collection_def.inl"], [("side_iterator", "multi_type_vector/collection.hpp"), ("collection::init_insert_vector, set_element_range", "multi_type_vector/collection_def.inl")], ["iteration", "swap"])
