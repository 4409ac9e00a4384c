"""Writes properties.jsonl. Kept as a script only to make the file easy to edit."""
import json
import os

V, N, B, C, S, F, Z = ("src/vector.rs", "src/node_traits.rs", "src/node_impls/basic.rs", "src/circular.rs",
                       "src/size_table.rs", "src/focus.rs", "src/sort.rs")
SHAPES = ("all vectors, however they were built (pushed at either end, in bulk, sliced, concatenated, edited in the middle, with shared "
          "or unshared nodes, balanced or relaxed)")
TREE = [{"name": "InternalVector.left_spine/right_spine/root", "meaning": "nodes along both edges of the tree held outside it; middle in root",
         "where": V}, {"name": "SizeTable", "meaning": "sizes and level of a node's children", "where": S}]
OUT = []


def p(id, title, statement, over, text, why, files, mechanism, state=TREE, observe=("public API of librrb::Vector and ThreadSafeVector",), hook=None):
    assert len(title) <= 80, title
    OUT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, state=state, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                 observe_at=list(observe), hook_needed=hook)))


p("C01", "The two ends behave as those of a sequence",
  "Pushing, popping, reading and writing at either end of a vector has exactly the effect it has on the plain sequence of its elements: the pushed "
  "element becomes the first or last, the popped one is the former first or last (none if empty), length and all other elements keep their values and order. "
  "This holds for any number of such operations in any order, on any vector however it was built.",
  ["inputs", "histories"], SHAPES + ", and all sequences of end operations",
  "The tests push and pop monotone sequences from freshly built vectors at a few sizes and random proptest actions; node borders at both ends of relaxed and shared trees are met by chance only.",
  [V, C, B], [("push_back/push_front/push_side", V), ("pop_side, complete_leaf, fixup_spine_tip", V), ("CircularBuffer push/pop", C)])
p("C02", "Concatenation yields exactly the two sequences, in order",
  "Appending b to a leaves a holding the elements of a followed by those of b; prepending b puts those of b before; either may be empty or a clone of the other. "
  "The result is a full-fledged vector for every later operation, concatenation included, and clones of the operands are unaffected.",
  ["inputs", "histories"], "all pairs of " + SHAPES + ", and chains of concatenations",
  "Only a few pairs of sizes are joined by the tests, mostly of vectors built by pushing; the pairs of heights and of fill levels are not covered.",
  [V, B, S], [("append/prepend", V), ("InternalTrait::pack_children, share_children_with", B), ("SizeTable push/pop", S)])
p("C03", "Splitting and slicing partition the elements at the requested positions",
  "Splitting at i leaves the first i elements and returns the rest, both in order; slicing from the start, to the end, and extracting a range keep or return exactly the elements of the range, "
  "in order, however the range is written. Nothing is lost, duplicated or reordered, both parts work for every later operation, and clones taken before are unaffected.",
  ["inputs", "histories"], SHAPES + ", every position, every kind of range, repeated splits",
  "The tests split a few vectors at sampled positions; positions next to node borders in relaxed trees and repeated splitting are covered by chance only.",
  [V, B, C], [("split_off", V), ("slice_from_start/slice_to_end/extract_slice", V), ("split_at_child/split_at_position", B)])
p("C04", "Insertion and removal in the middle shift exactly what follows",
  "Inserting x at i puts x at position i with all former elements before and after it in order; removing at i returns the element at i and leaves the others in order; "
  "removing past the end returns nothing and changes nothing. This holds at every position, including both ends, any number of times.",
  ["inputs", "histories"], SHAPES + ", every position, repeated edits",
  "The tests insert in one pattern and remove at random from pushed vectors.",
  [V], [("insert", V), ("remove", V)])
p("C05", "Indexed reads and writes reach exactly the addressed element",
  "For every index i, get, get_mut, the guarded mutable access and the index operators reach the i-th element of the sequence, and nothing if i is not less than the length. "
  "A write through any of them is seen by every later read of that index and by no other index.",
  ["inputs"], SHAPES + ", every index (all 64-bit values) and value",
  "A test reads all indices of a few vectors; the position search in relaxed nodes has many more cases.",
  [V, S, B], [("get/get_mut/get_mut_guarded", V), ("SizeTable::position_info_for", S), ("NodeRef/NodeMut get_child_ref", N)])
p("C06", "Clones are independent values",
  "A clone equals its original when taken, and from then on no operation on either - pushes, edits, concatenations, splits, sorting, mutable iteration or focus, dropping - is visible through the other. "
  "This holds for any number of clones taken at any point of a history, with either reference-counting kind.",
  ["inputs", "histories"], "all histories of operations with clones taken at any points",
  "The tests hardly use clones: shared nodes are rarely written while another holder looks on.",
  [V, N, B], [("SharedPointer::make_mut on nodes", B), ("Clone of InternalVector", V), ("SizeTable make_mut", B)])
p("C07", "Iterators yield each element once, in order, from both ends",
  "Shared, mutable and consuming iteration yield every element exactly once, in order from the front and in reverse order from the back, however the two are interleaved, then nothing for ever; size hints and lengths are exact at every step and the derived iterator operations agree. "
  "What a mutable iterator writes is what the vector then holds, and what remains of a consuming iterator is dropped once.",
  ["inputs", "histories"], SHAPES + ", every interleaving of steps from both ends",
  "Tests walk vectors forward or backward; interleavings from both ends and reads past the end are sampled.",
  [V, F], [("Iter/IterMut/IntoIter next, next_back, size_hint", V), ("Focus::index, FocusMut::index", F)])
p("C08", "A focus reads exactly the elements of its range",
  "Reading index i of a focus gives element i of the range it covers, for any order of reads, and nothing for any i past the range. "
  "Narrowing, splitting and cloning a focus, repeatedly and by any kind of range, give foci of exactly the requested sub-ranges, and a focus never shows anything outside its range.",
  ["inputs", "histories"], SHAPES + ", every order of reads, every chain of narrowings and splits, every index (64 bits)",
  "The tests read through un-narrowed foci in order and narrow/split vectors of few shapes; cached paths from earlier reads matter in ways they do not reach.",
  [F, N], [("PartialFocus::move_focus, path", F), ("Focus::narrow/split_at/get/index", F)])
p("C09", "A mutable focus reads and writes exactly the elements of its range",
  "Through a mutable focus, however often it is split and in whatever order its parts are used, each index reads and writes exactly that element of the vector and the parts are disjoint; indices past its range are refused. "
  "When the foci are gone the vector holds exactly what was written, works as before, and clones of it see none of the writes.",
  ["inputs", "histories"], SHAPES + ", every order of accesses, every tree of splits",
  "The tests use few shapes and splits; borrowed nodes that are put back wrongly show only in later operations.",
  [F, N, B, C], [("FocusMut::split_at_fn, index, get", F), ("InnerFocusMut::move_focus, drop", F), ("BorrowedNode, BorrowedBuffer, borrow_node/unborrow_node", N)])
p("C10", "Sorting sorts the range and permutes nothing else",
  "Sorting a vector or any range of it, by natural order, comparator or key, leaves the range ascending and a permutation of what it was, and everything outside the range unchanged. "
  "It terminates for every content and order, without stack use that grows with the number of equal elements.",
  ["inputs"], SHAPES + ", every content, every range, every total order",
  "Proptest sorts random sequences of one shape; ranges, patterns and equal elements in quantity are not covered.",
  [Z, V, F], [("do_single_sort, quicksort/heapsort/insertion sort", Z), ("sort_range_by and the rest", V)])
p("C11", "A dual sort applies one permutation to both vectors",
  "Dual sorting sorts the range of the first vector as a sort does and applies the same permutation to the companion, so that pairs at equal positions stay pairs. "
  "Elements outside the range, in both, stay in place, however differently the two are built.",
  ["inputs"], "all pairs of " + SHAPES + ", every content, range and order",
  "Proptest dual sorts random sequences of one shape, whole.",
  [Z, V, F], [("do_dual_sort", Z), ("dual_sort_range_by and the rest", V)])
p("C12", "Equal-range searches find exactly the equal elements",
  "On a range sorted by the search's order, an equal-range search returns exactly the positions of the elements equal to what is sought, or, if there are none, the position at which it could be inserted keeping order. "
  "The search around an index returns exactly the run of elements equal to the one there; every kind of range is honoured, including empty ones.",
  ["inputs"], SHAPES + ", every sorted content, every range and key",
  "The doc tests search a few vectors; range ends, runs across node borders and empty ranges are not covered.",
  [V, F], [("equal_range_in_range_by", V), ("equal_range_for_index_in_range_by", V)])
p("C13", "Between-range searches find exactly the elements between the bounds",
  "On a sorted range, a between-range search returns exactly the positions of the elements that lie between the two bounds, each included, excluded or absent, or, if there are none, the position where they would be. "
  "Every kind of bound and of range is honoured.",
  ["inputs"], SHAPES + ", every sorted content, every pair of bounds and range",
  "Only doc examples exist for these searches.",
  [V], [("between_range_in_range", V)])
p("C14", "Equality, ordering and hash depend on the elements alone",
  "Two vectors are equal exactly if their sequences of elements are, they compare lexicographically, and equal vectors hash alike, whatever their trees look like. "
  "This holds also between clones and for elements that are not totally ordered.",
  ["inputs"], "all pairs of " + SHAPES + " and contents",
  "No test compares equal sequences held in differently shaped trees, nor hashes.",
  [V], [("PartialEq/PartialOrd/Ord/Hash of InternalVector", V)])
p("C15", "Every element and node is released exactly once, and never used afterwards",
  "Whatever is done with vectors, clones, iterators and foci, an element put in is dropped exactly once - by the last holder - or handed to the caller, and never read after that or before it was written. "
  "When the last holder is gone no memory remains allocated.",
  ["inputs", "histories"], "all histories of operations, with clones dropped in every order",
  "The tests use integers: a leaked, doubly dropped or stale element is invisible to them.",
  [C, B, F, N, V], [("CircularBuffer raw storage, split_at, append_from, drop", C), ("BorrowedBuffer", C), ("InnerFocusMut drop", F), ("make_mut on nodes", B)],
  state=[{"name": "CircularBuffer.front/len/data", "meaning": "which slots are initialised", "where": C}])
p("C16", "The tree keeps its invariants and stays shallow",
  "After every operation of any history the tree's own invariants hold: sizes and levels recorded match the nodes, no node exceeds the width, the spines and the root fit together. "
  "Its height stays logarithmic in the number of elements, so that no sequence of operations makes access cost grow linearly.",
  ["inputs", "histories"], "all histories of operations",
  "The invariants are asserted in tests only, on the vectors the tests happen to build; nothing bounds the height.",
  [V, B, S, N], [("assert_invariants", V), ("fixup_spine_tip, empty_root, extend_spines", V), ("assert_size_invariants", B)],
  observe=("InternalVector::verif_assert_invariants, verif_height",), hook="cfg librrb_verif: verif_height, verif_assert_invariants")
p("C17", "Requests out of range are refused or empty, and do no harm",
  "A position or range that the vector does not have is answered with nothing, a split with nothing on the right, or a panic, as documented; never with a wrong element, and the vector keeps all of its elements in order. "
  "Every operation works on the empty vector, and a companion shorter than what it accompanies is refused before anything is moved.",
  ["inputs"], SHAPES + ", every 64-bit position and every kind of range",
  "The tests stay within range, apart from two that pop an empty vector.",
  [V, F], [("range checks of get, remove, insert, split_off, slices, sort_range", V), ("Focus::get, index", F)])
p("C18", "Bulk construction and reversal produce exactly the stated sequence",
  "Collecting an iterator, building a constant vector of a length, a singleton, an empty or default vector or the vector macro give exactly the stated elements, and reversing all or a range of a vector reverses exactly that range. "
  "The results are independent elements for later writes even where construction shares nodes.",
  ["inputs"], SHAPES + ", every length and range",
  "constant_vec_of_length is tested for few lengths, reverse for one shape.",
  [V, C], [("constant_vec_of_length, from_iter, singleton, vector!", V), ("reverse/reverse_range", V)])
p("C19", "Any mixture of operations agrees with a plain sequence",
  "For any history of operations of all kinds on vectors, where the result of one is the operand of the next, every vector holds at every step exactly what a plain sequence would hold and every operation returns what it would return there. "
  "It holds alike for the reference-counted and the thread-safe vector.",
  ["inputs", "histories"], "all histories of the 24 kinds of operation with all their arguments",
  "Proptest runs random histories of a handful of kinds of operation without clones; states reached only by particular pairs are met by chance.",
  [V, N, B, C, S, F, Z], [("the whole of the public API", V)])
p("C20", "A panic in the caller's code does not break memory safety or other holders",
  "If an element's clone or a comparison panics in the middle of an operation, what can still be read are live elements, none is dropped twice, other holders of shared nodes hold what they held, and all can be dropped. "
  "A sort or search whose comparison panics leaves the same elements in the vector.",
  ["inputs", "fault_sequences"], "all operations, with a panic at any clone or comparison they make",
  "No test panics in user code.",
  [C, B, Z, F], [("CircularBuffer::clone", C), ("make_mut", B), ("swap-based sorting", Z), ("drop of FocusMut on unwinding", F)])
p("C22", "Clones share structure; a write copies only what it must",
  "Cloning copies no element, reading and dropping copy none, and an operation on a vector that is not shared copies none, however large it is. "
  "A single write to a shared vector copies a number of elements bounded by the node width, not by the length.",
  ["inputs", "histories"], "all operations on shared and unshared vectors of any size",
  "No test counts copies; a needless deep copy is invisible to them.",
  [V, B, N], [("Rc/Arc nodes and make_mut", B), ("Clone of InternalVector", V)])
p("C23", "Thread-safe clones and parts of a mutable focus can be used by threads at once",
  "Clones of a thread-safe vector changed by different threads at the same time, a thread-safe vector read by several, and the two parts of a split mutable focus, "
  "each used and dropped by a thread of its own, have the effect of using them one after the other: no data race, no element lost, freed twice or leaked, whatever the interleaving. What may not be used that way (elements that cannot be shared between threads) does not compile: what is Send or Sync never lets safe code race.",
  ["inputs", "schedules"], SHAPES + ", all positions of the split, all pairs of operations and all interleavings of two threads",
  "One test runs a sort on two threads, in whatever interleaving happens, and would not notice a race on a count.",
  [F, B, C], [("Send/Sync of FocusMut and CircularBuffer", F), ("BorrowedInternal::split_at_child", B), ("ArcK nodes, make_mut", B)])
p("C24", "Annotated nodes keep the aggregate of what is beneath them",
  "In a vector of annotated nodes each node's annotation equals the aggregate of the elements beneath it after every operation.",
  ["inputs", "histories"], "all histories of operations", "Unit tests of the module cover single nodes.",
  ["src/node_impls/annotated_basic.rs"], [("annotation tables", "src/node_impls/annotated_basic.rs")], state=[], observe=("private types only",))

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
print(len(OUT))
