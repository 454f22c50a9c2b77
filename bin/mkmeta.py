#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list, so that they stay in step."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SRC = {
    "vector": "core/ds/array/Vector.hpp", "array": "core/ds/array/Array.hpp", "algo": "core/algorithm.hpp", "utils": "core/utils.hpp", "iter": "core/Iterator.hpp",
    "string": "core/ds/string/BasicString.hpp", "ll": "core/ds/linked-list/LinkedList.hpp", "sll": "core/ds/linked-list/SinglyLinkedList.hpp", "dll": "core/ds/linked-list/DoublyLinkedList.hpp",
    "emb": "core/ds/linked-list/EmbeddedList.hpp", "deque": "core/ds/queue/DoubleEndedQueue.hpp", "queue": "core/ds/queue/Queue.hpp", "stack": "core/ds/stack/Stack.hpp", "xstack": "core/ds/stack/XValueStack.hpp",
    "heap": "core/ds/Heap.hpp", "bt": "core/ds/tree/BinaryTree.hpp", "ebt": "core/ds/tree/EmbeddedBinaryTree.hpp", "bst": "core/ds/tree/BinarySearchTree.hpp", "avl": "core/ds/tree/AVLTree.hpp", "map": "core/ds/Map.hpp",
    "uf": "core/ds/set/DisjointSet.hpp", "sma": "memory/StaticMemAllocator.hpp", "libc": "port/libc/libc-dstruct-port.hpp", "smaport": "port/static-memory/sma-dstruct-port.hpp", "spec": "spec/DStructSpec.hpp",
    "common": "core/common.hpp", "static": "dstruct-static.hpp", "all": "dstruct.hpp",
}
FUNC = "runtime monitoring: reference-model oracle over random and exhaustive histories, ASan+UBSan builds"


def add(pid, title, statement, over, text, why, files, mech, observe, technique=FUNC, level="exploration", note=None, state=None):
    fs = [SRC[f] for f in files.split()]
    P.append({"p": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                    "anchors": {"files": fs, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None,
                                **({"state": state} if state else {})}},
              "technique": technique, "level": level,
              "note": note or "Held on the executions counted in the evidence file; not a proof. Trusts the reference model in the driver and the sanitizer runtimes."})


add("C01", "Vector behaves as a sequence", "After any sequence of construction (also with a count), push_back, pop_back, resize, clear, element assignment, copy, move and iteration, a Vector holds exactly the elements, in the order and with the size that a plain sequence would, and every accessor, negative index, iterator walk and find/for_each over it reports them. "
    "This holds for every element type, including elements which own memory or are over-aligned, and capacity is never below size.",
    "histories inputs configurations", "all operation histories, element types and sizes up to thousands, from any allocator", "dstruct_vector runs a few fixed pushes and pops of int; growth and shrink points, re-use after clear, negative indices and non-trivial elements are only sampled at a handful of sizes",
    "vector iter algo", [("Vector::resize / push_back / pop_back growth and shrink", SRC["vector"])], ["size, capacity, [], front, back, begin..end, find, for_each"])
add("C02", "Array, algorithms, comparators and scalar utilities do what they say", "An Array<T, N> of any N holds its N elements through fill, assignment, indexing (negative from the end), copying and iteration; for_each visits every element of any iterator range or primitive range once and in order, and find returns the first match or the end. "
    "max, abs and swap give the right answer for every value, and less/greater order all values, pointers included: a null pointer counts as less than every other one.",
    "inputs configurations", "all ranges, callbacks, values and array lengths, also zero", "dstruct_array, dstruct_for_each and dstruct_test check a few literal arrays of int",
    "array algo utils iter", [("algorithm::find / for_each", SRC["algo"]), ("utility functions", SRC["utils"])], ["return values, visited sequence, guard bytes next to the range"])
add("C03", "String behaves as a NUL-terminated character sequence", "After any sequence of construction and assignment from C strings, push_back, appending, concatenation, clear, copy and move, a String holds exactly the characters of the same operations on a plain character sequence; its size equals the length of c_str(), which is always NUL terminated, and comparison for (in)equality with strings and C strings, indexing, front/back and iteration agree with it.",
    "histories inputs", "all operation histories and contents without embedded NUL", "dstruct_string compares a few literals; every growth boundary, empty strings and strings appended to themselves are left out",
    "string vector", [("BasicString keeps the terminator in its character Vector", SRC["string"])], ["c_str, size, [], front, back, begin..end, ==, !=, +, +="])
add("C04", "Linked lists behave as sequences", "After any sequence of construction, push and pop at the ends offered, clear, copy and move, a singly or doubly linked list holds exactly the elements of a plain sequence, in order, forwards and (doubly) backwards; its size, front and back agree, and find and for_each over it see the same. "
    "A list which became empty in any way is as usable as a new one.",
    "histories inputs", "all operation histories and all element types", "the two list tests push and pop a few ints and never mix operations at both ends or re-use an emptied list",
    "ll sll dll emb", [("head node ring with explicit tail (singly)", SRC["sll"]), ("head node ring (doubly)", SRC["dll"])], ["begin..end, size, front, back, find"])
add("C05", "Embedded lists link exactly what was linked", "Linking and unlinking nodes of intrusive singly or doubly linked lists, at any position and among any number of lists, produces exactly the sequence of nodes the operations describe, in both directions where offered, ending as a ring or at null as it was started. "
    "Payloads and memory next to the nodes are never touched, and converting between a node and its link is the identity for every payload type.",
    "histories configurations", "all link/unlink histories over several lists; payload types of any size and alignment", "embedded_list inserts and deletes a few nodes of one type in one order",
    "emb", [("SinglyLink_/DoublyLink_ add, del, init", SRC["emb"]), ("to_node/to_link offset computation", SRC["emb"])], ["next/prev links, payload, guard bytes"])
add("C06", "Deque behaves as a double-ended sequence for every block size", "After any sequence of push and pop at both ends, clear, copy and move, a DoubleEndedQueue of any block size holds exactly the elements of a plain sequence: size, front, back, indexing (also negative), forward and backward iteration and iterator arithmetic and comparison agree. "
    "Where its blocks lie in memory and how often it grew, wrapped around or shrank makes no difference.",
    "histories configurations", "all histories, block sizes from 1, element types, allocator placements (adjacent ascending, descending, scattered blocks)", "dstruct_deque and dstruct_queue use one block size and few elements, so growth in both directions, wrap-around, block release and adjacent blocks are hardly reached",
    "deque", [("block map with begin/end iterators, growth and shrink", SRC["deque"])], ["size, front, back, [], iterators"])
add("C07", "Queue is FIFO and Stack is LIFO over every underlying structure", "For every history of pushes, pops, copies, moves and clears, a Queue hands out its elements in the order they were pushed and a Stack in the reverse order, each exactly once, with size, empty, front/back/top and iteration agreeing, whatever container they adapt.",
    "histories configurations", "all histories, element types and underlying containers (deque of any block size, lists, vector)", "dstruct_queue and dstruct_stack run one short history on the default container",
    "queue stack deque ll vector", [("adapters forward to the container's ends", SRC["queue"])], ["front, back, top, size, iteration"])
add("C08", "Min/Max stacks always report the extreme of what they hold", "At every moment of every history of push, pop, clear, copy and move, with repeated values and any comparator, getXValue is the extreme of exactly the values on the stack, top is the last value pushed and not popped, and iteration yields exactly the pushed values.",
    "histories inputs", "all push/pop histories including duplicates", "dstruct_xvalue_stack pushes one fixed sequence; repeated extremes and re-use after emptying are not sampled",
    "xstack stack", [("pairs of value and previous extreme on one stack", SRC["xstack"])], ["getXValue, top, empty, iteration"])
add("C09", "Heap always serves the first element and loses none", "Whatever is pushed and popped in whatever order, top is an element which no other held element precedes, popping until empty yields exactly the pushed elements in order, and iteration yields exactly the held elements; equal elements are kept all. "
    "Heap::sort leaves a permutation of its range in order, build leaves a permutation which serves elements in order, and a PriorityQueue is such a heap.",
    "histories inputs", "all push/pop histories, sizes, duplicates, comparators and ranges to sort or build from", "dstruct_heap and dstruct_heap_algo use short fixed arrays, mostly without duplicates",
    "heap vector", [("sift up/down over a 1-based vector", SRC["heap"]), ("build/sort", SRC["heap"])], ["top, size, drained order, sorted range"])
add("C10", "BinarySearchTree behaves as an ordered set", "After any sequence of push, pop of present and absent values, erase through an iterator, clear, copy, move and construction from a range, the tree contains exactly the distinct values pushed and not removed, each once, size counts them, find finds exactly them, and iteration is in comparator order.",
    "histories inputs", "all histories, all tree shapes and value types", "dstruct_binary_search_tree builds one tree and removes a few values; removal of nodes with two children, of the root, duplicates and absent values depend on shapes it never builds",
    "bst bt ebt", [("push/pop/erase on linked nodes", SRC["bst"])], ["size, find, begin..end"])
add("C11", "AVLTree behaves as an ordered set and stays balanced", "After any sequence of push, pop, erase through an iterator, clear, copy and move, an AVL tree contains exactly the values pushed and not removed, in order, with size and find agreeing. "
    "Its height is always the height of the actual tree and within the AVL bound for its size, so that every subtree is balanced.",
    "histories inputs", "all histories and shapes; every rotation case on insertion and removal", "dstruct_avl_tree inserts one fixed sequence; rebalancing after removals, of the root and in both mirror cases is not reached",
    "avl bt ebt", [("height bookkeeping and rotations on push and erase", SRC["avl"])], ["size, find, begin..end, height, traversals"])
add("C12", "Every tree traversal visits every node once, in the order named", "For every tree shape, pre-, in- and post-order traversal with a callback, the iterators of each order, and the link-level functions on embedded trees visit every node exactly once and in exactly the order the name promises; rotations at link level keep the in-order sequence. "
    "An empty tree's traversal is empty.",
    "inputs histories", "all tree shapes reached by any history; all orders", "the tree tests print or compare one or two small trees in few orders",
    "ebt bt bst avl", [("EmbeddedBinaryTree traversal and stepping functions", SRC["ebt"]), ("iterator per traversal order", SRC["bt"])], ["visited sequence per order"])
add("C13", "Map behaves as a dictionary", "After any sequence of indexed writes and reads, push, pop of present and absent keys, erase, clear, copy and move, a Map associates exactly the keys present with their last written values, each key once, in key order when iterated; lookup of a missing key inserts a default value through [] and finds nothing through find.",
    "histories inputs", "all histories, key and value types, comparators", "dstruct_map writes and reads a few keys; removal, overwriting after removal and copies are not sampled",
    "map avl", [("AVL tree of key/value pairs ordered by key", SRC["map"])], ["[], find, size, begin..end"])
add("C14", "DisjointSet is the partition generated by the joins", "After any sequence of joins, finds and connectivity queries, also of an element with itself or with an element already joined, two elements are connected exactly if a chain of joins connects them, find returns one common member per set, and count is the number of sets. "
    "Queries never change any answer, and long chains of joins are answered within a small call stack.",
    "histories inputs", "all join histories and sizes up to millions", "dstruct_ufset joins a handful of elements",
    "uf vector", [("parent array with negative ranks, path compression", SRC["uf"])], ["find, connected, count, size"])
add("C15", "Copies are deep, equal and independent", "Copy construction and copy assignment (also onto itself, onto a non-empty or an emptied object, or from an empty one) give an object equal to the source and leave the source unchanged; afterwards no operation on either, including destruction in any order, has any effect on the other. "
    "What the target held before is released exactly once.",
    "histories", "all histories of copies among several live objects of every owning container, interleaved with changes of all of them", "the tests copy rarely and hardly change both objects afterwards; sharing shows only in particular orders of later changes and destructions",
    "common vector string ll sll dll deque heap xstack bt bst avl map uf", [("DSTRUCT_COPY_SEMANTICS and per-container copy", SRC["common"])], ["every object of the pool after every operation"])
add("C16", "Moves transfer everything and leave a usable empty source", "Move construction and move assignment make the target hold exactly what the source held and release what the target held before; the source is then empty and can be used, refilled, assigned to and destroyed like a new object. "
    "Moving an object onto itself, or moving from an empty one, loses nothing.",
    "histories", "all histories of moves among several live objects of every owning container, with use of moved-from objects", "the tests hardly ever use an object after it was moved from, nor move empty objects",
    "common vector string ll sll dll deque heap xstack bt bst avl map uf", [("DSTRUCT_MOVE_SEMANTICS and per-container move", SRC["common"])], ["source and target after every move"])
add("C17", "Every element is constructed and destroyed exactly once", "For every history, each element object a container creates is constructed exactly once before use, never used, copied from or assigned to outside its lifetime, never relocated bytewise, and destroyed exactly once, at the latest with its container. "
    "Removing elements destroys them promptly: the number of live element objects follows the contents of the containers.",
    "histories", "all histories of all owning containers with element types that have constructors and destructors", "the tests use int, for which construction and destruction do nothing observable",
    "common vector ll deque heap xstack bt bst avl map", [("construct/destroy helpers", SRC["common"])], ["constructor, destructor, copy, assignment and comparison of a registering element type"],
    technique="runtime monitoring: lifetime-registering element type (exactly-once oracle), ASan+UBSan builds")
add("C18", "Allocator contract: own allocator only, every block returned once, right size", "A container takes memory only from the allocator it was given, asks for positive sizes, returns every block exactly once to that allocator with the size it was obtained with, and has returned all of it once it is destroyed; it never depends on fresh memory being zero or on where blocks lie. "
    "Static and intrusive structures allocate nothing.",
    "histories configurations", "all histories of all containers with any conforming allocator, including ones that recycle blocks at once, hand out adjacent blocks and fill memory with garbage", "the tests use malloc and ignore the sizes passed to free, so mismatched sizes, leaks and foreign allocators go unnoticed",
    "spec vector string ll sll dll deque queue stack xstack heap bst avl map uf array", [("AllocSpec/allocator parameter", SRC["spec"])], ["allocate/deallocate of a monitored allocator, malloc hooks"],
    technique="runtime monitoring: ledger allocator with poisoning and malloc interception")
add("C19", "Static allocator blocks are aligned, inside the pool, disjoint and left alone", "Every block StaticMemAllocator hands out is aligned, lies inside its pool, overlaps no other live block, and keeps its contents until it is returned, whatever sequence of allocations, frees and merges surrounds it.",
    "histories configurations", "all allocate/deallocate/merge histories for all pool and size-class configurations", "dstruct_static_mem_allocator runs a few fixed sequences and does not check contents or overlap",
    "sma", [("size-class free lists and first-fit pool", SRC["sma"])], ["allocate, block contents"], technique="runtime monitoring: interval model and content patterns over random, carving and exhaustive histories")
add("C20", "Static allocator accounting is exact and failures change nothing", "free_mem_size is at all times the pool size minus the rounded sizes of live blocks; max_free_mblock_size never exceeds the largest free range, and an allocation succeeds exactly if its rounded size does not exceed it. "
    "Requests that are not positive or exceed the pool, and frees of nothing, are refused and, like any failed request, change nothing; after everything is returned the whole pool is available again.",
    "histories inputs", "all histories including invalid and unsatisfiable requests", "the test checks free_mem_size at a few points of one history",
    "sma", [("mFreeMemSize accounting, request validation", SRC["sma"])], ["free_mem_size, max_free_mblock_size, allocate result, dump verification"], technique="runtime monitoring: interval model as online oracle over random, carving and exhaustive histories")
add("C21", "memory_merge joins all adjacent free memory", "After memory_merge every maximal range of free memory is one block: the largest free block equals the largest gap between live blocks and can be allocated, in whatever order and sizes the neighbours were freed, and live blocks are unaffected.",
    "histories", "all free orders, block sizes and live-block patterns", "the test merges one pattern once",
    "sma", [("memory_merge over size classes and pool", SRC["sma"])], ["max_free_mblock_size after merge, allocation of that size"], technique="runtime monitoring: interval model as online oracle over random, carving and exhaustive histories")
add("C22", "Everything works the same on static memory", "With the static memory port, and for all containers of the static-memory namespace, every container keeps all its guarantees while taking memory from the fixed pool only, never from malloc; several kinds of containers share one pool without disturbing each other. "
    "The port merges free memory before giving up on a request, and once all containers are gone the pool is whole again.",
    "histories configurations", "all container histories that fit the pool", "dstruct_smemory_vector pushes a few ints into one Vector",
    "smaport sma static all", [("port allocate: retry after merge", SRC["smaport"]), ("smemory aliases", SRC["static"])], ["container models, pool accounting before and after, malloc hooks"], technique="runtime monitoring: reference models plus pool ledger in the ENABLE_SMA build")
add("C23", "Arguments may alias the container", "Every operation that takes an element or a container by reference works correctly when the argument is (part of) the object operated on: pushing or resizing with one of its own elements, appending or assigning a container to itself, removing or searching for a value by a reference into the container.",
    "histories inputs", "all operations, with aliased arguments, at every size including those where storage is reallocated or the referenced element itself is removed", "no test passes a reference into the container itself",
    "vector string ll sll dll deque heap xstack bst avl map", [("order of copying the argument and releasing storage", SRC["vector"])], ["contents afterwards, lifetime of the argument"])
add("C24", "Checked misuse stops the program instead of corrupting it", "Where the library checks a precondition (index out of range of a vector, string or heap, popping from or looking at an empty vector, list, string, stack or heap where it is checked, a missing key through a const map, inserting a value already in an AVL tree, invalid frees and exhausted static memory), breaking it always stops the program at once, by a failed assertion or the deliberate crash, in every state of the container and with no effect on anything else first. "
    "The nearest valid use never stops.",
    "inputs histories", "all checked operations, all offsets beyond the valid range, all states", "tests must not crash, so no test passes a bad index",
    "common spec vector string heap ll sll dll map avl sma smaport", [("DSTRUCT_ASSERT / DSTRUCT_CRASH guards", SRC["spec"])], ["termination cause of a child process per misuse"], technique="runtime monitoring: fail-stop oracle on forked children, plus valid neighbours in process")
add("C25", "A failed allocation never leads to lost, duplicated or overwritten data", "When any allocation fails in the middle of any operation, the program either stops at once by the library's deliberate crash, or goes on with every container exactly as specified; it never goes on with lost, duplicated or damaged elements, and never writes anywhere else.",
    "fault_sequences histories", "every allocation of a history as the failing one, for all containers", "no test makes an allocation fail",
    "common spec vector ll deque bst avl", [("construct refuses null, growth order of allocation and release", SRC["common"])], ["models after the fault, termination cause of a child process per fault"], technique="runtime monitoring with allocation fault injection in forked children", level="fault_enumeration")
add("C26", "Memory footprint follows the contents", "The memory a container holds is bounded by a constant multiple of its largest recent contents plus a constant, no matter how long it is used: a queue or deque of bounded length through which unbounded traffic flows, a vector or stack that oscillates in size, and lists, trees and maps after removals give back what they no longer need.",
    "histories", "unboundedly long histories with bounded contents, at every block size", "no test runs long enough to see growth",
    "deque queue vector stack xstack heap ll bst avl map", [("block release in the deque, shrink in the vector", SRC["deque"])], ["live and peak bytes of a monitored allocator"], technique="runtime monitoring: footprint ledger over long soak histories")
add("C27", "Operations stay within their cost class", "Pushing and popping at the ends is amortized constant in element copies, allocations and memory obtained for vector, deque, lists, stacks and queues; heap push and pop are logarithmic in comparisons; AVL tree and map operations are logarithmic in comparisons for every insertion order, and union-find operations are logarithmic or better. "
    "No sequence of operations, including oscillation around a growth or shrink point, falls out of this, and a vector or heap takes no memory for an element that still fits the capacity it announces.",
    "histories inputs", "all histories and orders, sizes up to hundreds of thousands", "tests are too small to see a cost",
    "vector deque heap avl map uf ll", [("geometric growth with hysteresis", SRC["vector"]), ("balancing", SRC["avl"])], ["counts of comparisons, element copies and allocations per operation"], technique="runtime monitoring: logical work counters against generous bounds (never wall-clock time)")
add("C28", "References and iterators stay valid where node-based storage promises it", "An element of a list, a deque, an AVL tree or a map stays at its address, with its value, from its insertion until it is itself removed, whatever is inserted, removed, rebalanced, or moved around it, and an iterator to it keeps denoting it.",
    "histories", "all histories of other operations between taking and using the reference", "no test keeps a reference or iterator across later changes",
    "ll sll dll deque avl map", [("one node per element, rotations relink nodes", SRC["avl"])], ["element addresses over time"])
add("C29", "No undefined behaviour in valid use", "No valid use of any container, algorithm or allocator reads or writes outside its objects, reads uninitialised memory, uses memory after release, overflows, misaligns or otherwise triggers undefined behaviour, fails an internal assertion, or does not return; results do not depend on compiler or optimisation level.",
    "histories inputs configurations", "all valid histories over all containers, element types, allocator placements, compilers", "the tests run uninstrumented, so such errors pass silently",
    "vector string ll sll dll deque queue stack xstack heap bt ebt bst avl map uf array emb sma", [("all of the library", SRC["all"])], ["AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, poisoned allocator memory, hang timer"], technique="sanitizers (ASan, UBSan, MSan) over model-checked random histories, several compilers")
add("C30", "Order comes only from the comparator the container was given", "Trees, heaps, extreme-value stacks and maps order elements solely by calling the comparator object they were constructed with, including its state, also after being copied, moved or assigned; trees, heaps and maps need no operators of the element type, and a tree or map treats as equal exactly what the comparator does not distinguish.",
    "inputs configurations histories", "all strict weak orders, including stateful and reversed ones, and element types without operators", "tests use the default less/greater on int",
    "heap bst avl map xstack", [("stored comparator object", SRC["avl"])], ["comparator calls tagged with the identity of the comparator object"])
add("C31", "Distinct objects are independent across threads; const reads are safe together", "Threads that each use their own containers (with the default allocator) never interfere, and any number of threads may read and copy the same containers through const access at once; there is no hidden shared mutable state.",
    "schedules histories", "all interleavings of operations on distinct objects and of const reads of shared objects", "all tests are single threaded",
    "common vector string ll deque queue heap xstack bst avl map uf libc", [("no global or mutable state outside the static allocator", SRC["common"])], ["data races reported by ThreadSanitizer, per-thread models"], technique="ThreadSanitizer over multi-threaded workloads with per-thread reference models")

add("C32", "Every build configuration gives the same library", "A program using the library behaves the same in every supported configuration: with any language standard from C++11, with g++ and clang++, at every optimisation level, with assertions compiled in or out, with or without exceptions and RTTI, on heap or on static memory (ENABLE_SMA), and with allocator logging and verification (ENABLE_SMA_LOG, ENABLE_SMA_DUMP) switched on. "
    "It may include the library in several translation units which hand objects to each other and share one static memory pool, and keep containers in static storage, filled before and destroyed after main.",
    "configurations histories", "all configurations, all histories of operations distributed over translation units", "the tests are built once, in one configuration, from single translation units",
    "all static common spec smaport libc sma vector string sll dll deque queue stack xstack heap bst avl map uf", [("DSTRUCT_ASSERT and port selection by macros", "port/dstruct-port.h"), ("function-local static pool", SRC["sma"])], ["digest of everything a history observes, per configuration"],
    technique="runtime monitoring: offline comparison of recorded observation logs of the same histories across build configurations")

add("C33", "Containers hold containers", "Any container may be the element of any other, to any depth: the outer one holds exactly the inner objects put into it, with their contents, through its growth, copies, moves, removals and destruction; inner objects which are filled, emptied, assigned, moved from, moved out or swapped in place change alone, and everything any level owned is released exactly once. "
    "Copies are deep at every level, and an inner object which was moved away stays in its place, empty and usable.",
    "histories configurations", "all combinations of containers as elements of containers, all histories at all levels", "no test puts a container into a container",
    "common vector string ll sll dll deque queue stack xstack heap bst avl map utils", [("element construction, assignment and destruction through the element's own big five", SRC["common"]), ("relocation on growth", SRC["vector"])], ["contents of every inner object, live allocations and elements"],
    technique="runtime monitoring: nested reference models over random histories at all levels, ASan+UBSan builds")
add("C34", "Iterators of every container obey one contract", "An iterator of any container denotes one position: == and != compare positions, copies, assignments, moves and swaps (also onto itself) carry the position, pre- and post-steps forwards (and backwards where offered) reach the neighbouring element and give the new and the old position, + and - by any offset within the range land where that many steps do, differences count the steps, * and -> denote the same element, and writing through an iterator changes just that element. "
    "Iterators over one container do not disturb each other, a walk over const access gives the same elements, sub-ranges work with find and for_each, and an iterator from find or erase goes on like one which was walked there.",
    "inputs histories", "all containers, contents, positions, offsets and walks", "tests iterate from begin to end once with post-increment",
    "iter algo vector array string ll sll dll deque queue stack xstack heap bt bst avl map", [("PrimitiveIterator", SRC["iter"]), ("block iterator of the deque", SRC["deque"]), ("in-, pre- and post-order iterators", SRC["bt"])], ["positions, comparisons, denoted elements"],
    technique="runtime monitoring: iterator laws as online oracle over random contents and walks")

add("C35", "The time of an operation does not grow with what the container holds", "Asking for the size, emptiness, capacity or height, looking at either end, the top or the extreme, random access in vector, array and string, begin, end and stepping an iterator take a constant number of steps however much the container holds and whatever was done before; so do moving, swapping and every push and pop of a list, and pushes and pops at the ends of the other sequences on average. "
    "Finding, inserting and removing in heap, AVL tree, map and union-find take steps in proportion to the logarithm, offsets into a deque to the offset, and copying, walking, clearing and destroying to the number of elements.",
    "inputs histories", "all containers, sizes and histories of growth, shrinking, copies and moves; search trees which are not balanced for random insertion orders", "the tests hold a few elements, for which a walk through all of them costs nothing",
    "vector array string ll sll dll deque queue stack xstack heap bt bst avl map uf", [("size, front and back", SRC["ll"]), ("moves", SRC["deque"]), ("height kept in the nodes", SRC["avl"]), ("size kept in the tree", SRC["bt"])], ["basic blocks executed by every operation"],
    technique="runtime monitoring: exact step counts from compiler instrumentation (trace-pc) against limits of the cost class")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"]) + "\n")
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks were added to /repo: all monitors observe through the public interface, the allocator parameter, the element type, the comparator and the sanitizer runtimes", "source_commits": []},
         "checks": [{"property": x["p"]["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % x["p"]["id"], "thorough_cmd": "python3 bin/check.py %s --tier thorough" % x["p"]["id"],
                     "evidence_file": "evidence/%s.json" % x["p"]["id"], "technique": x["technique"], "level": x["level"], "level_note": x["note"]} for x in P],
         "not_applicable": [], "notes": "see DESIGN.md"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")


main()
