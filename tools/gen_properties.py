#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

VEC="core/ds/array/Vector.hpp"; ARR="core/ds/array/Array.hpp"; DEQ="core/ds/queue/DoubleEndedQueue.hpp"
SLL="core/ds/linked-list/SinglyLinkedList.hpp"; DLL="core/ds/linked-list/DoublyLinkedList.hpp"; LL="core/ds/linked-list/LinkedList.hpp"
EL="core/ds/linked-list/EmbeddedList.hpp"; HEAP="core/ds/Heap.hpp"; MAP="core/ds/Map.hpp"; AVL="core/ds/tree/AVLTree.hpp"
BST="core/ds/tree/BinarySearchTree.hpp"; BSTB="core/ds/tree/BinarySearchTreeBase.hpp"; BT="core/ds/tree/BinaryTree.hpp"; EBT="core/ds/tree/EmbeddedBinaryTree.hpp"; TB="core/ds/tree/tree-base.hpp"
STK="core/ds/stack/Stack.hpp"; XST="core/ds/stack/XValueStack.hpp"; QUE="core/ds/queue/Queue.hpp"; DSU="core/ds/set/DisjointSet.hpp"
STR="core/ds/string/BasicString.hpp"; SMA="memory/StaticMemAllocator.hpp"; PORT="port/dstruct-port.h"; LIBC="port/libc/libc-dstruct-port.hpp"; SMAP="port/static-memory/sma-dstruct-port.hpp"
COM="core/common.hpp"; UT="core/utils.hpp"; IT="core/Iterator.hpp"; SPEC="spec/DStructSpec.hpp"; ALG="core/algorithm.hpp"; DH="dstruct.hpp"; DSH="dstruct-static.hpp"

p("C01","Vector behaves as the ideal growable sequence under every history",
  "After any history of pushes, pops, indexed or iterator writes, clears, resizes and n-copies construction, a Vector reports exactly the size, emptiness, front, back, indexed elements (a negative index counts from the back) and iteration order of the ideal sequence that history describes. Growing or shrinking the storage never loses, duplicates, reorders or changes an element, and capacity is never below size. One-argument resize(n) keeps the first min(n,size) elements; two-argument resize(n,v) gives exactly n elements, the added ones equal to v.",
  ["histories","inputs"],"all operation histories; all sizes, capacities and index arguments within the explored bound",
  "The examples push/pop ten ints in one order; reallocation happens at history-dependent sizes, so only exploring all (size, capacity) states with every operation decides it.",
  [VEC,COM],[("grow in push_back / shrink in pop_back",VEC+": push_back, pop_back"),("resize(n), resize(n, element)",VEC+": resize")],
  [("size/capacity/buffer","live prefix of the buffer is the sequence",VEC+": data member")],["dstruct::Vector public API"])
p("C02","Array is a fixed-size sequence with Python-style negative indices",
  "An Array of N elements always has size N and is empty only when N is 0; index i and index i-N name the same element for every 0<=i<N, on const and non-const arrays, and front, back and iteration agree with the indices. The fill constructor sets every element, and a write through an index or iterator changes that element only.",
  ["histories","inputs"],"every write history on arrays of each explored N, all valid indices",
  "The example checks one array of ten ints; the guarantee is per index and per N.",
  [ARR,IT],[("negative index normalisation",ARR+": operator[]"),("fill constructor",ARR+": Array(ConstReferenceType)")],None,["dstruct::Array public API"])
p("C03","Deque behaves as the ideal double-ended sequence for any block size",
  "After any history of pushes and pops at both ends, clears, copies and moves, a Deque reports exactly the size, emptiness, front, back, indexed elements (negative from the back) and iteration order of the ideal double-ended sequence. This holds for every block size and wherever the elements lie in the internal storage, including when it grows or shrinks and when the deque is empty, freshly cleared or was never filled.",
  ["histories","configurations"],"all push/pop histories at both ends, block sizes 1,2,3,4,5 and 32, all placements reachable within the bound",
  "The example does one symmetric push/pop pattern with block size 5; which block boundary a growth happens on depends on the whole history.",
  [DEQ],[("block map rebuild",DEQ+": _resize"),("end iterators crossing blocks",DEQ+": DoubleEndedQueueIterator_")],
  [("begin/end positions and block table","which block slots hold elements",DEQ+": mBegin_d, mEnd_d, mArrMapTable_d")],["dstruct::Deque public API"])
p("C04","Singly and doubly linked lists behave as the ideal sequence",
  "After any mix of push, push_front, push_back, pop, pop_front, pop_back and clear (for the singly linked list also its slow pop-back), each linked list reports exactly the size, emptiness, front, back and iteration order of the ideal sequence. Walking the doubly linked list backwards from the end gives exactly the reverse order.",
  ["histories"],"all operation histories up to the bound, from every reachable list",
  "Examples only append and then drain; tail bookkeeping is wrong only for particular mixes of front and back operations.",
  [SLL,DLL,LL,EL],[("tail pointer maintenance",SLL+": push_back, push_front, pop_front, _pop_back"),("ring insert/delete",EL+": add, del")],None,["dstruct::SLinkedList, dstruct::DLinkedList public API"])
p("C05","Embedded (intrusive) lists stay consistent rings under add and del",
  "For any history of adding nodes after any member and deleting members, walking an intrusive list from its head visits exactly the linked nodes in the ideal order and returns to the head, and for doubly linked nodes the backward walk is the exact reverse. emptiness is reported exactly when no node is linked, node/link conversion is a round trip, payloads are never changed, and a removed node is detached and can be re-added.",
  ["histories"],"all add/del histories over a small pool of nodes and two list heads",
  "The example adds ten nodes at the head and deletes from the head only.",
  [EL],[("link add/del/init/empty",EL+": SinglyLink_, DoublyLink_"),("node/link conversion",EL+": EmbeddedListNode_")],None,["dstruct::EListNode public API"])
p("C06","Stack is LIFO and Queue is FIFO whatever container backs them",
  "For any history of pushes and pops a Stack always shows and removes the most recent remaining element and a Queue the oldest remaining one, while size, emptiness, back/front, indexing and iteration reflect exactly the remaining elements in insertion order. This holds for every supported backing container and is unaffected by clears, copies and moves.",
  ["histories","configurations"],"all histories up to the bound for each backing container (vector, deque, doubly and singly linked list)",
  "Examples push 0..99 and drain once.",
  [STK,QUE,DEQ,VEC,DH],[("adapter forwarding",STK+": push/pop/top; "+QUE+": push/pop/front/back")],None,["dstruct::Stack, dstruct::Queue, dstruct::adapter::*"])
p("C07","MinStack/MaxStack always report the extreme of what is on the stack",
  "For any history of pushes and pops, including repeated equal values, a MinStack (MaxStack, or a custom-comparison stack) behaves as a LIFO stack and its extreme value equals the minimum (maximum) of the elements currently on it. It becomes empty exactly when every pushed element was popped, after clear it behaves as a fresh stack, and iterating it visits exactly its elements in push order.",
  ["histories","inputs"],"all push/pop histories up to the bound over a value domain with ties",
  "The example pushes strictly monotone values once, so ties and non-monotone orders never occur.",
  [XST,DH],[("extreme value bookkeeping",XST+": push, pop, getXValue")],None,["dstruct::MinStack, dstruct::MaxStack, dstruct::stack::XValueStack"])
p("C08","Heap/PriorityQueue always yields the first element in its ordering",
  "For any history of pushes and pops, including ties, the top of a Heap or PriorityQueue is an element that no contained element strictly precedes in the given ordering, and pop removes exactly that one element. size, emptiness and iteration reflect exactly the remaining multiset, so draining yields all of it in order; this holds for min, max and custom comparisons and for heaps built from a range.",
  ["histories","inputs"],"all push/pop histories up to the bound with ties; all element orders up to the bound",
  "The example pushes 0..9 in order and drains; a sift error needs a particular heap arrangement.",
  [HEAP,DH],[("sift up/down",HEAP+": _adjust_up, _adjust_down"),("push/pop/range constructor",HEAP+": push, pop, Heap(begin,end)")],None,["dstruct::Heap, MinHeap, MaxHeap, PriorityQueue"])
p("C09","Heap sort and build: sorted/heap-ordered permutation of any range",
  "For every input range, heap sort leaves a permutation of the input in which no later element strictly precedes an earlier one in the given ordering, touching nothing outside the range. Heap build leaves a permutation of the input with every element not preceded by its heap children, and returns a heap holding the same elements in the same arrangement.",
  ["inputs"],"all input sequences (permutations and sequences with ties) up to the bound, for min/max/custom orders",
  "Each is run on one ten-element permutation.",
  [HEAP],[("sort/build",HEAP+": sort, build")],None,["dstruct::Heap::sort, dstruct::Heap::build"])
p("C10","BSTree is an ordered set under every history of push, pop and erase",
  "After any history of pushes, pops and erases a BSTree contains exactly the set of elements pushed and not removed since: size and emptiness match it, find succeeds exactly for its members, and iteration visits each member once in comparison order. Pushing an element already present and popping an absent one leave the tree unchanged.",
  ["histories","inputs"],"all insert/pop/erase histories up to the bound, i.e. all reachable tree shapes, including duplicates and absent keys, on the empty tree too",
  "The example deletes only nodes with at most one child from one degenerate shape.",
  [BST,BSTB,BT,EBT],[("insert / delete",BST+": _insert, _delete, _try_to_delete"),("iterator erase",BST+": erase"),("lookup",BSTB+": _find")],None,["dstruct::BSTree public API"])
p("C11","AVLTree is an ordered set under every history of push, pop and erase",
  "After any history of pushes of new elements, pops and erases, an AVLTree contains exactly the set of elements pushed and not removed since: size and emptiness match it, find succeeds exactly for its members and returns the stored element, and iteration visits each member once in comparison order. Popping an absent element leaves the tree unchanged, and the tree may be emptied and reused any number of times.",
  ["histories","inputs"],"all insert/pop/erase histories up to the bound, i.e. every reachable AVL shape with every next operation",
  "The example inserts and deletes ascending runs; wrong rebalancing after a deletion needs specific shapes.",
  [AVL,BT,EBT,BSTB],[("insert/rotate",AVL+": _insert"),("delete/swap/rebalance",AVL+": _delete, _delete_by_target, _swap_node")],None,["dstruct::AVLTree public API"])
p("C12","AVLTree stays height-balanced, so lookups stay logarithmic",
  "After any history of pushes, pops and erases, the two subtrees of every AVLTree node differ in height by at most one and the reported height is the true height of the tree. Hence any lookup, insertion or removal of one of n elements examines at most about 1.44*log2(n+2) nodes.",
  ["histories"],"all insert/pop/erase histories up to the bound, i.e. every reachable shape; height observed from the comparison trace of lookups",
  "The example asserts one height bound after one insertion pattern and none after deletions.",
  [AVL,EBT],[("balance after insert",AVL+": _insert"),("balance after pop/erase",AVL+": _check_and_balance, _rebalance_after_delete"),("rotations",EBT+": left_rotate, right_rotate")],
  [("per-node height","cached subtree height",AVL+": AVLData_")],["AVLTree::height, comparison trace of AVLTree::find"])
p("C13","Map is a dictionary: last write wins, one value per key, sorted keys",
  "After any history of bracket writes and reads, pushes of new keys, pops, erases and clears, a Map holds exactly one value per present key, the last one written through any access path, with size, emptiness and find agreeing. Reading an absent key through the mutable bracket inserts it with a default value, popping an absent key changes nothing, const bracket reads see the same values, and iteration visits keys in comparison order with their values.",
  ["histories","inputs"],"all histories of map operations over a small key domain up to the bound",
  "The example uses four keys in one order.",
  [MAP,AVL],[("bracket access",MAP+": operator[]"),("find/pop/erase/push",MAP)],None,["dstruct::Map public API"])
p("C14","Tree traversals visit every node exactly once in the stated order",
  "For every BSTree and AVLTree shape, including the empty tree, the callback traversal and the iterators in pre-order, in-order and post-order visit every element exactly once, in exactly the order that name defines for the actual tree shape, and reach the end. The default order is in-order, and callback and iterator sequences agree.",
  ["histories","configurations"],"all reachable tree shapes up to the bound, all three orders, iterator and callback",
  "Only pre-order callback element counts/sums are checked, on one tree each.",
  [BT,EBT,BST,AVL],[("next_* functions and traversals",EBT+": next_preorder/inorder/postorder, *_traversal"),("first node / begin / end",BT+": first_node, begin, end, traversal")],None,["begin(type)/end(type)/traversal(cb,type) of BSTree and AVLTree"])
p("C15","Erasing while iterating visits every element exactly once",
  "For BSTree, AVLTree and Map, erase through an iterator removes exactly the element it points to and returns an iterator to the in-order successor (or end). Therefore a loop that erases any chosen subset of elements during one pass visits every element exactly once and leaves exactly the others.",
  ["histories","inputs"],"all reachable tree shapes up to the bound, every subset of elements to erase",
  "The examples erase a suffix or everything from one shape; erasing two-child nodes and the last element never happens for AVLTree/Map.",
  [AVL,BST,MAP],[("erase",AVL+": erase, _delete_by_target; "+BST+": erase; "+MAP+": erase")],None,["erase/begin/end of BSTree, AVLTree, Map"])
p("C16","DisjointSet represents exactly the equivalence closure of its unions",
  "After any history of connects (of elements already connected too), unions of distinct roots and finds on n elements, two elements are reported connected exactly when the history links them, find returns the same representative for exactly the connected elements, and that representative is a member of the set. The set count equals the number of classes, and queries never change the partition.",
  ["histories"],"all union/connect/find histories over up to the bounded number of elements, in every argument order",
  "The examples connect fresh pairs only; redundant unions and long parent chains are never exercised.",
  [DSU],[("find with path compression",DSU+": find"),("union",DSU+": connect, union_set"),("count",DSU+": count")],None,["dstruct::UFSet public API"])
p("C17","String equals the ideal character sequence and is always terminated",
  "After any history of construction from C strings, push_back, assigning and appending (including itself, its own C-string view, empty strings and C strings), indexed writes, copies, moves and clear, a String equals the ideal character sequence: size, emptiness, front, back, indexing and iteration agree. The C-string view always has exactly that content followed by a terminator; concatenation and (in)equality, with Strings and C strings on either side, agree with the ideal sequences.",
  ["histories","inputs"],"all histories up to the bound over short strings including the empty string, and all lengths across storage growth boundaries",
  "The example builds one string and appends once.",
  [STR,VEC],[("terminator maintenance",STR+": push_back, operator+=, clear, BasicString(const char*)"),("comparison/concatenation",STR+": operator==, operator!=, operator+")],None,["dstruct::String public API"])
p("C18","A copy of any container is equal and fully independent",
  "Copy-constructing or copy-assigning any container, over a target with any previous content, makes the target observably equal to the source and leaves the source unchanged. From then on no operation on one, including destroying it, is observable through the other; self-assignment changes nothing.",
  ["histories","configurations"],"every container type; all source and target states up to the bound; all continuations up to the bound",
  "Only lists of ten equal ints are copied in the examples.",
  [COM,VEC,ARR,DEQ,SLL,DLL,HEAP,BST,AVL,BT,MAP,XST,STK,QUE,DSU,STR],[("copy semantics macro and implementations",COM+": DSTRUCT_COPY_SEMANTICS")],None,["copy constructor/assignment of every container"])
p("C19","Moving any container transfers its contents and empties the source",
  "Move-constructing or move-assigning any container, over a target with any previous content, gives the target exactly the source's former contents. The source is left empty but fully usable, neither object's later operations or destruction affects the other, and moving from an empty container or onto itself is harmless.",
  ["histories","configurations"],"every container type; all source and target states up to the bound; all continuations up to the bound",
  "Only non-empty lists are move-constructed in the examples.",
  [COM,VEC,DEQ,SLL,DLL,LL,HEAP,BST,AVL,MAP,XST,STK,QUE,STR],[("move semantics macro and implementations",COM+": DSTRUCT_MOVE_SEMANTICS")],None,["move constructor/assignment of every container"])
p("C20","Containers construct and destroy each element exactly once",
  "Across any history on any container, element objects are only read, assigned or destroyed while alive, never constructed over a live element, and never abandoned alive when their storage is released. When the container is destroyed every element object it created has been destroyed exactly once, and removed elements are destroyed when removed or overwritten, not kept alive.",
  ["histories","configurations"],"every container type with instrumented elements; all histories up to the bound including copies, moves and clears",
  "One test pushes and pops ten objects in a Vector with a counter that misses most double/missing destructions.",
  [COM,VEC,ARR,DEQ,LL,SLL,DLL,HEAP,BT,BST,AVL,XST,STK],[("construct/destroy",COM+": construct, destroy")],None,["instrumented element type"])
p("C21","Storage discipline: only the given allocator, exact release, no stray access",
  "Every container obtains storage only from the allocator it was given, releases every block exactly once with the same address and byte size it was obtained with, and has released everything when it is destroyed. No operation reads or writes memory outside blocks it holds, nor memory it has already released.",
  ["histories","configurations"],"every container type and allocator configuration; all histories up to the bound",
  "Tests run without a sanitizer or an accounting allocator.",
  [SPEC,PORT,LIBC,VEC,DEQ,LL,BT,BST,AVL,HEAP],[("allocator adaptor",SPEC+": AllocSpec"),("port",LIBC+": allocate, deallocate")],None,["accounting allocator; interposed malloc/free; AddressSanitizer"])
p("C22","Static allocator hands out disjoint, aligned, in-pool, untouched blocks",
  "For any history of allocations, releases and merges, every block the static memory allocator returns lies inside its fixed pool, is aligned to its alignment unit and overlaps no other block still held, for at least the requested bytes. The contents of held blocks are never changed by the allocator, and a request it cannot satisfy, or of non-positive size, yields null and changes nothing.",
  ["histories","inputs"],"all allocate/release/merge histories up to the bound, for several pool and size-class configurations",
  "One allocation/release pattern is tested.",
  [SMA],[("size-class and first-fit allocation, splitting",SMA+": allocate_d, quick_mem_allocate_d, mem_pool_allocate_d, insert_mem_block_to_list_d")],
  [("free lists","free blocks by size class plus pool list",SMA+": mFreeMemList_d")],["dstruct::StaticMemAllocator static API"])
p("C23","Static allocator accounting is exact and its reports are truthful",
  "At every point of any history the reported free size equals the pool size minus the rounded-up sizes of the blocks held, and merging does not change it. The reported largest free block can actually be allocated and nothing larger can, the built-in dump consistency check passes, and rejected releases (null address or non-positive size) report failure and change nothing.",
  ["histories","inputs"],"all allocate/release/merge histories up to the bound",
  "The tests compare three reports along one history.",
  [SMA],[("free size bookkeeping",SMA+": allocate_d, deallocate_d"),("max_free_mblock_size, dump",SMA)],None,["free_mem_size, max_free_mblock_size, dump, deallocate results"])
p("C24","Static allocator merge coalesces every adjacent free region",
  "After memory_merge, any request not larger than some contiguous run of free memory in the pool succeeds, whatever history fragmented the pool. In particular, once every block has been released, a merge makes the whole pool allocatable as one block again.",
  ["histories"],"all fragmentation patterns reachable by allocate/release/merge histories up to the bound",
  "Two particular patterns are merged in the tests.",
  [SMA],[("merge",SMA+": quick_mem_memory_merge_d, mem_pool_memory_merge_d, memory_merge_d")],None,["allocate after memory_merge"])
p("C25","Static-memory containers behave like dynamic ones and return all memory",
  "Every container in the static-memory namespace, alone or several sharing one static pool, gives the same observable results for the same history as the specification of its dynamic counterpart while the pool suffices. The elements of one container are never disturbed by operations on another, and when all of them are gone the pool's free size is its full size again.",
  ["histories","configurations"],"all histories up to the bound of single and of several coexisting containers on one pool",
  "One vector of ten ints is tested; several containers sharing the pool never are.",
  [DSH,SMA,VEC,DEQ,SLL,DLL,HEAP,BST,STR,DSU,STK,XST,QUE],[("static aliases",DSH+": namespace smemory")],None,["dstruct::smemory::* and StaticMemAllocator::free_mem_size"])
p("C26","With static memory as default, fragmentation alone never fails an allocation",
  "When the library is configured to use static memory as its default allocator, the port's allocate returns a valid block of the requested size whenever some contiguous free run suffices, merging fragmented memory first when necessary. Held blocks never overlap or change, and default-allocator containers give back everything they took.",
  ["histories"],"all allocate/release histories of large blocks on the default pool up to the bound, and container histories",
  "No test builds with the static-memory port.",
  [SMAP,SMA,PORT],[("allocate with merge-and-retry",SMAP+": allocate"),("deallocate",SMAP+": deallocate")],None,["dstruct::port::allocate/deallocate with ENABLE_SMA"])
p("C27","Iterators obey their laws; for_each and find follow the sequence",
  "On every container, begin-to-end iteration, const or not, visits exactly its elements, post- and pre-increment agree, a copy of an iterator moves independently, and decrement undoes increment where offered. For random-access iterators it+n / it-n land on the n-th neighbour and distance equals the step count; for_each applies its callback once per element in order and find returns the first equal element or the end.",
  ["histories","inputs"],"all container states up to the bound and every pair of positions in them",
  "Examples only range-for over a few containers.",
  [IT,SPEC,ALG,DEQ,SLL,DLL,BT,AVL],[("iterators",IT+": PrimitiveIterator; "+DEQ+", "+SLL+", "+DLL+", "+BT+", "+AVL+" iterators"),("algorithms",ALG+": for_each, find")],None,["iterators of every container; dstruct::algorithm::*; dstruct::distance"])
p("C28","Passing a container one of its own elements is safe",
  "Any insertion or fill operation whose argument is a reference to an element of the same container behaves as if a separate copy of that value had been passed, even when the operation reallocates or rearranges the storage; a String may likewise be assigned or appended (part of) its own C-string view. Removing by a reference to the element being removed likewise removes exactly that element.",
  ["inputs","histories"],"all container states up to the bound, every element position as argument",
  "No test passes a container's own element.",
  [VEC,DEQ,HEAP,LL,SLL,DLL,STR,AVL,BST,STK,QUE],[("growth before copying the argument",VEC+": push_back, resize"),("delete by value",AVL+": _delete; "+BST+": _delete")],None,["push/resize/pop/operator+= with aliased arguments"])
p("C29","References to elements stay valid while other elements come and go",
  "For the linked lists, AVLTree and Map, a reference or iterator to an element keeps denoting that same element with its value across any insertions and removals of other elements; for the Deque the same holds for references across pushes and pops at either end. Moving one of these containers carries its elements along without relocating them.",
  ["histories"],"all histories up to the bound with the addresses of all elements held throughout",
  "No test holds a reference across a modification.",
  [SLL,DLL,LL,AVL,MAP,DEQ],[("node relinking instead of value copying",AVL+": _swap_node"),("block pointers moved, not elements",DEQ+": _resize")],None,["element addresses seen through iterators"])
p("C30","Library comparators are strict weak orders; utilities mean what they say",
  "less and greater are strict weak orders on values, mirror images of each other, and on pointers they place the null pointer lowest and otherwise follow address order. max and abs return the mathematical result, swap exchanges and move transfers any values.",
  ["inputs"],"all pairs and triples over a small domain including null pointers, ties and extremes",
  "The utilities are only used incidentally.",
  [UT],[("comparators",UT+": less, greater"),("helpers",UT+": max, abs, swap, move")],None,["dstruct::less, greater, max, abs, swap, move"])
p("C31","Storage held stays proportional to the peak number of elements",
  "The storage a container holds never exceeds a fixed multiple of the largest number of elements it has held (or was asked to make room for) at once, plus a constant, however long it is used. In particular an endless steady-state workload, such as a queue that is pushed and popped alternately, does not make it grow.",
  ["histories"],"all steady-state cycles (periodic push/pop patterns at both ends) up to the bound, repeated until the state recurs",
  "Tests are too short to see growth and never look at the bytes held.",
  [DEQ,VEC,HEAP,STR,QUE,STK],[("shrink on pop",DEQ+": pop_front, pop_back, _resize; "+VEC+": pop_back")],None,["bytes obtained and not yet released through the allocator; capacity"])
p("C32","Ordered containers obey the comparator they were given, also after copies",
  "Heap, BSTree, AVLTree, Map and the extreme-value stacks order their elements only by the comparator type and object they were given: reversed, key-only or stateful comparators give the order that comparator defines. A copied or moved container keeps ordering by the comparator of its source.",
  ["configurations","histories"],"comparators {ascending, descending, key-only, stateful, function pointer} x all histories up to the bound",
  "Custom comparators are only constructed, never exercised, in the examples.",
  [HEAP,BST,AVL,MAP,XST,BSTB],[("stored comparator",HEAP+": mCmp_d; "+BST+", "+AVL+", "+MAP+" KVCMPKey, "+XST)],None,["constructors taking a comparator; iteration/top/extreme"])
p("C33","Operations cost what the structure promises, whatever the interleaving",
  "For any interleaving of pushes and pops at the ends of a Vector, Stack, MinStack, Deque, Queue or linked list, and of appends of characters to a String, n operations make O(n) element copies and storage requests in total: the average per operation stays below a constant however large the container is and wherever its growth and shrink thresholds lie. A push or pop of a Heap of n elements makes O(log n) comparisons, building or sorting one O(n log n), and a push or pop of a MinStack makes a constant number.",
  ["histories"],"all interleavings of end operations up to the bound, with the accumulated cost in excess of a constant per operation as part of the state; all heap histories and ranges up to the bound",
  "An example runs through one growing phase; alternating around a threshold or a bad growth rule still yields right values.",
  [VEC,DEQ,LL,SLL,DLL,STR,HEAP,XST,STK,QUE],[("geometric growth, hysteresis of shrinking",VEC+": push_back, pop_back; "+DEQ+": _resize, pop_front, pop_back"),("sifting along one path",HEAP+": _adjust_up, _adjust_down")],None,["copies of elements, calls of the allocator, calls of the comparator"])
p("C34","Separate objects are independent of each other",
  "An operation on one container never changes what another container holds, in which order, at which size, or what its queries answer, unless elements were transferred between them by copying or moving; this holds for containers of the same type as well as of different types, used in any interleaving. An answer already obtained, by value or by reference, is not changed by asking anything of the same or another object. Likewise each configuration of StaticMemAllocator manages its own memory only: allocating, releasing or merging in one neither changes the free size or the largest free block of another nor touches memory held from it.",
  ["histories","configurations"],"all interleavings of the operations of two or three containers (pairs of every type) and of three pools up to the bound",
  "Tests use one container at a time; state shared by accident between objects of a type only shows when two of them are used alternately.",
  [VEC,DEQ,SLL,DLL,STK,QUE,HEAP,XST,BST,AVL,MAP,STR,DSU,SMA],[("state held per object",VEC+", "+DEQ+", "+HEAP+", "+MAP),("static members per instantiation",SMA)],None,["contents, order, sizes and queries of the containers not operated on; free_mem_size, max_free_mblock_size"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
