#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "The growable array is a faithful sequence",
 "A growable array always holds exactly the sequence its operations define: push and emplace append one element, pop removes the last, growing or reserving keeps every element in order, resizing keeps the common prefix and fills the rest with default values, a clone is an equal independent copy, and a move transfers the sequence and leaves the source empty. Every valid index returns the element at that position, an index at or past the length never returns, and no operation touches memory outside the array's own storage.",
 ["inputs", "histories"], "every array state (any length and capacity), every element value, every operation; by induction every history of operations",
 "tests/arrays push a few elements at a few sizes; they cannot cover every length/capacity relation, reallocation point or moved-from state",
 ["rpp/vec.h"], [("reserve/grow reallocation", "rpp/vec.h Vec::reserve, Vec::grow"), ("push/emplace/pop/resize/clear", "rpp/vec.h"), ("clone and moves", "rpp/vec.h Vec::clone, Vec::Vec(Vec&&), operator=(Vec&&)")],
 [("data_, length_, capacity_", "element storage, number of live elements, slots allocated", "rpp/vec.h")])

prop("C02", "The stack is last-in first-out",
 "A stack returns elements in exactly the reverse order of their insertion: after any push the top is the pushed element and everything below is unchanged, and a pop removes exactly the top. Growing, cloning and moving a stack preserve its contents and order, and popping or reading the top of an empty stack never returns.",
 ["inputs", "histories"], "every stack state and element value, every operation",
 "tests use one small stack of integers; reallocation and clone of arbitrary states are not reached",
 ["rpp/stack.h", "rpp/vec.h"], [("push/pop/top over the array", "rpp/stack.h Stack")])

prop("C03", "Fixed arrays and slices are exact bounds-checked views",
 "A fixed-size array and a slice expose exactly their elements in order: a valid index yields that element and an invalid one never returns. Slicing an array or a growable array, and taking a sub-slice, yields precisely the requested range of the same storage; cloning a fixed array yields equal elements.",
 ["inputs"], "every length, index, range and content",
 "tests index a handful of constants and never exercise the limits of sub-ranges",
 ["rpp/array.h", "rpp/slice.h", "rpp/vec.h"], [("bounds check and views", "rpp/slice.h Slice::operator[], Slice::sub"), ("fixed array", "rpp/array.h Array")])

prop("C04", "The queue is first-in first-out across wrap-around and growth",
 "A queue delivers elements in insertion order whatever the position of its contents in the ring: push appends, pop removes the oldest, front, back, second-to-last, indexing and iteration agree with that order, and erasing by value removes the first equal element and keeps the others in order. Growing, cloning, moving and clearing preserve this for every wrap-around position and every fill level.",
 ["inputs", "histories"], "every ring state (capacity, fill level, position), every element value and operation",
 "tests reach only a few ring positions; wrap-around bugs need a specific combination of position, fill level and operation",
 ["rpp/queue.h"], [("ring index arithmetic", "rpp/queue.h start_idx/end_idx/idx_at, push, pop"), ("linearising growth", "rpp/queue.h Queue::reserve"), ("erase", "rpp/queue.h Queue::erase_first"), ("clone", "rpp/queue.h Queue::clone")],
 [("data_, length_, last_, capacity_", "ring storage, fill level, next write slot, slots", "rpp/queue.h")])

prop("C05", "The heap always yields a least element and loses none",
 "After any sequence of insertions and removals the top of a heap is no larger than any other element. An insertion adds exactly the given element, a removal takes out exactly the top, and growing, cloning, moving or iterating neither loses nor duplicates an element.",
 ["inputs", "histories"], "every heap state and every element order (including duplicates), every operation",
 "tests push a few integers; a wrong child choice or missed sift needs a particular shape of heap",
 ["rpp/heap.h"], [("sift up / sift down", "rpp/heap.h Heap::reheap_up, Heap::reheap_down"), ("push/pop", "rpp/heap.h Heap::push, Heap::pop")],
 [("data_, length_, capacity_", "implicit binary tree", "rpp/heap.h")])

prop("C06", "The hash map behaves as a finite map",
 "A map associates each key with the value most recently stored for it and nothing else: lookup and membership agree with the history of insertions and erasures, erasing removes only the given key, the length is the number of distinct keys present, and iteration visits each entry exactly once. This holds through collisions, wrap-around, displacement, growth, reservation, cloning and moving, for every hash function result.",
 ["inputs", "histories"], "every table state satisfying the probing discipline, every key, value and hash value, every operation",
 "tests insert a few keys; displacement chains, wrap-around and back-shift interactions depend on hash values tests do not control",
 ["rpp/map.h", "rpp/hash.h"], [("Robin-Hood insertion", "rpp/map.h Map::insert_slot"), ("lookup", "rpp/map.h Map::try_get_"), ("erase and back-shift", "rpp/map.h Map::try_erase, Map::fix_up"), ("growth", "rpp/map.h Map::reserve, Map::grow"), ("iteration", "rpp/map.h Map::Iterator")],
 [("data_, capacity_, length_, usable_, shift_", "slots, power-of-two size, entries, load limit, hash shift", "rpp/map.h")])

prop("C07", "Containers destroy every element exactly once",
 "Every element placed in a container, optional, variant or fixed storage is destroyed exactly once: never twice, never while still owned, and never leaked when the owner is cleared, reallocated, cloned, moved, assigned or destroyed (an element whose value has been moved out may be overwritten or dropped instead of destroyed). Elements are only ever moved or destroyed while alive, new elements are only constructed into free storage, and every block of memory obtained from the allocator is returned exactly once.",
 ["inputs", "histories"], "every container state and operation, for an element type whose construction, move and destruction are observable",
 "tests use mostly trivial types and a global leak counter; they cannot show that no state leads to a double destruction or leak",
 ["rpp/vec.h", "rpp/queue.h", "rpp/heap.h", "rpp/map.h", "rpp/opt.h", "rpp/variant.h", "rpp/storage.h", "rpp/array.h", "rpp/stack.h", "rpp/box.h"],
 [("element construction/destruction loops", "rpp/vec.h, rpp/queue.h, rpp/heap.h, rpp/map.h"), ("deallocation", "A::free calls in destructors and reserve")])

prop("C08", "An optional holds a value exactly when it says so",
 "An optional reports a value exactly after one was stored and not since cleared, and then yields that value; reading an empty optional never returns. Moving, assigning, emplacing, clearing and cloning preserve or replace the value as defined, and an empty source gives an empty result.",
 ["inputs", "histories"], "every state of both operands and every value",
 "tests check a few constructions; the combinations of empty/full source and destination over all value kinds are not covered",
 ["rpp/opt.h", "rpp/storage.h"], [("engaged flag and storage", "rpp/opt.h Opt"), ("raw storage", "rpp/storage.h Storage")])

prop("C09", "A variant always dispatches to the alternative it holds",
 "A variant holds exactly one alternative: its reported index is the position of the type last stored, and matching invokes the handler of exactly that alternative, once, with the stored value. Moving, assigning and cloning preserve both the alternative and its value, for any number of alternatives.",
 ["inputs", "histories"], "every alternative of source and destination, every stored value, small and large alternative lists",
 "tests exercise two or three alternatives; the dispatch for each index and the table form for long lists is not covered",
 ["rpp/variant.h"], [("dispatch", "rpp/variant.h Variant::match, Accessors::apply"), ("construction and destruction", "rpp/variant.h Variant::construct, destruct")])

prop("C10", "Owning and shared pointers manage one object correctly",
 "A unique owner holds at most one object and destroys and frees it exactly when the owner is destroyed, reassigned or emptied. For shared owners the reported count equals the number of live handles, duplicating and dropping handles change it by exactly one, and the object is destroyed and freed exactly when the last handle goes.",
 ["inputs", "histories"], "every count, every pair of handles (same or different object, empty or not), every sequential operation",
 "tests create two or three handles; all count values and aliasing between source and destination are not covered",
 ["rpp/box.h", "rpp/rc.h"], [("unique owner", "rpp/box.h Box"), ("reference counting", "rpp/rc.h Rc::dup, Rc::drop, Arc::dup, Arc::drop")])

prop("C11", "A stored callable is invoked, moved and destroyed exactly as given",
 "Calling a stored function object calls exactly the callable it was built from with exactly the given arguments and returns its result. Moving transfers the callable and empties the source, assignment destroys the old callable once, and calling an empty one never returns.",
 ["inputs", "histories"], "every argument and capture value, trivial and non-trivial captures",
 "tests call a few lambdas; move/assign sequences over captures with destructors are sampled only",
 ["rpp/function.h"], [("type-erased table", "rpp/function.h Function::construct, destruct, move, invoke")])

prop("C12", "Tuples and pairs keep each component in its place",
 "A tuple or pair returns for every position exactly the component stored there; construction, move, clone and structured access never exchange, drop or alter components. Invoking a function with a tuple passes the components in order.",
 ["inputs"], "every component value, for tuples of several lengths and mixed types",
 "tests check particular constants and lengths",
 ["rpp/tuple.h", "rpp/pair.h"], [("recursive tuple access", "rpp/tuple.h Tuple::get, invoke"), ("pair", "rpp/pair.h Pair")])

prop("C13", "The range allocator never overlaps grants and loses no space",
 "Every granted range lies inside the managed space, starts at a multiple of the requested alignment, is at least as long as requested and is disjoint from every other live range. Free and allocated ranges always tile the whole space, adjacent free ranges are merged when a range is returned, and the reported statistics equal the true totals.",
 ["inputs", "histories"], "every allocator state reachable by allocate/free, every size and alignment that does not exceed the address space",
 "tests run a few fixed and random sequences; fragmentation patterns and list-relinking cases are combinatorial",
 ["rpp/range_allocator.h"], [("allocation and splitting", "rpp/range_allocator.h allocate"), ("freeing and coalescing", "rpp/range_allocator.h free"), ("segregated free lists", "insert_free_block/remove_free_block")],
 [("blocks", "doubly linked list tiling the space, plus per-size free lists", "rpp/range_allocator.h Block")])

prop("C14", "Scoped memory regions hand out disjoint memory and unwind exactly",
 "Memory obtained inside a region is non-overlapping and stays valid and untouched until that region ends, including across nested regions and chunk growth. Ending a region releases exactly what was obtained since it began, the reported size and depth return to their earlier values, and memory of enclosing regions is unaffected; using a region that is not the innermost never succeeds.",
 ["inputs", "histories"], "every chunk list and nesting state, every request size",
 "tests allocate a few sizes; chunk boundaries combined with nested unwinding are not enumerated",
 ["rpp/impl/alloc.cpp", "rpp/alloc0.h"], [("bump allocation and chunks", "rpp/impl/alloc.cpp Region_Allocator::alloc, new_chunk"), ("unwinding", "rpp/impl/alloc.cpp Region_Allocator::end"), ("brands", "assert_brand")],
 [("chunks, region_offsets, current_region", "chunk stack, cumulative bytes per depth, depth", "rpp/impl/alloc.cpp")])

prop("C15", "Object pools never hand out storage that is in use",
 "A pool hands out storage for one object that no live object occupies, reuses returned storage only after it was returned, and constructs and destroys each object exactly once. Clearing the pool returns every idle block to the underlying allocator exactly once.",
 ["inputs", "histories"], "every free-list state and every make/destroy",
 "tests make and destroy a few objects in one order",
 ["rpp/alloc0.h", "rpp/alloc1.h"], [("free list", "rpp/alloc0.h Free_List::make, destroy, clear")],
 [("list_", "singly linked list of idle blocks", "rpp/alloc0.h")])

prop("C16", "Strings copy, join and slice bytes exactly",
 "Copying, cloning, terminating, appending, joining with a separator, writing into and slicing a string yield exactly the bytes these operations define, with exactly the defined length, for arbitrary bytes. Positions outside a string never read or write, and the source strings are never modified.",
 ["inputs"], "every string content and length, every position and range",
 "tests use short literals; arbitrary bytes, empty operands and every offset are not covered",
 ["rpp/string0.h", "rpp/string1.h", "rpp/format.h"], [("append/terminate/sub/write", "rpp/string1.h"), ("clone/string", "rpp/string0.h"), ("concat", "rpp/format.h concat")])

prop("C17", "String equality, order and hash are consistent and total",
 "Two strings compare equal exactly when they have the same length and the same bytes, including zero bytes, whichever string kinds are compared. Ordering is the lexicographic order of unsigned bytes with a proper prefix first, so exactly one of less, equal, greater holds, and equal strings always hash alike whichever string kind holds them.",
 ["inputs"], "all pairs of byte strings of all lengths and all string kinds",
 "tests compare a few literals without zero bytes or high bytes",
 ["rpp/string0.h", "rpp/hash.h"], [("equality", "rpp/string0.h operator=="), ("ordering", "rpp/string0.h operator<"), ("hashing", "rpp/string0.h Hash<String>, Hash<String_View>")])

prop("C18", "Path helpers split at the last separator",
 "The file part of a path is what follows its last separator (the whole path if there is none), the directory part is everything up to and including that separator (empty if there is none), and joining the two gives back the path. The extension is what follows the last dot or separator, and the whole text when there is neither.",
 ["inputs"], "every byte string",
 "tests check a few typical paths, not separators at the first or last position",
 ["rpp/string1.h"], [("backwards scans", "rpp/string1.h file_suffix, file_extension, remove_file_suffix")])

prop("C19", "Formatting writes exactly the length it measured",
 "Formatting any arguments of formattable types with any well-formed format text produces a string whose length equals the length computed beforehand, with every byte written and none written outside it. Each placeholder is replaced by its argument's text in order and doubled percent signs produce one percent sign; a placeholder count different from the argument count never returns.",
 ["inputs"], "every format text, every argument value, every supported argument type (nested containers included)",
 "tests print particular values; the agreement of the two separate traversals for every type and value is not covered",
 ["rpp/format.h", "rpp/format1.h", "rpp/string1.h"], [("measure and write pairs", "rpp/format.h Format::Measure, Format::Write"), ("placeholder scan", "rpp/format.h Format::parse_fmt, Format::write")])

prop("C20", "Parsing consumes exactly the token it returns",
 "Skipping whitespace removes exactly the leading whitespace; parsing a word skips leading whitespace, returns the longest run of non-whitespace characters there, and leaves exactly the text after the word and the one whitespace character that ends it; parsing a number succeeds only when a digit sequence was consumed and leaves exactly the unread text. No parser ever reads outside the given text.",
 ["inputs"], "every byte string, including empty, all-whitespace and unterminated ones",
 "tests parse a few words; tokens at the end of the text and single characters are not covered",
 ["rpp/format.h", "rpp/string0.h"], [("token scan", "rpp/format.h Format::skip_whitespace, parse_string, parse_i64")])

prop("C21", "Integer math helpers equal their mathematical definitions",
 "Minimum, maximum and clamping return the mathematical result; logarithm, leading-zero and bit counts, next and previous powers of two, and aligning up or down return the mathematically defined value; integer power equals repeated multiplication modulo the type's range. All hold for every argument in the function's domain.",
 ["inputs"], "every 32- and 64-bit argument in the domain",
 "tests call them with a few constants",
 ["rpp/math.h", "rpp/impl/math.cpp"], [("bit math", "rpp/impl/math.cpp"), ("alignment, power, clamp", "rpp/math.h")])

prop("C22", "Random numbers stay in range and shuffles only permute",
 "Every unit sample lies in [0,1) and samples reach all of that interval, a sample from a half-open integer range lies in it, the whole range is reachable, and equal seeds give equal sequences. A shuffle always yields a permutation of its input, for every length including zero.",
 ["inputs", "histories"], "every generator state, every range and length, all integer widths and signedness",
 "tests never inspect the distribution limits or extreme ranges",
 ["rpp/rng.h", "rpp/hash.h"], [("unit, range, shuffle", "rpp/rng.h Stream")])

prop("C23", "Packed float operations act on each lane independently",
 "Every packed arithmetic, comparison-style and rounding operation equals the corresponding scalar operation applied to each lane in order, and a dot product equals the sum of lane products. No lane influences another.",
 ["inputs"], "every lane value (floating-point arithmetic read as real arithmetic)",
 "tests check a few vectors",
 ["rpp/simd.h", "rpp/impl/simd.cpp"], [("intrinsics", "rpp/impl/simd.cpp")])

prop("C24", "Vector and box operations follow vector algebra",
 "Vector addition, subtraction, multiplication, division, negation, comparisons, dot and cross products, norms, interpolation, minimum and maximum equal their mathematical definitions component by component in every dimension, with operands in the written order and left unmodified. A bounding box is the smallest box containing everything added to it; its emptiness, centre, surface area, transformation and projection agree with geometry.",
 ["inputs"], "every component value and scalar (floating-point arithmetic read as real arithmetic), dimensions 2, 3 and 4, float and integer",
 "tests evaluate a few constants; operand order and individual components of each overload are not all exercised",
 ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("vector operators", "rpp/vmath.h Vect"), ("bounding box", "rpp/vmath.h BBox, rpp/impl/vmath.cpp")])

prop("C25", "Matrix operations satisfy linear algebra",
 "Matrix product, sum, difference, scaling, transpose, comparison and application to vectors equal their definitions; an invertible matrix times its inverse is the identity; and the translation, scaling, rotation, align-to-direction, look-at and projection constructors are the matrices of those maps.",
 ["inputs"], "every matrix and parameter (floating-point arithmetic read as real arithmetic; trigonometry axiomatised)",
 "tests multiply a few constant matrices; one wrong index among 16 can go unnoticed",
 ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("Mat4", "rpp/vmath.h Mat4, rpp/impl/vmath.cpp")])

prop("C26", "Quaternion operations represent rotations",
 "Quaternion product, conjugate, norm and inverse satisfy quaternion algebra, rotating a vector preserves length and equals applying the corresponding matrix, and composing quaternions composes rotations. Axis-angle and Euler constructors give the stated rotations, and the Euler angles read back from a rotation give that rotation again.",
 ["inputs"], "every quaternion, vector and angle (floating-point arithmetic read as real arithmetic)",
 "tests check a few rotations",
 ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("Quat", "rpp/vmath.h Quat, rpp/impl/vmath.cpp")])

prop("C27", "Profiling attributes time and calls to the right scope",
 "Each traced scope accumulates exactly the number of times it was entered and the time spent in it, entering an already known child scope reuses that child's record, and leaving returns to its parent. A scope's own time is its total minus the totals of its children.",
 ["inputs", "histories"], "every timing tree and every enter/exit history, for a monotone clock",
 "tests never inspect recorded timings; repeated entry of a nested scope is not observed",
 ["rpp/impl/profile.cpp", "rpp/profile.h"], [("scope tree", "rpp/impl/profile.cpp Frame_Profile::enter, exit, compute_self_times")])

prop("C28", "Allocation accounting is exact",
 "For every allocator name the recorded counts and sizes of allocations and frees, the live size and the high-water mark equal those of the history, and the global balance of system allocations is the number of blocks not yet freed. A block is forgotten exactly when it is freed.",
 ["histories"], "every sequence of allocations and frees",
 "tests only look at the final balance of whole programs",
 ["rpp/impl/profile.cpp", "rpp/impl/alloc.cpp", "rpp/alloc1.h"], [("statistics", "rpp/impl/profile.cpp Profile::alloc"), ("net counter", "rpp/impl/alloc.cpp sys_alloc, sys_free")])

prop("C29", "File reads and writes are all-or-nothing and release the file",
 "Reading a file reports success only with the file's complete contents, and writing reports success only if the file then holds exactly the given bytes; a failing system call or a file that ends early is reported as failure, and failure is reported only then. In every case the call ends, each opened descriptor is closed exactly once, and a new or existing file can be written and read. A write watcher reports a change exactly when the last-write time moved past the one it saw last.",
 ["inputs", "fault_sequences"], "every file size and content and every pattern of system-call results, including short transfers and failures",
 "tests do not inject failing or short system calls",
 ["rpp/files.h", "rpp/pos/files_pos.cpp"], [("read/write loops", "rpp/pos/files_pos.cpp Files::read, Files::write")])

prop("C30", "Reflection visits every declared field and enumerator once, in order",
 "Iterating a reflected record visits each declared field exactly once, in declaration order, with its own name and a reference to that field; iterating an enumeration visits each enumerator exactly once with its name and value. The name of a known enumerator value is that enumerator's declared name.",
 ["inputs"], "every record and enumeration value of the reflected kinds",
 "tests print a few reflected types",
 ["rpp/reflect.h"], [("field and enumerator iteration", "rpp/reflect.h iterate_record, iterate_enum, enum_name")])

prop("C31", "Each scheduled task runs exactly once and pools shut down cleanly",
 "Every task handed to a thread pool is resumed exactly once on some worker, awaiting a task yields its result after it completes, waiting on events resumes the waiter, and destroying the pool joins every worker without losing completed work.",
 ["schedules"], "every interleaving of submitters, workers and shutdown",
 "tests run one schedule chosen by the operating system",
 ["rpp/pool.h", "rpp/async.h"], [("work queues", "rpp/pool.h Pool::enqueue, do_work, do_events"), ("task promise", "rpp/async.h")])

prop("C32", "Locks exclude, futures deliver, atomics are atomic",
 "At most one thread holds a mutex and every critical section sees the effects of earlier ones; a future's value becomes visible to every waiter exactly once it was set; atomic counters lose no update, and shared owners may be duplicated and dropped from any threads.",
 ["schedules"], "every interleaving of any number of threads",
 "tests observe a few schedules",
 ["rpp/thread0.h", "rpp/thread.h", "rpp/pos/thread_pos.cpp"], [("mutex, condition, flag, atomic", "rpp/pos/thread_pos.cpp"), ("future/promise", "rpp/thread.h")])

prop("C33", "Datagram sockets deliver the bytes and address they report",
 "Sending transmits exactly the given bytes to the given address and reports the number sent; receiving takes one pending datagram without waiting, reports its sender and its length, stores as much of it as the packet holds and never writes outside the packet, and reports nothing only when nothing is pending; any other failing system call stops the program, and each socket is closed exactly once.",
 ["inputs", "fault_sequences"], "every payload, address and pattern of system-call results",
 "the test sends a few packets over loopback",
 ["rpp/net.h", "rpp/pos/net_pos.cpp"], [("UDP socket", "rpp/pos/net_pos.cpp Udp")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
