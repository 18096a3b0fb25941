#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

V, S, SV, R, A, U, B, SC, PT = ("src/vec.rs", "src/string.rs", "src/small_vec.rs", "src/rc.rs",
    "src/arc.rs", "src/urc.rs", "src/boxed.rs", "src/scope.rs", "src/ptr.rs")

prop("C01", "Vec behaves as a growable sequence",
 "For every history of operations, a Vec's length, contents, order and the value returned by each operation are those of a plain growable sequence of the same elements, whatever the element's size or alignment (zero-sized types included) and whatever the spare capacity. An operation given an index or range outside the sequence panics and leaves the Vec unchanged, except that splitting off at or past the end yields an empty Vec.",
 ["histories", "inputs"], "all finite histories of Vec operations with all arguments, all element types",
 "The unit tests run one fixed input per operation (1..4 i32 elements); no history mixes operations and no index boundary, empty, full or zero-sized case is tried.",
 [V], [("raw-pointer shifts and length updates in insert/remove/swap_remove/append/split_off/resize", V)],
 [("len", "number of initialised elements", V), ("ptr", "buffer and capacity", V)], ["Deref to slice, return values"])
prop("C02", "Vec owns every element exactly once",
 "At every moment of every history, each element moved into a Vec is owned by exactly one place: still in the Vec, handed back to the caller, or destroyed. Every element is destroyed exactly once in total - never zero times (except after an explicit leak or forget), never twice - and no operation hands out or destroys memory that holds no element.",
 ["histories"], "all histories of Vec operations, conversions and consuming iterators, for element types with destructors",
 "The tests use integers, which have no destructor, so double drops, leaks and use-after-drop are invisible to them.",
 [V, PT, B], [("drop_in_place / ptr::read pairing, set_len before drops, mem::forget in conversions", V), ("ScopePtr drop", PT)],
 [("len", "which slots hold live elements", V)], ["element destructors", "allocator calls"])
prop("C03", "Capacity requests are honoured and never under-allocated",
 "A Vec, SmallVec or String never reports less capacity than its length, and after a successful capacity request (with_capacity, reserve, reserve_exact and their try_ forms) the capacity covers length plus the request and that many elements can be added without any further allocator call or move of the buffer. Shrinking never loses elements and reduces the capacity to exactly max(length, requested minimum) on the heap; a request whose size in bytes cannot be represented is refused with an error or panic and never yields a smaller buffer than reported.",
 ["inputs", "histories"], "all reachable lengths and capacities, all requested amounts including those that overflow, all element sizes",
 "Tests try one or two requests on an empty or 4-element vector and never look at allocator traffic or overflow.",
 [V, SV, S, PT], [("try_reserve / grow_amortized / grow_exact / shrink", V), ("realloc_array size computation", PT), ("SmallVec::try_reserve*", SV)],
 [("capacity", "length of the allocated slice", V)], ["capacity()", "allocator calls", "as_ptr()"])
prop("C04", "retain and dedup keep exactly the right elements",
 "retain keeps, in order, exactly the elements for which the predicate returned true, and calls the predicate exactly once per element in order; dedup, dedup_by and dedup_by_key keep, in order, exactly the elements not reported equal to the last kept one, and changes the closure makes through its mutable references are visible in what is kept. Every discarded element is destroyed exactly once and every kept one not at all; this holds for Vec and for SmallVec both inline and on the heap.",
 ["inputs"], "all sequences, all predicate/equality outcomes, both containers and storages",
 "Each function has one test on one integer sequence, chosen such that several off-by-one errors cancel out.",
 [V, SV], [("RetainIter read/write cursors", V)],
 [("read/write", "cursors of the compaction", V)], ["contents after the call", "closure call log", "element destructors"])
prop("C05", "drain removes exactly the requested range",
 "Draining a range from a Vec or SmallVec yields exactly the elements of that range, in order from the front and in reverse from the back with an exact remaining count, and once the drain is dropped - consumed fully, partly or not at all - the container holds exactly the elements outside the range, in order. Unconsumed drained elements are destroyed exactly once; a leaked drain may lose elements but never exposes a moved-out one; a range outside the container panics without changing it.",
 ["inputs", "histories"], "all lengths, all range forms, all interleavings of front/back consumption, early drop and leak",
 "There is no test for drain at all.",
 [V, SV], [("DrainInner::new shortens the length, Drop closes the gap", V)],
 [("slice/start/end/original_len", "remaining range and tail position", V)], ["yielded items", "contents afterwards", "element destructors"])
prop("C06", "Consuming iteration yields each element exactly once",
 "Iterating a Vec by value yields every element exactly once, in order from the front and reverse order from the back in any mixture of the two, ends permanently once all were yielded, and always reports the exact number and the slice of the remaining elements. Elements not yet yielded when the iterator is dropped are destroyed exactly once and the buffer is released.",
 ["histories"], "all lengths and all front/back/peek/drop interleavings",
 "There is no test for by-value iteration.",
 [V], [("IntoIter::next/next_back/size_hint/Drop", V)],
 [("index", "front cursor", V)], ["yielded items", "len()", "as_slice()", "element destructors"])
prop("C07", "SmallVec behaves as a growable sequence wherever stored",
 "For every history of operations, a SmallVec's length, contents, order and returned values are those of a plain growable sequence, independent of its inline capacity and of whether its elements are currently inline or on the heap. An operation given an index or range outside the sequence panics and leaves it unchanged, except that splitting off at or past the end yields an empty vector; operations that need more room than the inline capacity succeed.",
 ["histories", "inputs"], "all histories of SmallVec operations including storage moves, all inline capacities and element types",
 "Tests run one integer input per operation, nearly always in one storage mode.",
 [SV, V], [("StackVec operations, redirect_fn!, storage moves", SV)],
 [("storage", "inline or heap", SV)], ["Deref to slice, return values"])
prop("C08", "SmallVec owns every element exactly once",
 "At every moment of every history, each element moved into a SmallVec is owned by exactly one place and in total is destroyed exactly once, also when the elements move between inline and heap storage or into a Vec, Box or another SmallVec. No operation leaks an element, destroys one twice or touches memory that holds no element.",
 ["histories"], "all histories of SmallVec operations incl. storage moves and conversions, elements with destructors",
 "Tests use integers; neither destructors nor storage moves back to the stack are observed.",
 [SV, V], [("try_move_to_heap_and_reserve_exact / try_move_to_stack / dealloc_without_drop", SV), ("StackVec::truncate/clear/Drop", SV)],
 [("storage", "inline or heap", SV)], ["element destructors", "allocator calls"])
prop("C09", "SmallVec stays inline while its elements fit",
 "A SmallVec that was not explicitly given heap storage makes no allocator call as long as its length plus any requested extra room never exceeds the inline capacity, and it always reports truthfully whether it is inline or on the heap. Moving to the heap or back to the stack keeps all elements; moving back is refused, with the vector unchanged, exactly when the elements do not fit.",
 ["histories", "configurations"], "all histories, all inline capacities (0, 1, small, large) and element sizes",
 "One test asserts is_stack once, for one inline capacity and element size.",
 [SV], [("try_reserve / try_reserve_exact / try_move_to_stack", SV)],
 [("storage", "inline or heap", SV)], ["is_stack()/is_heap()", "allocator calls", "capacity()"])
prop("C10", "String behaves as a text sequence",
 "For every history of operations, a String's contents and each operation's result are those of the Rust standard library's string under the same operations, for characters of every encoded width. Byte positions that are out of range or not on a character boundary make the operation panic and leave the text unchanged.",
 ["histories", "inputs"], "all histories of String operations over texts mixing 1- to 4-byte characters, all byte positions",
 "There is not a single String test.",
 [S, V], [("insert_bytes / remove / retain / split_off byte moves", S), ("Vec<u8> underneath", V)],
 [("vec", "UTF-8 bytes", S)], ["as_str()", "return values"])
prop("C11", "String is always valid UTF-8",
 "The bytes of a String are well-formed UTF-8 after every operation, including one that panicked (bad position, or a panic inside a caller's closure or iterator); only bytes a caller writes through the raw access of as_mut_vec are the caller's own responsibility. Converting bytes or UTF-16 units to a String succeeds exactly for well-formed input and then has exactly that text; ill-formed input is rejected with an error.",
 ["inputs", "histories", "fault_sequences"], "all byte and 16-bit unit sequences; all histories with a panic at any closure call",
 "There is not a single String test, and no test where a closure panics.",
 [S], [("from_utf8 / from_utf16 / boundary assertions / SetLenOnDrop guard in retain", S)],
 [("vec", "UTF-8 bytes", S)], ["as_bytes()"])
prop("C12", "A panic in caller code never corrupts a container",
 "If a destructor, clone, comparison, predicate, key function, generator or iterator supplied by the caller panics at any point inside a Vec or SmallVec operation, no element is destroyed twice and none that was destroyed or moved out is visible afterwards. The container remains usable and destroyable; elements may only be leaked, never duplicated.",
 ["fault_sequences", "histories"], "all operations that call user code, a panic at each call, from all small states, followed by further use and drop",
 "No test injects a panic.",
 [V, SV], [("set_len before running user code; progressive length in RetainIter", V), ("StackVec::clear/truncate set_len first", SV)],
 [("len", "must cover only valid elements while user code runs", V)], ["element destructors", "contents after unwinding"])
prop("C13", "Allocation failure is reported and loses nothing",
 "If the allocator fails any request, the try_ form of the operation returns an error and the plain form panics; either way every object that existed before keeps its previous value (an operation fed by an iterator may already have added a prefix) and stays usable, nothing is destroyed twice, leaked or left half-updated, and a later retry can succeed. This holds for Box, Vec, SmallVec, String, Rc, Arc and Urc.",
 ["fault_sequences", "histories"], "all allocating operations, failure of each allocator call, from all small states, followed by further use",
 "The test allocator never fails.",
 [PT, V, SV, R, A, U, B], [("NonNull check in alloc_layout / realloc_array", PT), ("make_mut / try_new ordering of allocation and hand-over", A), ("try_new / make_mut", U)],
 [], ["Result of try_ calls", "element destructors", "allocator calls"])
prop("C14", "Memory is returned exactly as it was obtained",
 "Every block obtained from an allocator is given back exactly once, to the allocator it came from, with the size and alignment it was obtained with, and is never read or written outside its bounds or after being given back. No allocator ever sees a zero-sized request, and once every owner is gone no block remains outstanding; this holds for all types of the library.",
 ["histories", "configurations"], "all histories over all container, box and reference-counted types, all element layouts, several allocators",
 "Tests use jemalloc without checking layouts, leaks or double frees.",
 [PT, V, SV, R, A, U, B], [("ScopePtr alloc/realloc/dealloc layouts", PT), ("Vec::drop capacity test", V), ("counter-driven release", R)],
 [("alloc", "allocator remembered with each block", PT)], ["GlobalAlloc implementation supplied by the scope"])
prop("C15", "Scopes nest and are restored",
 "While a function runs inside a spawned scope the current scope is the newly created one, the initialiser is given the scope that was current before, and when the function returns or unwinds the previous scope is current again, to any nesting depth. The function receives the very scope object that is current, its result is returned, and the new scope object is destroyed exactly once after it stopped being current.",
 ["histories", "fault_sequences"], "all trees of nested and successive spawns with allocations at every point, and a panic at any point",
 "No test spawns a scope.",
 [SC], [("Env::spawn saves, replaces and restores the current scope", SC)],
 [("cur", "current scope", SC)], ["scope::current", "which allocator serves an allocation"])
prop("C16", "Allocations go to the allocator the scope selects",
 "Creating an object asks the current scope for an allocator with the object's element type and its marker (none when none was given), and the memory comes from the allocator so selected. A Vec or String keeps reporting the marker it was created with and keeps using the allocator selected at its creation whenever it grows or shrinks, also while another scope is current; a SmallVec uses its marker when it leaves inline storage.",
 ["histories", "configurations"], "all histories of creation and growth under all nestings of scopes, markers and types",
 "The test scope has one allocator and ignores the selector; markers are never used.",
 [PT, V, SV, S, B, SC], [("alloc_layout asks scope::current", PT), ("Vec::with_marker / grow_exact", V), ("SmallVec marker", SV)],
 [("alloc_marker", "marker of a block", PT), ("marker", "SmallVec marker", SV)], ["Scope::alloc_for arguments", "which allocator gets each request", "marker()"])
prop("C17", "Markers and selectors identify types",
 "Two markers are equal exactly when both are absent or both were made from the same type, and two selectors are equal exactly when their markers are equal and they name the same type, regardless of where in the program they were made (types are told apart by their full names). Equal markers and selectors hash equally, and a selector reports the marker and type it was made with.",
 ["configurations"], "all pairs of markers and selectors over a set of types, made at different places of the program",
 "No test compares markers or selectors.",
 [SC], [("PartialEq/Hash on type-name identity", SC)],
 [], ["==, Hash, marker(), ty()"])
prop("C18", "Box owns one value",
 "A Box gives access to exactly the value it was created with, destroys it exactly once when dropped, and hands it over undestroyed when unwrapped; converting between boxed slices and vectors keeps all elements and their number. This holds for values of any size and alignment, including zero-sized ones.",
 ["histories", "inputs"], "all histories of creation, mutation, unwrapping, conversion and drop, all value layouts",
 "There is no Box test.",
 [B, PT, V], [("ScopePtr::alloc / into_inner / Drop", PT)],
 [], ["value read back", "destructors", "allocator calls"])
prop("C19", "Rc keeps its value alive exactly as long as it is owned",
 "A value in an Rc is destroyed exactly when its last strong handle goes away and not before, its memory is returned when the last strong and weak handle is gone, and the strong and weak counts always equal the number of live handles of each kind. Upgrading a weak handle succeeds exactly while the value is alive and then refers to that same value.",
 ["histories"], "all histories of clone, drop, downgrade, upgrade, unwrap and copy-on-write over several handles",
 "There is no Rc test.",
 [R], [("RcBox counters, Rc::drop, Weak::drop, Weak::upgrade", R)],
 [("strong/weak", "handle counts", R)], ["destructors", "allocator calls", "strong_count/weak_count"])
prop("C20", "Rc gives mutable or owned access only to a sole owner",
 "Mutable access to the value of an Rc is granted in place exactly when it is the only handle, and unwrapping succeeds exactly for the only strong handle. Copy-on-write access always yields a value no other handle can see: it clones when other strong handles exist, and when only weak handles exist it takes the value over without cloning and those weak handles become dead.",
 ["histories"], "all histories over several strong and weak handles",
 "There is no Rc test.",
 [R], [("get_mut / make_mut / try_unwrap count checks", R)],
 [("strong/weak", "handle counts", R)], ["values seen through every other handle", "clone and drop counts"])
prop("C21", "Arc counts, shares and unwraps correctly on one thread",
 "On a single thread, for every history over several strong and weak handles, an Arc's value is destroyed exactly when its last strong handle goes away, its memory is returned with the last handle, and its counts equal the number of live handles. Mutable access is granted in place exactly to the only handle, unwrapping succeeds exactly for the only strong handle, and copy-on-write access yields a value no other handle can see, cloning only when another strong handle exists.",
 ["histories"], "all histories of clone, drop, downgrade, weak drop, get_mut, make_mut, try_unwrap",
 "The tests run four fixed integer histories; nothing observes destruction, memory or counts.",
 [A], [("ArcInner counters and drop_slow", A), ("get_mut / make_mut / try_unwrap", A)],
 [("strong/weak", "handle counts", A)], ["destructors", "allocator calls", "strong_count/weak_count"])
prop("C22", "Arc's value outlives every concurrent use and is freed once",
 "Under every interleaving and every behaviour the memory model allows, when threads concurrently clone, read, downgrade and drop handles to the same Arc, its value is destroyed exactly once, only after every access any thread made through a handle, and its memory is released exactly once after the last use of any strong or weak handle. No thread ever touches the value or the counters after they were released.",
 ["schedules"], "all programs of two or three threads with a few operations each, all interleavings and allowed stale reads",
 "One test spawns one thread that reads once; the scheduler picks one of many interleavings and x86 hides ordering errors.",
 [A], [("Release decrement / Acquire fence in Drop, weak counter keeping the block", A)],
 [("strong/weak", "atomic handle counts", A)], ["happens-before between accesses, destruction and release"],
 "cfg lokky_verif: core and std are replaced by a shim crate whose atomics, fences, Cells and spin hints report to the checker's scheduler")
prop("C23", "Arc grants exclusive access to one thread at a time",
 "Under every interleaving and every behaviour the memory model allows, when get_mut, make_mut or try_unwrap gives a thread mutable or owned access to an Arc's value, no other handle to that value is left (get_mut and make_mut: neither strong nor weak) and no other thread can read or write that value at the same time or without synchronisation, and writes made before handing a handle back are seen by whoever gets exclusive access next. At most one of several threads unwrapping the same Arc obtains the value.",
 ["schedules"], "all programs of two or three threads mixing get_mut, make_mut, try_unwrap, clone, downgrade, read and drop, all interleavings and stale reads",
 "Tests never call these functions from two threads.",
 [A], [("is_unique locks the weak counter; Acquire loads; CAS in try_unwrap", A)],
 [("strong/weak", "atomic handle counts, usize::MAX as lock", A)], ["happens-before between accesses"],
 "cfg lokky_verif (as C22)")
prop("C24", "Arc operations always finish",
 "Every Arc operation started by a thread completes no matter how other threads' operations on the same Arc interleave with it: no operation deadlocks or spins forever, also when a counter update repeatedly fails because another thread changed the counter. After all threads finish, the counts again equal the remaining handles.",
 ["schedules"], "all programs of two or three threads, all interleavings, including failing compare-and-swap",
 "Tests never run two counter updates concurrently.",
 [A], [("AtomicCounter retry loops, sync_lock, unlock in is_unique", A)],
 [("weak", "counter used as lock", A)], ["termination of every operation"],
 "cfg lokky_verif (as C22)")
prop("C25", "Urc keeps its value alive exactly as long as it is owned",
 "A value in a Urc is destroyed exactly when the last strong handle in any thread goes away, its memory is returned once all strong and weak handles are gone, and the per-thread strong and weak counts always equal the number of that group's live handles. This holds for every history of cloning, dropping, downgrading, enveloping, unwrapping, copy-on-write, and turning a sole handle into its transferable form and back.",
 ["histories"], "all histories over several handles in several per-thread groups",
 "The single Urc test clones nothing and drops nothing observable.",
 [U], [("Fence and Master counters; Urc::drop, Weak::drop, envelop", U)],
 [("strong/weak", "per-thread counts", U), ("strong_fence/weak_fence", "groups alive", U)], ["destructors", "allocator calls", "fence_*_count"])
prop("C26", "Urc gives mutable or owned access only to a sole owner",
 "Mutable access to a Urc's value is granted in place exactly when no other strong or weak handle exists in any thread, and unwrapping succeeds exactly for the only strong handle; a refused request leaves everything as it was, so that it succeeds later once the handle is alone. Copy-on-write access always yields a value no other handle can see: it clones when another strong handle exists in any thread and otherwise takes the value over, without cloning.",
 ["histories"], "all histories over several handles in several per-thread groups",
 "No test calls get_mut, make_mut or try_unwrap on a Urc.",
 [U], [("is_unique / make_mut / try_unwrap / try_into_fence", U)],
 [("strong_fence/weak_fence", "groups alive", U)], ["values seen through every other handle", "clone and drop counts"])
prop("C27", "Urc is safe across threads",
 "Under every interleaving and every behaviour the memory model allows, when threads that each received the same Urc's value concurrently clone, read, downgrade, drop, unwrap or mutate through their own handles, the value is destroyed exactly once after all accesses, memory is released exactly once after its last use, and mutable or owned access never overlaps or races with another thread's access. Every operation completes.",
 ["schedules"], "all programs of two or three threads with a few operations each on handles received through envelopes",
 "One test sends one handle to one thread that reads once.",
 [U], [("atomic strong_fence/weak_fence updates, per-thread Cell counters", U)],
 [("strong_fence/weak_fence", "atomic group counts", U)], ["happens-before between accesses, destruction and release"],
 "cfg lokky_verif (as C22)")
prop("C28", "An envelope delivers its handle exactly once",
 "Receiving an envelope made from an Arc or Urc yields a handle to the very same value, counted as one more owner from the moment the envelope is made. An envelope dropped without being received gives that share up again; sending and receiving neither clones nor destroys the value.",
 ["histories"], "all histories of enveloping, receiving, dropping unreceived, over Arc and Urc, between threads",
 "The two tests send one envelope each and always receive it.",
 [SC, A, U], [("Envelop / Envelope / ScopeRecv::recv", SC)],
 [], ["value identity", "counts", "destructors"])
prop("C29", "Pointers and containers compare, hash and print as their contents",
 "Equality, ordering (all six operators and total order), hashing and display of Box, Rc, Arc, Urc, Vec, SmallVec and String give the same answer as applying them to the pointed-to values, slices or text themselves, also for partially ordered values. Borrowing or dereferencing reaches the same value, and default and cloned objects equal their source.",
 ["inputs"], "all pairs of values/sequences over a small domain including incomparable ones",
 "Tests only compare a few equal integers and print one Arc.",
 [B, R, A, U, V, SV, S], [("forwarding trait impls", A)],
 [], ["operators, Hash, Display, Debug of shared pointers and vectors"])
prop("C30", "Only thread-safe data can be sent to another thread",
 "A program that would let two threads access data that is not safe to share - by sending or sharing a handle, an envelope or a transferable share of such data - is rejected by the compiler.",
 ["programs"], "all client programs",
 "Tests contain only programs that must compile.",
 [SC, A, U], [("unsafe impl Send/Sync bounds, Envelop bounds", A)], [], ["compiler acceptance"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
