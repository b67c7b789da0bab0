#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SB = "static-alloc/src/bump.rs"; UB = "static-alloc/src/unsync/bump.rs"; CH = "static-alloc/src/unsync/chain.rs"
LK = "static-alloc/src/leaked.rs"; ES = "exit-stack/src/lib.rs"; FV = "without-alloc/src/fixed_vec.rs"
RC = "without-alloc/src/rc.rs"; BX = "without-alloc/src/boxed.rs"; UN = "without-alloc/src/uninit.rs"
AL = "without-alloc/src/alloc.rs"; LO = "alloc-traits/src/local.rs"; UT = "alloc-traits/src/util.rs"; FI = "fill/src/fill.rs"

p("C01", "Allocations from a shared Bump never overlap",
  "Every allocation that a shared bump allocator hands out, through any of its entry points and to any thread, is aligned as requested, lies completely inside the allocator's own storage, and shares no byte with any other allocation handed out since the last reset. This holds no matter how the threads interleave or where a thread is stalled or dies. Two threads never receive the same byte, and bytes a thread wrote into its allocation stay as written until it changes them.",
  ["schedules", "crash_points", "inputs", "configurations"],
  "all interleavings of the memory accesses of 2-4 threads, all stall and kill points in them, all request layouts, all storage types and placements of the allocator",
  "The one threaded test runs one lucky schedule of identical requests in which a race window of two instructions practically never opens; overlap needs a preemption inside it.",
  [SB], [("compare-and-exchange of the consumed counter as the only way to claim a range", SB + " Bump::bump"), ("alignment and bounds computation from the expected counter value", SB + " Bump::try_alloc_at")],
  ["pointers returned by alloc/get*/leak*/GlobalAlloc/LocalAlloc", "contents of the allocations"],
  [("consumed", "bytes handed out so far", SB)])

p("C02", "Concurrent Bump histories are explained by one sequential bump allocator",
  "For every concurrent history of allocations and level queries on a shared bump allocator there is one sequential order, consistent with real time, in which each result is what a plain sequential bump allocator returns: a success consumes exactly the padding to the requested alignment plus the requested size, the reported level counts exactly the consumed bytes and never decreases, a failure consumes nothing. An allocation is refused for lack of space only if it did not fit behind the space consumed at that point, and one which fits is never refused. Requests of unusual size or alignment are answered in the same way and do not panic; only a plain allocation of size zero is refused by the documented panic, without effect.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all histories of up to 4 threads and their interleavings at memory-access granularity, with threads dying mid-operation, over all request kinds, sizes and alignments including ones that can not fit",
  "Existing tests are single threaded (but one without checks of the history) and use a handful of layouts that fit exactly.",
  [SB], [("retry loop around the level-exact allocation", SB + " Bump::try_alloc"), ("checked arithmetic", SB + " Bump::try_alloc_at")],
  ["results and levels of all operations with their invocation and response order"],
  [("consumed", "linearization state", SB)])

p("C03", "Bump operations are lock-free and never get stuck",
  "An operation on a shared bump allocator that runs while all other threads are stalled, or have died at arbitrary points inside their own operations, completes within a bounded number of steps. An operation only has to retry when another thread's allocation succeeded meanwhile. Legal requests never panic, and a thread dying inside an operation loses at most the bytes of the one allocation it was performing.",
  ["schedules", "crash_points", "fault_sequences"],
  "all points at which other threads can be stalled or killed inside an operation, and all continuations",
  "Tests can neither stop a thread inside an operation nor kill it there; a lock or an incorrect retry shows only then (as a hang in an interrupt handler or global allocator).",
  [SB], [("compare-and-exchange loop without any waiting", SB + " Bump::try_alloc"), ("no intermediate state is ever published", SB + " Bump::bump")],
  ["number of memory accesses between invocation and response of the solo thread", "level after a killed operation"])

p("C04", "Level-exact allocation succeeds only with nothing in between",
  "An allocation requested at an exact level succeeds only if no other allocation has been made since that level was reached, and is then placed at that level, separated from the previous allocation by nothing but alignment padding. Otherwise it fails without any effect, reporting the level actually observed or that the space is exhausted. Consequently a thread that allocates elements one by one, each at the level returned for the one before, always ends up with a gap-free array of its own elements even when other threads allocate from the same allocator at any time.",
  ["schedules", "histories", "inputs"],
  "all interleavings of threads growing runs by level-exact allocations with threads allocating otherwise, all stale, current and returned levels",
  "The tests use level-exact allocation from one thread only where it can not be disturbed; a check of the level that is separate from claiming it fails only under preemption between both.",
  [SB, UB], [("expected level is the compare value of the exchange", SB + " Bump::try_alloc_at"), ("observed level reported on mismatch", SB + " Bump::bump"), ("unsynchronized equivalent", UB + " MemBump::bump")],
  ["addresses of consecutive elements", "Failure and observed level"])

p("C05", "A value moved into an allocator is never lost or duplicated",
  "A value passed to a leaking or boxing allocation is, exactly once, either stored unmodified in the returned allocation or, if the allocation fails for exhaustion or a level mismatch, handed back intact inside the error or dropped by the call where the interface has no way to return it. The destructor of a leaked value never runs. This holds also when the allocator is contended by other threads and when the destructor panics.",
  ["schedules", "fault_sequences", "inputs"],
  "all interleavings deciding which of several competing moves fails, exhaustion and mismatch failures at every position of a history, panicking destructors",
  "Tests exercise one failing call with a Copy value; none counts destructor calls for the failing path under contention.",
  [SB], [("value travels in the error", SB + " LeakError"), ("value only written after the range was claimed", SB + " Bump::leak/leak_at/leak_box/leak_box_at")],
  ["destructor calls per value", "value read back from allocation or error"])

p("C06", "The Bump honours the contract of a global and local allocator",
  "Used through the global or local allocator interfaces, including re-used storage full of old data and several threads, memory returned by a zeroed allocation is all zero, a reallocation returns memory fit for the new layout that begins with the old contents up to the smaller of both sizes, and a failed reallocation leaves the old allocation untouched. Deallocation or reallocation of one block never affects the contents of any other live block. Requests that can not be satisfied are reported as null or nothing and never by a panic.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all histories of alloc, alloc_zeroed, realloc (grow, shrink, re-align, fail) and dealloc from interleaved threads on fresh, dirty and nearly exhausted storage",
  "The test uses it as the global allocator for one Vec; realloc to other alignments, failing realloc, and zeroing of re-used memory never occur.",
  [SB, LO, UT], [("realloc in place if it fits, copy otherwise", SB + " LocalAlloc::realloc"), ("default zeroing", UT + " defaults::local::alloc_zeroed"), ("adapter to GlobalAlloc", SB + " impl GlobalAlloc for Bump")],
  ["contents and placement of blocks"])

p("C07", "An owning LeakBox drops its value exactly once",
  "A value owned by a leak box stays at one address and is dropped exactly once when the box is dropped, also when the box owns a slice or trait object and when destructors panic or the box is dropped by an unwinding panic. It is not dropped by the box if it was taken out, leaked, turned into a raw pointer or the box was forgotten, and converting back from the raw pointer restores the ownership. Writing a value into a box of uninitialized memory drops nothing and makes the box own that value.",
  ["histories", "fault_sequences"],
  "all histories of creating, converting, mutating, taking, forgetting and dropping boxes by interleaved owners with panics injected into any destructor or user code",
  "Tests check single conversions with well-behaved values, none with a panic in a destructor or an abandoned (forgotten) box.",
  [LK], [("drop glue in place on Drop", LK + " Drop for LeakBox"), ("ManuallyDrop for take and into_raw", LK + " LeakBox::take, LeakBox::into_raw")],
  ["destructor calls and addresses per value"])

p("C08", "A reset allocator behaves like a fresh one and keeps its bytes",
  "After a reset a bump allocator, synchronized or not, answers every further history exactly like a new instance of the same storage at the same place would, whatever happened before, including threads that died in the middle of an allocation and values that were leaked. Resetting does not modify any byte of the backing storage, and storage created from given or zeroed bytes is handed out with exactly these bytes.",
  ["histories", "crash_points", "schedules"],
  "all histories (with killed threads) before and after any number of resets",
  "Tests reset once after one allocation and look only at whether a further allocation succeeds.",
  [SB, UB], [("counter set to zero under exclusive access", SB + " Bump::reset"), ("index set to zero", UB + " MemBump::reset")],
  ["results after reset compared with a fresh allocator", "bytes of the storage"])

p("C09", "The unsynchronized bump allocator follows the sequential model",
  "Every history of operations of any number of interleaved users of an unsynchronized bump allocator gives the results of a sequential bump model: aligned, in-bounds and disjoint allocations, exact levels, level-exact requests succeeding exactly at the current level, failures without effect and only if the request did not fit. Arrays and values of zero-sized types follow the same rules (only a plain allocation of size zero is refused by the documented panic, without effect), the reported capacity is exactly what can be allocated, and a sized allocator can always hold at least one value of its storage type when fresh. Creating one from raw memory works for memory of any content, length and misalignment, fails only if the bookkeeping header does not fit, and never touches bytes outside of that memory.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all histories over shared users, all base misalignments and lengths of the provided memory and its previous content, all storage types, request sizes, alignments and counts",
  "Tests cover a few well-fitting requests on aligned memory; arithmetic at the rounded tail, over-aligned storage types, misaligned memory and zero sizes are not reached.",
  [UB], [("checked allocation arithmetic", UB + " MemBump::try_alloc_at"), ("alignment and rounding of provided memory", UB + " MemBump::from_mem, from_aligned_mem"), ("view of the sized type as MemBump", UB + " Deref for Bump")],
  ["results, levels, capacity, canary bytes around the memory"])

p("C10", "A released bump allocator resumes with its state, also relocated",
  "Memory released from an unsynchronized bump allocator lies within the memory it was created from and contains its complete state: re-creating the allocator from it without reinitialization, once or many times, with arbitrary interruptions in between and also from a copy of the bytes at another address of header alignment, continues with the same level and capacity. Earlier allocations can be reacquired by their level with their contents intact and no later allocation overlaps them. Reacquiring an allocation does not modify anything.",
  ["crash_points", "histories", "configurations"],
  "all histories cut into any number of sessions at arbitrary points, with the memory kept or moved in between",
  "One doc example releases and re-creates an unused allocator at once, without any allocation to lose.",
  [UB], [("header is kept inside of the memory", UB + " MemBump::into_mem"), ("same size computation on re-creation", UB + " MemBump::from_aligned_mem"), ("offset based access", UB + " MemBump::get_unchecked")],
  ["level, capacity, contents at offsets after the restart"])

p("C11", "Heap backed bump memory and chains survive failing allocations",
  "Creating heap-backed bump memory or a chain link on a heap that fails requests or returns dirty memory either gives an empty allocator of the requested capacity or reports the failure and its size with no memory lost, and a failed creation never affects an existing chain. Values allocated from a chain stay valid, unmoved and disjoint while further links are chained in any order and number, until the chain is dropped. Dropping releases every link exactly once with the layout it was allocated with, in constant stack depth.",
  ["fault_sequences", "histories", "inputs"],
  "all positions at which the heap fails, all heap contents, all histories of creating, chaining (also of chains with several links), allocating and dropping",
  "Tests use a heap that never fails and typically returns fresh zero pages, with one or two links.",
  [CH, UB], [("zeroed allocation with error reporting", CH + " Link::alloc"), ("iterative drop", CH + " Drop for Chain, Drop for Link"), ("header initialization", UB + " MemBump::new")],
  ["heap requests and releases with layouts", "levels, capacities, contents"], hook="none: the harness owns the global allocator")

p("C12", "Values on an exit stack drop exactly once, last pinned first",
  "Every value pinned to an exit stack is dropped exactly once and in place: when all values are popped, when the stack is set to a new value or when the stack is dropped, in the reverse order of pinning and before its memory is reused. If one destructor panics, all remaining values are still dropped exactly once and the stack stays usable. Reserving slots, dropping reserved slots unused or filling them in another order than reserved does not affect this.",
  ["histories", "fault_sequences"],
  "all histories of reserving, filling, abandoning slots, popping and setting, with a panic in the destructor of any of the pinned values",
  "Tests count drops of identical values in well-behaved runs, none panics in a destructor or reserves several slots.",
  [ES], [("linked list through the slots", ES + " Slot::pin"), ("unwind flag resuming the list", ES + " inner_pop_all_with_unsafe_self_and_pinned")],
  ["order and number of destructor calls"])

p("C13", "A pinned value is never moved or overwritten until dropped",
  "The address of a value pinned to an exit stack does not change and its bytes are not modified or reused by the stack until its destructor has run, whatever else is reserved, pinned or refused meanwhile. Safe code has no way to move the stack away from its pinned values. Setting the stack to a value of its memory type always succeeds, for types of any size and alignment, and a slot that does not fit is refused without effect.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all histories and memory and value types with any size and alignment, exhaustion at any point, attempts to relocate the stack if the type system permits it",
  "Tests use two memory types with alignment of at most 8 and never compare addresses or contents later.",
  [ES, UB], [("bump allocated slots", ES + " ExitStack::slot"), ("reset only after all drops", ES + " inner_pop_all_with_unsafe_self_and_pinned"), ("pinning API", ES + " ExitStack")],
  ["addresses and contents of pinned values"])

p("C14", "Stack allocation gives a private aligned slice of the exact length",
  "A dynamic stack allocation runs its closure exactly once with a writable slice of exactly the requested number of elements, aligned for the element type and disjoint from every other live stack allocation, whether nested or belonging to another suspended task, and returns the closure's result. A panic in the closure propagates and leaves other allocations and later runs unaffected. Creating it is refused only for lengths whose size, with one element of padding, can not be represented, and lengths of zero and zero-sized elements are served too.",
  ["inputs", "schedules", "fault_sequences"],
  "all element types and lengths up to the documented limit, all nestings and interleavings of tasks suspended inside of their closures, panics at any point",
  "A single test with one length and type; size classes, their boundaries, nesting and panics are not covered.",
  [LK], [("size classes with one element of slack for alignment", LK + " Alloca::run"), ("checked layout", LK + " Alloca::new")],
  ["slice address, length and contents"])

p("C15", "A FixedVec behaves like a vector of bounded capacity",
  "Every history of pushes, pops, truncations, fills, extensions, splits, drains and shrinking on a fixed vector gives the results and contents of an ordinary vector whose capacity is limited by the provided memory, a refused value being handed back and refused only when full. Vectors split from each other keep their own elements and share no capacity, and the memory given back by shrinking is not used by the vector. Nothing outside of the provided memory is written, for memory of any misalignment and element types of any size.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all histories of operations by interleaved users of vectors split from one another, with abandoned drains, exhausted iterators and interrupted operations, over all capacities, misalignments and element types including zero-sized",
  "Tests run fixed short sequences of integers; interactions of split, drain, shrink and fill are not reached.",
  [FV, UN], [("length separate from the capacity of the memory", FV + " FixedVec"), ("splitting of memory", UN + " Uninit<[T]>::split_at"), ("tail restore", FV + " Drop for Drain")],
  ["contents, lengths, returned values, canary bytes"])

p("C16", "FixedVec elements drop exactly once despite panics and leaks",
  "Each element moved into a fixed vector is dropped exactly once or moved out exactly once, and never both, in every history of its operations. If a destructor, an iterator or other user code panics in the middle of an operation, or a drain is leaked, no element is dropped twice, nothing uninitialized is ever dropped or exposed and the vector stays usable; elements may be lost only in a leaked drain or one whose element's destructor panicked. Dropping the vector drops all elements it has left, even if one of their destructors panics.",
  ["fault_sequences", "histories"],
  "all histories with panics injected in any destructor and any call of the iterator, and drains leaked in any state",
  "Tests use well-behaved elements; panic safety and leak safety need a fault at a specific element of a specific operation.",
  [FV], [("length updated before resp. after each element", FV + " truncate, fill, drain"), ("drop_in_place of the slice", FV + " Drop for FixedVec")],
  ["destructor calls and validity per element"])

p("C17", "Rc keeps its value and memory alive exactly as long as referenced",
  "The value of a reference counted allocation is dropped exactly once, when its last strong reference goes away, or is moved out to the single strong owner and then not dropped; the counts always equal the existing references. Weak references can be upgraded exactly while the value is alive, mutable access is given only to a unique reference, and the memory is given back only when no value and no other reference remains in it, with its original extent. This also holds for values that own references to themselves, use them in their destructor, or panic in it.",
  ["histories", "fault_sequences"],
  "all histories of interleaved owners cloning, downgrading, upgrading, unwrapping, converting and dropping, with destructors that operate on references to their own allocation or panic",
  "Tests check counts along two straight scripts; destructors re-entering through weak references or panicking do not occur.",
  [RC], [("strong and weak counters", RC + " Rc, Weak"), ("implicit weak reference held by strong ones", RC + " Drop for Rc"), ("memory only from last weak", RC + " Weak::try_unwrap")],
  ["counts, destructor calls, results of upgrade/unwrap", "returned memory"],
  [("strong/weak", "number of references", RC)])

p("C18", "A box in provided memory owns value and memory",
  "A value in a box placed into provided memory stays in place and unmodified and is dropped exactly once with the box, also when its destructor panics, while taking it out, leaking or forgetting the box does not drop it. Taking the box apart gives back the value and the complete memory, which can be used again for a new box, and re-creating a box from it restores the ownership. Coercing the box to an unsized type keeps the value, the memory extent and its one drop.",
  ["histories", "fault_sequences"],
  "all histories of creating, taking apart, re-creating, coercing, leaking and dropping boxes by interleaved owners, panics in any destructor, memory larger than needed and of any content",
  "A single test drops one box; no faults, no re-use of memory.",
  [BX, UN], [("drop in place", BX + " Drop for Box"), ("memory extent carried along", BX + " Box::into_raw")],
  ["destructor calls, addresses and extents"])

p("C19", "Splitting uninitialized memory partitions it without overlap",
  "Splitting a region of uninitialized memory in any manner gives two parts that are disjoint and together are exactly the region, both still with valid pointers: what is reported as extent, capacity and slice length of a part covers only memory of that part. Parts cast to or split for a type are aligned and large enough for it, a split or cast is refused exactly if that is impossible, and then leaves the region unchanged. Thus owners of different parts can write all of their memory at any time without affecting one another or anything outside of the region.",
  ["histories", "inputs", "schedules"],
  "all trees of splits and casts over regions of any misalignment, length and element type, and all interleavings of the owners writing into the parts",
  "Tests split aligned arrays of one type; byte and layout splits of misaligned regions with following writes of all parts do not occur.",
  [UN], [("pointer and byte length pairs", UN + " UninitView"), ("byte splits", UN + " UninitView::split_at_byte, split_layout"), ("element splits", UN + " UninitView::split_at")],
  ["addresses and extents of parts", "contents after interleaved writes"])

p("C20", "Values placed through a local allocator are intact or refused",
  "Boxes, reference counted values, vectors and copied slices or strings placed through any local allocator, one failing requests at any point, handing out more memory than requested or shared by several threads, are created with their exact contents, length and alignment in memory of their own. If the allocator refuses, nothing is created, the value is dropped exactly once and later requests work. The allocator is only ever asked for non-empty layouts that fit the value, and zero-sized values need no memory at all.",
  ["fault_sequences", "schedules", "inputs"],
  "all patterns of failing or over-providing allocators, interleavings of threads using one allocator, value types and lengths including zero-sized and impossible ones",
  "Tests use one allocator that does not fail, with few element types.",
  [AL, LO], [("layout computation per container", AL + " LocalAllocLeakExt"), ("zero-sized fall backs", AL + " alloc_t, fixed_vec, copy_slice")],
  ["requests received by the allocator", "contents and destructor calls"], hook="none: LocalAlloc is a public trait, the harness implements it")

p("C21", "Default allocator methods conserve memory and contents under failure",
  "Relying on the default methods of the local allocator trait, a zeroed allocation is zero over the complete layout that was returned, and a reallocation gives the old contents up to the smaller size in memory fit for the new layout. Each successful reallocation releases the old block exactly once, with the layout it was allocated with, after copying from it; a refused one releases nothing and leaves the old block as is. No sequence of allocator failures loses or double releases a block.",
  ["fault_sequences", "histories"],
  "all histories of default allocation methods over allocators failing at any request, reusing released memory at once, over-providing and with dirty memory",
  "No test implements the trait with the default methods at all.",
  [UT, LO], [("default alloc_zeroed", UT + " defaults::local::alloc_zeroed"), ("default realloc", UT + " defaults::local::realloc")],
  ["requests and releases received by the allocator", "contents"], hook="none: LocalAlloc is a public trait, the harness implements it")

p("C22", "Filling takes exactly the items that fit, in order",
  "Filling a container from a stream of items takes, in order, exactly as many items as there is space for or until the stream first ends, never more, so that the remaining items are still in the stream afterwards. Already contained items are kept, no reallocation happens, and a fallible container stops at the first error, which it then holds, without taking later items. The reported count and exhaustion are exact for streams that are infinite, end early, resume after ending or misreport their size.",
  ["inputs", "histories", "fault_sequences"],
  "all histories of fills on all supported containers in any fill state from streams of any length, ending, resuming or failing at any item",
  "Tests use one well-behaved range per container.",
  [FI], [("pulling only while space remains", FI + " Fill impls"), ("by-reference filling", FI + " fill_and_keep_tail, fill_count, checked_fill")],
  ["items in the container, items left in the stream, number of polls"])

p("C23", "No item is lost or dropped twice when a stream fails mid-fill",
  "If a stream panics while a container is filled from it, the container afterwards holds its earlier items and exactly the items taken so far and stays usable. Across any sequence of fills, faults and drops each item is in exactly one place: still in the stream, in the container or dropped once. Items replaced by or swapped with filled ones are likewise dropped once or handed back.",
  ["fault_sequences", "histories"],
  "all positions at which the stream panics or fails, or a replaced item's destructor panics, in all histories of fills on all supported containers",
  "No test has a panicking stream or counts destructor calls.",
  [FI], [("item by item insertion", FI + " Fill impls")],
  ["destructor calls and location per item"])

p("C24", "Unsizing a pointer keeps its address, its ownership and its metadata",
  "Coercing any supported pointer (Box, Rc, Weak, Arc, Pin, NonNull, references, raw) to a sized value into a pointer to an unsized type keeps address, ownership and reference counts and gives the metadata of the compiler's own coercion: the value acts, is counted, recovered and dropped once as if it had never been coerced.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all pairs of sized and unsized types and pointer types, in all histories of clones, coercions, downgrades, raw round trips and drops, with destructors that panic, also if threads share the value",
  "It quantifies over types and histories; tests coerce some pairs once and check the result.",
  ["unsize/src/lib.rs", "unsize/src/coercion_impls.rs", "unsize/src/alloc_impls.rs"], [("pointer replacement", "unsize/src/lib.rs CoerciblePtr, CoerceUnsize"), ("ownership through the coercion", "unsize/src/alloc_impls.rs")],
  ["addresses, metadata, reference counts", "destructor calls, memory released with its layout"])

p("C25", "Comparison, hashing and formatting of containers follow the contents",
  "Comparing, ordering, hashing, formatting, indexing and borrowing containers and boxes (FixedVec, Box, Rc, LeakBox), and cloning, comparing, hashing and formatting a Coercion, gives exactly the result, output or panic that the same operation gives on the contents, and leaves them unchanged, also if an element's own code panics or the writer fails.",
  ["inputs", "histories", "fault_sequences"], "all pairs of contents of all histories, all operators, format options, positions at which an element, hasher or writer fails",
  "Quantifies over all contents and failures; tests do not cover it.",
  [FV, BX, RC, LK, "unsize/src/coercion_impls.rs"], [("delegating trait impls", "the files named")], ["results of comparisons, bytes fed to the hasher, text written, panics"])

p("C26", "References to allocations can not outlive the allocator or a reset",
  "No program of safe code that is accepted by the compiler can use an allocation after its allocator was reset, moved or dropped.",
  ["programs"], "all safe programs using the public interface",
  "It quantifies over programs that must not compile; three compile-fail doc tests sample it.",
  [SB, UB, LK, "alloc-traits/src/local.rs"], [("invariant lifetime marker", LO + " AllocTime"), ("exclusive borrow for reset", SB + " Bump::reset")], ["acceptance by the compiler"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
