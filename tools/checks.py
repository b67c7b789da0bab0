SCHED = "deterministic simulation: seeded scheduler preempts, stalls and kills simulated threads at any memory access"
t("C01", SCHED + "; interval and content oracle over all allocations", "Millions of seeded runs per check. Each run checks every handed out block for alignment, bounds, overlap and later corruption. Sequentially consistent interleavings only.", SCHED_REAL, SCHED_STUB)
t("C02", SCHED + "; linearizability check against a sequential bump model", "Each recorded history of up to 4 threads is searched for a linearization; pending operations of dead threads may or may not have taken effect. One of three profiles injects compare-exchanges which fail for no reason.", SCHED_REAL, SCHED_STUB + ["profile weak: the atomic type, real but for weak compare-exchanges failing as the simulator decides"])
t("C03", SCHED + "; kills and indefinite stalls with step bounds and retry accounting", "An operation running alone after threads died or stalled must finish within a bounded number of memory accesses; every failed attempt of an operation must be explained by a success of another thread.", SCHED_REAL, SCHED_STUB)
t("C04", SCHED + "; sequential model of level-exact requests, linearized histories", "Covers Bump (shared) under schedules and the unsynchronized allocators under interleaved users and repeated interruptions. One of three profiles injects compare-exchanges which fail for no reason.", SCHED_REAL, SCHED_STUB + ["profile weak: the atomic type, real but for weak compare-exchanges failing as the simulator decides"])
t("C05", SCHED + "; tracked values with panicking destructors", "Every value carries an identity and is accounted for: stored, returned in the error, or dropped once.", SCHED_REAL, SCHED_STUB)
t("C06", SCHED + "; dirty storage, shadow copy of every block", "Histories of alloc, alloc_zeroed, realloc, dealloc through GlobalAlloc and LocalAlloc on re-used storage.", SCHED_REAL, SCHED_STUB)
t("C08", SCHED + "; differential run against a fresh instance at the same address after kills, leaks and reset", "Compares every result after the reset with those of a fresh instance, and the storage bytes around the reset.", SCHED_REAL, SCHED_STUB)
t("C09", "deterministic simulation: seeded histories of interleaved users on dirty, guarded, misaligned memory against a sequential bump model", "Single threaded by design (the type is not Sync); the nondeterminism is memory content, placement, order of users and space faults.", SCHED_REAL, SCHED_STUB)
t("C10", "deterministic simulation: seeded crash/restart and relocation of a bump allocator; only the released bytes survive", "A crash forgets everything but the released memory; restarts continue from the bytes, also at another address.", SCHED_REAL, SCHED_STUB)
MEM_STUB = ["storage placement: guarded arena with dirty bytes", "threads: coroutines under the seeded scheduler"]
VALS = "values of several sizes and alignments with identities, whose destructors can be told to panic"
t("C07", "deterministic simulation: seeded histories of boxes over shared and unsynchronized allocators with contending threads, panicking destructors and unwinding drops", "Ownership ledger of every value; addresses and contents compared during the whole run.", ["static_alloc::leaked::LeakBox", "static_alloc::Bump", "static_alloc::unsync::{Bump, MemBump, Chain}", "unsize coercions"], MEM_STUB + [VALS])
t("C11", "deterministic simulation: the global allocator is a simulated heap that refuses requests by seed and returns dirty guarded memory", "Heap ledger compares every release with its allocation; drops of long chains run on a stack of bounded size.", ["static_alloc::unsync::{MemBump::new, Chain}"], ["global allocator: simulated heap with failing allocations", "threads of users: interleaved by seed"])
t("C12", "deterministic simulation: seeded histories of interrupted reservations with panicking destructors, unwinding at any drop", "Order and number of drops against a reference stack, with the memory checked at each drop.", ["exit_stack::{ExitStack, Slot}"], MEM_STUB + [VALS])
t("C13", "deterministic simulation: seeded histories on placed, moved-around memory with refused and abandoned reservations and panics", "Each pinned value watches its own address and bytes.", ["exit_stack::ExitStack"], MEM_STUB + [VALS])
t("C14", "deterministic simulation: several tasks with allocations on their own stacks, nested, preempted and panicking by seed", "Each live slice is filled with its own pattern and checked after each interruption.", ["static_alloc::leaked::Alloca"], ["threads: coroutines under the seeded scheduler with own stacks"])
t("C15", "deterministic simulation: seeded histories against a reference vector, in guarded misaligned memory", "Includes split vectors, drains, and returned memory which another owner then overwrites at once.", ["without_alloc::FixedVec", "without_alloc::Uninit"], MEM_STUB + [VALS])
t("C16", "deterministic simulation with fault injection: destructors, iterators and closures that panic at seeded points, leaked drains", "Ledger of every element; the vector is checked and used after each fault.", ["without_alloc::FixedVec"], MEM_STUB + [VALS])
t("C17", "deterministic simulation: seeded histories of references including cycles, use in destructors, and panics there; released memory is overwritten at once", "Counts, liveness and memory extents against a reference model of the graph of references.", ["without_alloc::rc::{Rc, Weak}"], MEM_STUB + [VALS])
t("C18", "deterministic simulation: seeded histories of boxes with panicking destructors and memory re-use", "Ledger of values and of the memory that each box owns.", ["without_alloc::Box", "unsize coercions"], MEM_STUB + [VALS])
t("C19", "deterministic simulation: owners of the parts run as preempted tasks that write all of their part at any time", "Each part is checked for its own pattern after every interruption; extents against an interval model.", ["without_alloc::Uninit and UninitView"], MEM_STUB)
t("C20", "deterministic simulation with fault injection: an allocator that refuses, panics or over-allocates by seed, shared by preempted threads", "Every request to the allocator and every value is accounted for.", ["without_alloc::alloc::LocalAllocLeakExt", "without_alloc::{Box, FixedVec, rc::Rc}", "static_alloc::Bump as LocalAlloc"], ["allocator: simulated, with failures and panics, or a real Bump", "threads: coroutines under the seeded scheduler", VALS])
t("C21", "deterministic simulation with fault injection: failing, panicking and over-allocating allocator under the default methods", "Ledger of blocks with their exact layouts; released memory is overwritten at once.", ["alloc_traits::LocalAlloc default methods", "alloc_traits::util::defaults"], ["allocator: simulated", "threads: coroutines under the seeded scheduler"])
t("C22", "deterministic simulation: seeded streams that pause, resume, end early, misreport their size or never end, against a reference container", "The stream is checked for what is left in it.", ["fill::{Fill, ...} for all supported containers"], ["item streams: simulated", VALS])
t("C23", "deterministic simulation with fault injection: streams and destructors which panic at a seeded item", "Ledger of every item: still in the stream, in the container, or dropped once.", ["fill::{Fill, ...} for all supported containers"], ["item streams: simulated", VALS])

t("C24", "deterministic simulation: seeded histories of clones, coercions, downgrades and drops on a checked heap, with panicking destructors and threads sharing the value", "Each pointer's address, metadata, counts and behaviour are compared with the compiler's own coercion; 14 trait objects and slices over all supported pointer types.", ["unsize::{CoerceUnsize, CoerciblePtr, Coercion} for all pointer types", "unsize::coercion_impls"], ["global allocator: simulated heap which checks layouts and overwrites released memory", "threads: coroutines under the seeded scheduler", VALS])
t("C25", "deterministic simulation with fault injection: elements whose comparison, hashing or formatting panics, failing and full writers, panicking hashers, on contents built by seeded histories", "Differential: results, hasher input, written text and panics are those of the same operation on a model of the contents.", ["without_alloc::{FixedVec, Box, rc::Rc}", "static_alloc::leaked::LeakBox", "unsize::coercion_impls"], ["writers and hashers: simulated, failing by seed", "elements: law-abiding orders with incomparable keys, panicking by seed"])
