"""Source of properties.jsonl and of the per-check fields of MANIFEST.json."""
NA = {}
PROPS = []
SAN = "ASan+UBSan"


def add(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level="exploration", state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=a, technique=technique, level_note=note, level=level))


S = "src/umpire/strategy/"
U = "src/umpire/util/"
ENG_NOTE = ("Exploration: the real code under " + SAN + " on thousands of random strategy trees and histories per run (quick; many "
            "rounds in thorough); trusts the shadow model in harness/world.hpp and the recording resource.")
ENG_WHY = ("Tests run a handful of fixed sequences on one strategy at a time over the real host; they do not sample strategy "
           "combinations, long mixed histories, odd sizes or refusing parents, and never compare against an independent record of memory.")

add("C01", "Live allocations never overlap, stay in bounds and keep their contents",
    "For every stack of allocators and every history of allocations, deallocations, releases and coalesces, each live allocation is "
    "usable for its full requested size, lies inside memory its backing resource currently provides, overlaps no other live "
    "allocation, and keeps the bytes the user wrote until it is deallocated.",
    ["histories", "configurations", "fault_sequences"],
    "every composition of strategies, every request size and every interleaving of allocate/deallocate/release/coalesce",
    ENG_WHY,
    [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", S + "MixedPool.cpp",
     S + "SlotPool.cpp", S + "MonotonicAllocationStrategy.cpp", S + "mixins/AlignedAllocation.inl", S + "AlignedAllocator.cpp"],
    [("chunk split/merge bookkeeping", S + "QuickPool.cpp"), ("block lists", S + "DynamicSizePool.hpp"),
     ("bit map of free objects", S + "FixedPool.cpp")],
    "shadow-memory monitor over a recording resource, random histories, " + SAN, ENG_NOTE,
    ["every pointer returned", "every block the parent handed out", "fill patterns re-read"])

add("C02", "Allocations are aligned as promised",
    "Every pointer an allocator returns satisfies the alignment it promises: natural alignment for host memory, the configured "
    "alignment of a pool or aligned allocator, or the object boundary of a fixed pool, whatever the request sizes, the parent and "
    "the history; a request for an alignment that is not usable is refused.",
    ["inputs", "histories", "configurations"], "every alignment, size, parent and history",
    ENG_WHY, [S + "mixins/AlignedAllocation.inl", S + "AlignedAllocator.cpp", S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp"],
    [("rounding and aligned base", S + "mixins/AlignedAllocation.inl")],
    "alignment monitor on every returned pointer over deliberately misaligned parents, " + SAN, ENG_NOTE, ["every pointer returned"])

add("C04", "Size, high watermark and count statistics are exact",
    "At every moment an allocator's current size and allocation count equal those of its live allocations, its high watermark equals "
    "the largest current size so far, and the actual size equals the memory it holds from its parent; failed operations change "
    "none of them.",
    ["histories", "fault_sequences", "configurations"], "every history on every allocator in a stack, at every quiescent point",
    ENG_WHY, [S + "AllocationStrategy.cpp", S + "mixins/Inspector.cpp", S + "AllocationStrategy.hpp"],
    [("inspector counters", S + "mixins/Inspector.cpp"), ("internal allocation tracking", S + "AllocationStrategy.cpp")],
    "online conservation checker: reference counters compared after every operation, " + SAN, ENG_NOTE,
    ["getCurrentSize", "getHighWatermark", "getAllocationCount", "getActualSize"])

add("C05", "Pools return every byte to their parent exactly once",
    "A pool frees each block it took from its parent at most once and with the size it was taken with, gives all free blocks back "
    "on release, holds nothing after release when nothing is live, and reports block and releasable sizes that match what it holds; "
    "a block it takes has the configured minimum size (one for the first, another for later ones) or that of the request if it is larger; "
    "no block is freed while something in it is live.",
    ["histories", "fault_sequences", "configurations"], "every pool, configuration and history including release, coalesce and destruction",
    ENG_WHY, [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", S + "SlotPool.cpp"],
    [("release and destructor paths", S + "QuickPool.cpp")],
    "exactly-once/conservation monitor in a recording parent resource, leak accounting, " + SAN, ENG_NOTE,
    ["parent allocate/deallocate log", "getReleasableSize", "getTotalBlocks", "getActualSize"])

add("C06", "A failed allocation reports an error and changes nothing",
    "When memory runs out at any point of any history, the request fails with the library's out-of-memory error carrying the "
    "requested size, or with the parent's own error, and a pool has then first given up every block it held unused and tried again; nothing allocated earlier is disturbed, no statistic moves, nothing leaks, and "
    "the allocator keeps working once memory is available again.",
    ["fault_sequences", "histories", "configurations"], "a parent failure at every allocation index, in construction as well as in use",
    "No test makes a parent fail under a pool; the only out-of-memory test asks the host for an absurd size.",
    [S + "AllocationStrategy.cpp", S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "SizeLimiter.cpp", U + "error.hpp"],
    [("allocate, then record only on success", "src/umpire/Allocator.inl")],
    "fault injection at chosen parent calls with before/after state comparison, " + SAN,
    ENG_NOTE + " Faults are enumerated per call index in short histories and sampled in long ones.", ["exceptions", "statistics before/after"],
    level="fault_enumeration")

add("C07", "Capacity limits are exact",
    "A size-limited allocator, a fixed-capacity allocator and a slot pool accept a request exactly when it fits the capacity that "
    "remains, refuse it with an error otherwise, and regain precisely the capacity that is given back; no sequence of refusals and "
    "frees lets more than the limit be live at once.",
    ["histories", "inputs", "fault_sequences"], "every limit, request size (also huge ones) and history, with parents that may fail",
    ENG_WHY, [S + "SizeLimiter.cpp", S + "MonotonicAllocationStrategy.cpp", S + "SlotPool.cpp"],
    [("remaining-capacity accounting", S + "SizeLimiter.cpp")],
    "reference accountant decides accept/refuse for each request, " + SAN, ENG_NOTE, ["accept/refuse of each request"])

add("C08", "Absurdly large requests are refused, not wrapped",
    "A request whose size cannot be represented after rounding or padding, or that no memory can satisfy, is refused with an error "
    "by every allocator; it never yields a pointer to fewer bytes than were asked for, and the allocator stays usable.",
    ["inputs", "configurations"], "every size up to the largest representable one, on every allocator stack",
    "Tests never pass sizes near the top of the range to pools, aligned allocators or typed containers.",
    [S + "mixins/AlignedAllocation.inl", S + "AlignedAllocator.cpp", S + "SizeLimiter.cpp", "src/umpire/TypedAllocator.inl"],
    [("overflow check before rounding", S + "mixins/AlignedAllocation.inl")],
    "hostile-size workload, shadow monitor on any pointer returned, " + SAN, ENG_NOTE, ["exceptions", "returned pointers"])

add("C14", "The pointer map behaves as an ordered map from address to record",
    "For every sequence of insertions, removals, lookups and iterations over any addresses, the map that records allocations answers "
    "exactly as an ordered map does: exact lookup, greatest-key-not-after lookup, ordered complete iteration from any position, "
    "size, error on removing an absent key, stable values, several records under one address last-in-first-out, and an address "
    "inside an allocation finds that allocation. Iterators compare equal exactly when they stand at the same entry, and a map that is "
    "cleared or destroyed gives back everything its entries held.",
    ["histories", "inputs"], "every key distribution (dense, sparse, sharing any number of leading bytes, extreme) and every history",
    "The unit tests use a few dozen keys from one small array; radix splits, node overflow, merges after deletion and long histories are never reached.",
    [U + "MemoryMap.inl", U + "AllocationMap.cpp", "src/tpl/umpire/judy/judy.c"],
    [("judy array lookup and stack", "src/tpl/umpire/judy/judy.c"), ("record lists", U + "AllocationMap.cpp")],
    "model-based monitor: every result compared with std::map, " + SAN,
    "Exploration: thousands of random histories per run over nine key families, against std::map, with the memory of the container under "
    + SAN + "; trusts std::map. Null keys and keys more than one machine word are outside.", ["all results of the map API"])

add("C15", "The fixed-object pool hands out distinct, reusable objects",
    "The pool that backs internal records hands out objects that are disjoint, large enough, suitably placed and stable, reuses "
    "exactly the objects given back, counts its blocks, recognises precisely the objects it owns and gives its memory back when it is "
    "destroyed, for every object size, block size and history.",
    ["histories", "inputs", "configurations"], "every object size and objects-per-block and every allocate/deallocate order",
    "No unit test exercises it beyond what the maps do with one object size.",
    [U + "FixedMallocPool.cpp", U + "FixedMallocPool.hpp"], [("in-object free list", U + "FixedMallocPool.cpp")],
    "shadow monitor with fill patterns, " + SAN,
    "Exploration: thousands of random histories per run against a set model, fill patterns re-read, " + SAN + " on the pool's own memory.",
    ["every object returned"])

add("C23", "Coalescing merges free memory and never moves live data",
    "Coalescing a pool, whether asked for or triggered by its heuristic, leaves every live allocation where it is with its contents, "
    "replaces only wholly free blocks, keeps the accounted sizes consistent with what the parent sees, and afterwards the merged "
    "memory serves requests that fit it without going to the parent.",
    ["histories", "configurations", "fault_sequences"], "every heuristic, every fragmentation pattern, and a parent that may refuse the merged block",
    ENG_WHY, [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "DynamicSizePool.hpp", S + "PoolCoalesceHeuristic.hpp"],
    [("do_coalesce and heuristics", S + "QuickPool.cpp")],
    "before/after shadow comparison around every coalesce, parent call log, " + SAN, ENG_NOTE, ["parent call log", "contents", "sizes"])

RM = "src/umpire/ResourceManager.cpp"
RM_NOTE = ("Exploration: thousands of random histories per run on real allocator stacks under " + SAN + ", every answer compared with a "
           "byte-exact model of all allocations; trusts that model (harness/h_rm.cpp).")
RM_WHY = "Tests ask about one or two allocations at fixed offsets; the answer has to be right for every pointer at every point of every history."

add("C03", "Any pointer is traced to exactly its live allocation",
    "At every moment, for every address inside a live allocation made or registered through the library, the library names the "
    "allocator that owns it, its base and its exact requested size; for an address in no live allocation, including just-freed, "
    "one-past-the-end and never-allocated ones, it says there is none. A re-used address reports its new owner only.",
    ["histories", "inputs", "configurations"], "every address (base, interior, last byte, just outside) at every point of every history",
    RM_WHY, [RM, U + "AllocationMap.cpp", "src/umpire/Allocator.inl"],
    [("allocation map lookup", U + "AllocationMap.cpp"), ("registration on allocate and removal on deallocate", "src/umpire/Allocator.inl")],
    "model-based monitor of all introspection queries after every operation, " + SAN, RM_NOTE,
    ["getAllocator(ptr)", "hasAllocator", "getSize", "findAllocationRecord"])

add("C09", "Copies and fills touch exactly the bytes asked for, or are refused",
    "A copy or fill between any two tracked addresses writes exactly the requested bytes (or, with no length given, the whole rest "
    "of the source allocation), leaves every other byte as it was, and reads nothing beyond its source; a request that would pass "
    "the end of either allocation, or involves an unknown pointer, is refused with an error before any byte is written.",
    ["inputs", "histories"], "every source and destination offset and length across every pair of allocators",
    RM_WHY, [RM, "src/umpire/op/HostCopyOperation.cpp", "src/umpire/op/HostMemsetOperation.cpp"],
    [("bounds checks", RM)], "byte-for-byte comparison of all memory around every copy and fill, " + SAN, RM_NOTE,
    ["all bytes of source, destination and neighbours", "exceptions"])

add("C10", "Reallocate and move keep the data and the books straight",
    "Reallocating or moving an allocation gives memory of the new size whose common prefix has the old contents, releases the old "
    "memory exactly once, keeps it in the right allocator and updates records and statistics to match; when it fails or is "
    "refused (an offset or unknown pointer, the wrong allocator, too large), the old allocation is untouched and still known.",
    ["inputs", "histories", "fault_sequences"], "every old and new size (also zero and absurd), allocator, offset and history",
    RM_WHY, [RM, "src/umpire/op/HostReallocateOperation.cpp", "src/umpire/op/GenericReallocateOperation.cpp"],
    [("reallocate dispatch", RM)], "byte-exact model and statistics comparison around every reallocate and move, " + SAN, RM_NOTE,
    ["contents", "records", "statistics", "exceptions"])

add("C11", "Misuse is reported and harmless",
    "Deallocating a pointer that is interior, already freed, never allocated, or owned by another allocator raises an error (null "
    "is ignored), as does registering null or deregistering what is not registered, and changes nothing: no statistic, record or byte of any live allocation moves, and the rightful owner can still "
    "free it.",
    ["inputs", "histories"], "every kind of wrong pointer at every point of every history, on every allocator kind",
    RM_WHY, [RM, "src/umpire/Allocator.inl", S + "mixins/Inspector.cpp"],
    [("ownership check before deallocation", "src/umpire/Allocator.inl")],
    "hostile workload with full before/after comparison, " + SAN, RM_NOTE, ["exceptions", "statistics", "records", "contents"])

add("C18", "Zero-byte allocations are real, distinct and freeable",
    "A zero-byte request on any allocator returns a pointer that is distinct from every live pointer, is known to the library with "
    "size zero and the right owner, disturbs no neighbour, can be freed exactly once and reused, in any number and mixed with "
    "other requests.",
    ["histories", "configurations"], "every allocator kind, any number of live zero-byte allocations, every order of freeing",
    RM_WHY, ["src/umpire/Allocator.inl", RM, S + "FixedPool.cpp", "src/umpire/resource/NullMemoryResource.cpp"],
    [("zero-byte pool", RM)], "shadow monitor over mixed zero and non-zero histories, " + SAN, RM_NOTE, ["returned pointers", "getSize", "owner"])

add("C24", "Allocation listings and overlap queries are complete and exact",
    "Listing an allocator's records yields each of its live allocations exactly once with its address, size and name, and nothing "
    "else; printed listings show the same; containment and overlap queries between two pointers agree with their address "
    "ranges; and the reported fragmentation follows from the gaps between the allocations.",
    ["histories", "inputs"], "every set of live allocations across allocators, at every point of every history",
    RM_WHY, ["src/umpire/Umpire.cpp", U + "AllocationMap.cpp", U + "allocation_statistics.cpp"],
    [("record listing", "src/umpire/Umpire.cpp")], "set comparison of listings with the model of live allocations, " + SAN, RM_NOTE,
    ["get_allocator_records", "print_allocator_records", "pointer_overlaps", "pointer_contains", "relative fragmentation"])

add("C12", "Allocator names and ids resolve uniquely and consistently",
    "Every allocator is reachable by exactly its own name, its id and its aliases, and by nothing else; ids never repeat; "
    "registering a taken name or alias, or looking up, aliasing or removing an unknown one, is an error that changes nothing; "
    "listings show exactly what is registered.",
    ["histories", "inputs"], "every sequence of creations, aliases, removals and lookups, lazily created resources included",
    "Tests register one alias and look it up; sequences of conflicting registrations and the listings after them are not explored.",
    [RM, "src/umpire/ResourceManager.inl", "src/umpire/resource/MemoryResourceRegistry.cpp"],
    [("name and id maps", RM)], "model-based monitor of the registry, " + SAN,
    "Exploration: thousands of random registration histories per run against a name/id model under " + SAN + ".",
    ["getAllocator by name/id", "isAllocator", "getAllocatorNames/Ids", "exceptions"])

add("C25", "Typed allocators work in every standard container without leaks",
    "Standard containers over a typed allocator hold the same contents as with the standard allocator for every sequence of "
    "operations; memory comes from and returns to the chosen allocator in full, rebinding keeps the allocator, equality means "
    "interchangeable, and element counts whose size overflows are refused.",
    ["histories", "inputs"], "every container kind, element type and operation sequence",
    "The tests push a few elements into a vector; rebinding containers, moves between allocators and overflow counts are not reached.",
    ["src/umpire/TypedAllocator.hpp", "src/umpire/TypedAllocator.inl"], [("size computation", "src/umpire/TypedAllocator.inl")],
    "differential monitor against std::allocator plus leak accounting, " + SAN,
    "Exploration: thousands of random container histories per run compared with the standard allocator under " + SAN + ".",
    ["container contents", "allocator statistics"])

add("C17", "Diagnostics are complete and go where they should",
    "Every byte written to the library's output buffer reaches each attached stream in order, unless that stream fails, and a "
    "failure of one is reported and does not starve the other; log messages appear exactly when their level is enabled, with "
    "level, place and text, in the log file the environment asks for, without overwriting an older one; an error carries its "
    "message, place and data through copies and is on disk before it is thrown; helpers that name files and find bits are exact.",
    ["inputs", "histories", "configurations", "fault_sequences"],
    "every byte value, level, environment setting, attach/detach order and failing destination",
    "The only test writes one short string to two healthy streams; failing or detached streams, environment variants and whole-process logs are never seen.",
    [U + "OutputBuffer.cpp", U + "Logger.cpp", U + "io.cpp", U + "error.hpp", U + "backtrace.inl", U + "find_first_set.hpp"],
    [("stream fan-out", U + "OutputBuffer.cpp"), ("level filter", U + "Logger.cpp"), ("error macro", U + "error.hpp")],
    "recording and failing stream monitors, forked processes with judged log files, " + SAN,
    "Exploration: tens of thousands of random histories plus over a thousand forked processes per run under " + SAN + ".",
    ["bytes at every destination", "log files", "what() of errors"])
add("C13", "Concurrent use of thread-safe parts never corrupts memory or counts",
    "When several threads use allocators made with the thread-safe wrapper, register and look up pointers, or create allocators at "
    "the same time, there is no data race, no two threads are ever given overlapping memory, every allocation stays known and "
    "intact until its own deallocation, and afterwards sizes, counts and names are exactly those of a serial execution.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of allocate, deallocate, release, registration, pointer lookup and allocator creation by any number of threads",
    "One test runs parallel allocations and would pass with most races present; schedules, hand-overs between threads, refusals under "
    "contention and the shared pointer map are never judged.",
    [S + "ThreadSafeAllocator.cpp", U + "AllocationMap.cpp", RM, "src/umpire/Allocator.inl"],
    [("wrapper lock", S + "ThreadSafeAllocator.cpp"), ("map lock", U + "AllocationMap.cpp"), ("registry lock", RM)],
    "ThreadSanitizer plus a claims monitor (every byte owned by one thread) and end-of-run conservation, random delays",
    "Exploration: thousands of random multi-threaded cases per run under TSan and ASan, with injected delays and refusals; two "
    "allocators sharing one parent's counters and reading statistics during concurrent use are not claimed.",
    ["every pointer handed out per thread", "TSan reports", "final statistics"])

add("C16", "The event log is a faithful, readable record of what happened",
    "With event recording on, the log contains for every allocator created and every allocation, deallocation, copy, move, "
    "reallocation, registration, release and coalesce exactly the events performed, in order, with their names, sizes and "
    "addresses; what is written can be read back unchanged whatever the names contain; a damaged or missing log is reported; "
    "recording never makes an operation fail, and with recording off nothing is written.",
    ["histories", "inputs", "configurations"], "every sequence of operations, every allocator and allocation name, every damaged log",
    "The tests build a few events by hand and look at one record; no test compares a log with the operations that produced it.",
    ["src/umpire/event/json_file_store.cpp", "src/umpire/event/event.hpp", "src/umpire/event/recorder_factory.cpp", RM, "src/umpire/Allocator.inl"],
    [("event records", "src/umpire/event/event.hpp"), ("log reader and writer", "src/umpire/event/json_file_store.cpp")],
    "offline trace checker: the recorded log against the operations performed, and round trips, " + SAN,
    "Exploration: thousands of random histories and event sets per run under " + SAN + "; logs of crashed processes, memset sizes "
    "and sizes of 2^63 or more are not claimed.",
    ["every line of the event log", "events read back"])

add("C21", "The C and Fortran interfaces behave like the C++ interface",
    "Every call through the C interface (and the buffer-passing entry points behind the Fortran module) has exactly the effect and "
    "result of the corresponding C++ call: same allocators, same memory, same sizes and statistics, names intact and padded within "
    "the caller's buffer, and handles that stay valid until they are released.",
    ["histories", "inputs", "configurations"], "every sequence of C calls on every kind of allocator, every name and buffer length",
    "The C tests call each function once with one argument; results are not compared with the C++ side and histories are not run.",
    ["src/umpire/interface/c_fortran/wrapResourceManager.cpp", "src/umpire/interface/c_fortran/wrapAllocator.cpp",
     "src/umpire/interface/c_fortran/wrapUmpire.cpp", "src/umpire/interface/c_fortran/utilUmpire.cpp"],
    [("C entry points", "src/umpire/interface/c_fortran/wrapResourceManager.cpp")],
    "differential monitor of the C entry points against the C++ interface and a byte-exact model, " + SAN,
    "Exploration: thousands of random call sequences per run under " + SAN + "; the Fortran module itself cannot be built here.",
    ["results of every C call", "memory contents", "statistics"])

add("C22", "Sanitizer support flags exactly the memory that is not allocated",
    "Built with the address-sanitizer support on, every byte of a live allocation may be touched, every byte a pool holds but has "
    "not handed out is poisoned, and memory returned to its parent is usable again, after every history of allocations, "
    "deallocations, releases and coalesces: no false report on correct code, no missed use after free.",
    ["histories", "configurations", "fault_sequences"], "every pool, alignment and history, every byte held",
    "The sanitizer tests expect one crash from one overrun; which bytes are poisoned after a history is never looked at.",
    [U + "memory_sanitizers.hpp", S + "QuickPool.cpp", S + "DynamicSizePool.hpp", "src/umpire/Allocator.inl"],
    [("poison and unpoison calls", U + "memory_sanitizers.hpp")],
    "shadow-state monitor: the AddressSanitizer shadow of every byte held compared with the model after every operation",
    "Exploration: thousands of random histories per run in a build with UMPIRE_ENABLE_ASAN.",
    ["ASan shadow of every held byte"])
R = "src/umpire/resource/"
add("C19", "Processes sharing a segment see one consistent set of named allocations",
    "Processes that name the same shared-memory segment get one segment whoever comes first; a name that is allocated denotes the "
    "same memory in all of them until every reference is dropped and is found by name until then; allocations under different "
    "names never overlap and stay inside the segment; what one process writes the others read; all memory becomes available again "
    "when it is deallocated; running out, asking for more than a name holds, or failing to set up a segment is an error that leaves "
    "nothing behind.",
    ["schedules", "histories", "fault_sequences", "crash_points"],
    "every number of processes, order and interleaving of attach, named allocate, deallocate and find, with idle processes killed",
    "The one test needs MPI and is not built here; it runs processes in lock step and compares only total sizes.",
    [R + "HostSharedMemoryResourceImpl.hpp", R + "HostSharedMemoryResource.cpp", "src/umpire/Umpire.cpp", S + "NamingShim.cpp"],
    [("segment creation handshake", R + "HostSharedMemoryResourceImpl.hpp"), ("block lists in the segment", R + "HostSharedMemoryResourceImpl.hpp")],
    "multi-process monitors: a parent-side model of the segment, and a claims board for concurrent runs, delays and faults injected, " + SAN,
    "Exploration: about two thousand multi-process cases per run under " + SAN + " with delays in the creation handshake; a process killed while "
    "it holds the segment's lock is not claimed.",
    ["every pointer relative to a common anchor", "bytes read by other processes", "getActualSize", "/dev/shm"])

add("C20", "File-backed memory is private, truly backed, and leaves nothing behind",
    "Each live allocation of the file resource is the mapping of one file of its own in the configured directory, at least as large "
    "as requested, and what is written to the memory is in the file; other files, even with the same name, are never touched; after "
    "deallocation, a refused request or destruction of the resource no file, mapping or descriptor remains, whatever somebody else "
    "did to the directory; sizes and counts are exact.",
    ["histories", "inputs", "fault_sequences", "configurations"],
    "every sequence of allocations and deallocations, size, directory setting and failing system call",
    "The test allocates three blocks and a large one; failing calls, directories that change, foreign files and what remains on disk are not looked at.",
    [R + "FileMemoryResource.cpp", R + "FileMemoryResource.hpp"],
    [("file and mapping life cycle", R + "FileMemoryResource.cpp")],
    "audit monitor of files, mappings and descriptors against the model after every operation, faults injected, " + SAN,
    "Exploration: thousands of random histories per run under " + SAN + " with failing system calls, removed and foreign files.",
    ["directory listings", "/proc/self/maps", "/proc/self/fd", "file contents"])
T = "tools/replay/"
add("C26", "Replaying a recorded session repeats it",
    "Replaying the log of a session makes the same allocators with the same names, bases, tracking and arguments, and performs the "
    "same allocations, deallocations, reallocations, coalesces, releases and default-allocator changes on them, in the same order and "
    "with the same sizes; calls that were refused in the session are not replayed, and copies, fills, marks and external registrations "
    "are accepted. This holds whether the log is compiled, recompiled or already compiled, and another pool or heuristic asked for changes "
    "only that. The sizes, watermarks and counts the tool reports are those of the session, and replaydiff calls two sessions equal "
    "exactly when their operations are.",
    ["histories", "inputs", "configurations"],
    "every single-threaded session over the strategies the tool supports, with names under 512 bytes, and every combination of its options",
    "The replay test compares one fixed session's log with a stored one; refused calls, named allocations, fills and odd names are not in it.",
    [T + "ReplayInterpreter.cpp", T + "ReplayOperationManager.cpp", T + "ReplayFile.cpp", "src/umpire/event/json_file_store.cpp"],
    [("compiling a log", T + "ReplayInterpreter.cpp"), ("running the compiled operations", T + "ReplayOperationManager.cpp")],
    "offline trace checker: the log of a session compared operation by operation with the log recorded while the real tool replays it, " + SAN,
    "Exploration: hundreds of random sessions per run, each replayed up to six times with different options under " + SAN + ".",
    ["event logs of session and replay", "replay statistics and traces", "replaydiff exit codes"])
add("C27", "Repeated work does not make the process grow",
    "Any closed piece of work -- allocations and their deallocations, refused and faulty calls, reallocations, moves, copies, "
    "registrations, aliases, listings, containers, C handles, whole pools built and destroyed -- can be repeated without end: once it "
    "has been done a few times, doing it again leaves the heap the process holds where it was, in user memory and in bookkeeping, "
    "because everything a deallocated block, a released pool, a removed entry or an exception held is given back.",
    ["histories", "fault_sequences", "inputs"],
    "every closed sequence of operations over every tree of strategies, including refused requests at any point",
    "Tests do each thing once and end; growth shows only over repetitions, and mostly on the paths of refused requests.",
    [S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", "src/umpire/util/AllocationMap.cpp", "src/umpire/util/MemoryMap.inl",
     "src/umpire/util/FixedMallocPool.cpp", "src/umpire/ResourceManager.cpp", "src/umpire/op/GenericReallocateOperation.cpp"],
    [("release of blocks and their records", S + "QuickPool.cpp"), ("removal of records", "src/umpire/util/AllocationMap.cpp")],
    "growth monitor: the sanitizer's count of live heap bytes read after each repetition of a closed workload with injected faults, " + SAN,
    "Exploration: thousands of closed workloads per run, each repeated 24 to 64 times under " + SAN + "; steady growth over ten repetitions is "
    "the alarm, so caches and arenas that fill once are not.",
    ["live heap bytes after each repetition"])
add("C28", "The end of the process is orderly",
    "When a process that used the library ends normally, whatever it made and whatever it forgot: every registered allocator is destroyed "
    "exactly once and before the one it takes memory from, so nothing is asked or given back after its owner's end and the process ends "
    "without fault; blocks are given back to the resource they came from, with the size they were taken with; where nothing is live any "
    "more every block a pool or strategy still cached is given back; and with logging on, each allocator that still has memory "
    "allocated is reported once with the right number of bytes and with the size and range of each forgotten allocation, while allocators "
    "with nothing left are not reported.",
    ["histories", "crash_points", "inputs"],
    "every tree of allocators, every history and every set of forgotten allocations at the end of the process, exit from any thread",
    "The destructors run after the last test has reported; their order and their log are seen by nobody.",
    ["src/umpire/ResourceManager.cpp", "src/umpire/ResourceManager.inl", S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp",
     S + "SlotPool.cpp", S + "MonotonicAllocationStrategy.cpp", "src/umpire/Umpire.cpp"],
    [("destruction in order, with report", "src/umpire/ResourceManager.cpp"), ("children registered in front", "src/umpire/ResourceManager.inl")],
    "trace checker: the log of recording resources, in memory that outlives the process, read by the parent up to the last destructor, "
    "plus the library's log file and the exit status, " + SAN,
    "Exploration: thousands of whole processes per run, each with its own tree of allocators and its own forgotten allocations.",
    ["resources' event log to the end of the process", "library log file", "exit status"])
add("C29", "Pools coalesce exactly when, and to what size, their heuristic says",
    "In every state a pool can reach, the ready-made heuristics answer as documented: blocks_releasable(n) says yes exactly when at least n "
    "blocks are wholly free, percent_releasable(p) exactly when the bytes in wholly free blocks are at least p percent of what the pool holds "
    "(0 never, 100 only when nothing is live), with the pool's actual size or, for the _hwm forms, its watermark of rounded sizes; a "
    "percentage outside 0 to 100 is refused. A pool, and the pool inside a mixed pool, asks the heuristic it was given at every deallocation "
    "and every coalesce call and at no other time; when the answer is 0 it does not go to its parent; otherwise, when it has two or more "
    "wholly free blocks, it gives them all back, takes at most one new block, of what is missing to the size answered, and ends with at most "
    "one wholly free block; a refusal by the parent is survived. Live allocations keep their place and bytes.",
    ["histories", "inputs"],
    "every heuristic and argument, every answer of a user's own heuristic, every history of the pool",
    "A heuristic is a function of the pool's whole state; tests ask it in a handful of states and never in the middle of a deallocation.",
    [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "DynamicSizePool.hpp", S + "MixedPool.cpp", S + "PoolCoalesceHeuristic.hpp"],
    [("ready-made heuristics", S + "QuickPool.cpp"), ("asking and obeying", S + "DynamicPoolList.cpp"), ("coalesce to a size", S + "DynamicSizePool.hpp")],
    "online monitor inside the heuristic callback: state of the pool derived from the parent's ledger and the live set, compared with every "
    "ready-made heuristic's answer and with what the pool then does, " + SAN,
    "Exploration: hundreds of thousands of questions per run, in states no test constructs; an answer within a millionth of the percentage limit is not judged.",
    ["heuristic calls", "parent's ledger", "live set and bytes"])

add("C30", "Allocators, resources and the process describe themselves truthfully",
    "Every allocator, however it is reached (as made, by name, by id, copied, or from a pointer into its memory), whatever it is stacked on "
    "and whatever happened before, gives the name, id, kind of strategy, parent and tracking it was made with, prints as them, and gives "
    "the platform, the traits and the accessibility of the resource at the bottom of its stack; it unwraps to its own kind of strategy and "
    "to no other; resource names, types and device numbers translate into each other and unknown ones are refused; a strategy or "
    "resource that cannot be made is not registered; the memory use the library reports for the process is what the system says.",
    ["histories", "inputs"],
    "every stack of strategies over every resource with any traits, tracked or not, and every way to reach an allocator",
    "Tests look at single layers; the answers are forwarded through every layer of every stack.",
    ["src/umpire/Allocator.cpp", S + "AllocationStrategy.cpp", "src/umpire/Umpire.cpp", "src/umpire/ResourceManager.cpp", "src/umpire/ResourceManager.inl",
     "src/umpire/resource/MemoryResourceTypes.hpp", "src/umpire/resource/MemoryResourceRegistry.cpp", "src/umpire/util/wrap_allocator.hpp"],
    [("self description", "src/umpire/Allocator.cpp"), ("resources", "src/umpire/ResourceManager.cpp"), ("memory use", "src/umpire/Umpire.cpp")],
    "online monitor: every answer of every allocator compared with a record kept by the workload and with /proc, " + SAN,
    "Exploration: random stacks over random resources; accessibility for host, file and no-op memory only, process figures to within 4 MB.",
    ["answers of every allocator", "registry", "/proc/self"])

add("C31", "The Fortran interface does what the C++ interface does",
    "Every procedure of the Fortran module (allocators by name, id and pointer, the strategies it can make, aliases, allocation, "
    "deallocation, reallocation, move, copy, memset, external registration, sizes, statistics, names, backtraces, versions, memory use, "
    "handles and their comparison) has the effect and the result of the C++ call it stands for; names given with trailing blanks are taken "
    "without them and names given back have their own length; an array of any supported type, rank and extents is allocated with exactly the "
    "bytes of its elements, associated, contiguous, indexed from one in Fortran's order and, once deallocated, returned to its allocator "
    "and not associated.",
    ["histories", "inputs"],
    "every sequence of calls through the module, every type, rank and extent of array, every name",
    "The Fortran tests allocate one array per type in one size and look at little of the result; they are not part of the default build.",
    ["src/umpire/interface/c_fortran/wrapfumpire.f", "src/umpire/interface/c_fortran/wrapAllocator.cpp",
     "src/umpire/interface/c_fortran/wrapResourceManager.cpp", "src/umpire/interface/c_fortran/wrapUmpire.cpp", "src/umpire/interface/c_fortran/utilUmpire.cpp"],
    [("Fortran module", "src/umpire/interface/c_fortran/wrapfumpire.f"), ("C entry points it calls", "src/umpire/interface/c_fortran/wrapResourceManager.cpp")],
    "online monitor: real Fortran code (gfortran, run-time checks on) driven by random call sequences, each result compared with C++ and a byte model, " + SAN,
    "Exploration: random call sequences; calls that C++ refuses are not made, since an exception cannot be caught in Fortran; no device in this build.",
    ["results of the Fortran procedures", "bytes of arrays", "C++ records and statistics"])


add("C32", "Call stacks tell who allocated and who erred",
    "In a build with backtraces and with UMPIRE_BACKTRACE=On, in either case of letters, every allocation record (of allocate, named "
    "allocate, reallocate, move or external registration, in every allocator) carries the call stack of the call that made it, unchanged "
    "by whatever happens later and found through any pointer into the allocation; get_backtrace, the printed records and the report of "
    "what a process forgot show that stack with all its frames in order and, with symbols, their names. When not asked for, none is kept or "
    "shown. Every error carries the stack of the wrong call in every build. Stacks deeper than what is kept lose only their outermost frames.",
    ["histories", "inputs", "configurations"],
    "every way to allocate or to err, from every call site at every depth, in builds with and without backtraces, asked for or not",
    "Tests only look for the word Backtrace in one message.",
    ["src/umpire/util/backtrace.inl", "src/umpire/util/backtrace.hpp", "src/umpire/util/error.hpp", "src/umpire/util/AllocationRecord.hpp",
     "src/umpire/util/AllocationMap.cpp", "src/umpire/ResourceManager.cpp", "src/umpire/Umpire.cpp", "src/umpire/util/Macros.hpp"],
    [("stacks", "src/umpire/util/backtrace.inl"), ("records", "src/umpire/ResourceManager.cpp"), ("errors", "src/umpire/util/error.hpp")],
    "online monitor: each recorded or printed stack compared with the one the call site took itself, in builds with and without backtraces, " + SAN,
    "Exploration: eight call sites, depths to 400, five strategies over HOST; call stacks as libgcc's unwinder sees them.",
    ["stacks in records", "printed stacks", "error texts", "log at exit"])


add("C33", "Operations go to the platforms' own, and only they touch a device",
    "In a world of several platforms, every copy, memset, move, reallocation and prefetch, with or without a resource to run on, is carried "
    "out by the operation registered under its name for exactly the platforms of its source and destination, in that order, called once, in "
    "the form asked for, with the addresses, offsets, lengths, values and records of the allocations concerned; an operation that has only a "
    "synchronous form is used in that form, one that lacks the form needed or is not registered is refused, and what was refused or failed "
    "changes nothing: no bytes, no statistics, no memory kept. Prefetching is for unified memory only and covers the rest of the allocation. "
    "Advisors and prefetchers apply their operation exactly once to all of the memory they hand out, for their device, and pass everything "
    "else through. Looking an operation up gives the one registered or an error. The library itself never reads or writes memory of a "
    "platform that is not the host.",
    ["histories", "inputs", "fault_sequences"],
    "every stack of strategies over every platform, every pair of platforms, any set of registered operations, and an operation that fails at any call",
    "The tests for devices need the device; those for the host see one platform and the operations of one pair.",
    ["src/umpire/op/MemoryOperationRegistry.cpp", "src/umpire/op/MemoryOperation.cpp", "src/umpire/op/GenericReallocateOperation.cpp", "src/umpire/ResourceManager.cpp",
     S + "AllocationAdvisor.cpp", S + "AllocationPrefetcher.cpp", "src/umpire/util/memory_sanitizers.hpp"],
    [("dispatch", "src/umpire/ResourceManager.cpp"), ("look-up", "src/umpire/op/MemoryOperationRegistry.cpp"), ("advice", S + "AllocationAdvisor.cpp"),
     ("fallback forms", "src/umpire/op/MemoryOperation.cpp")],
    "online monitor: recording operations for simulated devices whose addresses are mapped without access, so that every direct touch "
    "faults; each call compared with a table of what is registered and a byte-exact model, " + SAN,
    "Exploration: device back ends themselves (CUDA, HIP, SYCL) are not built here; their place is taken by recording operations. What is asked to copy nothing is not judged.",
    ["calls of operations and their arguments", "bytes on the devices", "statistics", "faults on device pages"])


PROPS.sort(key=lambda p: p["id"])
