"""What each property runs.  A job is one harness in one instrumentation flavour
with fixed options; `cases` are enumerated deterministically from the seed and
split over the workers; `cats` are the oracle categories that decide the
property (other categories are counted, not judged)."""

LEVEL = {"C06": "fault_enumeration"}


def J(name, harness, cases, flavour="asan", chunk=None, **kw):
    d = dict(name=name, harness=harness, flavour=flavour, cases=cases)
    if chunk:
        d["chunk"] = chunk
    opts = kw.pop("opts", None)
    if opts:
        d["opts"] = opts
    d.update(kw)
    return d


def scale(cats):
    """Sizes beyond 32 bits, and more live allocations than 16 bits count."""
    return [J("engine-vast", "h_engine", 900, chunk=20, opts={"mode": "vast"}, cats=cats),
            J("engine-crowd", "h_engine", 16, chunk=1, timeout=300, single=250, opts={"mode": "crowd"}, cats=cats)]


def engine(modes, cats, cases):
    return [J("engine-" + m, "h_engine", cases, chunk=20, opts={"mode": m}, cats=cats) for m in modes]


ENGINE_RULE = ("Each case generates a random tree of 1-4 real strategies over a recording, fault-injecting resource and runs a "
               "40-300 step random history of allocate/deallocate/release/coalesce with fill and drain phases; further cases use sizes beyond 2^32 bytes or more than 65536 live allocations; distinct = "
               "(strategy shape, mode, bucketed outcome) signatures.")

PLAN = {}


def P(pid, jobs, rule, **kw):
    PLAN[pid] = dict(jobs=jobs, rule=rule, **kw)


P("C01", engine(["general", "pool", "fault"], ["disjoint", "content", "conserve:inuse*"], 3000)
  + [J("engine-big", "h_engine", 48, chunk=2, timeout=300, opts={"mode": "big"}, cats=["disjoint", "content", "conserve:inuse*"])] + scale(["disjoint", "content", "conserve:inuse*"]), ENGINE_RULE)
P("C02", engine(["general", "pool"], ["align"], 4000) + scale(["align"]), ENGINE_RULE)
P("C04", engine(["general", "fault", "limit"], ["stats", "pool:*-actual*", "pool:*-aligned*"], 2500) + scale(["stats", "pool:*-actual*", "pool:*-aligned*"]), ENGINE_RULE)
P("C05", engine(["pool", "general", "fault"], ["pool", "conserve"], 3000)
  + [J("engine-big", "h_engine", 48, chunk=2, timeout=300, opts={"mode": "big"}, cats=["pool", "conserve"])] + scale(["pool", "conserve"]), ENGINE_RULE)
P("C06", engine(["fault", "limit"], ["fault", "conserve:destroy*", "conserve:root"], 4000) + scale(["fault", "conserve:destroy*", "conserve:root"]), ENGINE_RULE)
P("C07", engine(["limit", "general"], ["limit"], 4000) + scale(["limit"]), ENGINE_RULE)
P("C08", engine(["oversize"], ["oversize", "disjoint", "content"], 5000) + scale(["oversize", "disjoint", "content"]), ENGINE_RULE)
P("C23", engine(["pool"], ["coalesce", "reuse", "content", "conserve:inuse*", "pool:*-actual", "pool:*-total-blocks", "pool:*-rel*"], 5000) + scale(["coalesce", "reuse", "content", "conserve:inuse*", "pool:*-actual", "pool:*-total-blocks", "pool:*-rel*"]), ENGINE_RULE)

MAP_RULE = ("Each case drives the real container with 20-800 random operations over one of 9 key families (dense, strided, "
            "radix-splitting, one-bit/one-byte neighbours, top of the address space, ...) and compares every result with a plain "
            "ordered-map model; distinct = operation/key sequences.")
P("C14", [J("map", "h_map", 700, opts={"mode": "map"}, cats=["map"]),
          J("big", "h_map", 2, chunk=1, timeout=300, single=200, opts={"mode": "big"}, cats=["map"]),
          J("judy", "h_map", 900, opts={"mode": "judy"}, cats=["judy"]),
          J("alloc", "h_map", 900, opts={"mode": "alloc"}, cats=["amap"]),
          J("crowd", "h_map", 12, chunk=1, timeout=300, single=250, opts={"mode": "crowd"}, cats=["amap"]),
          J("held", "h_map", 300, opts={"mode": "leak", "of": "map"}, cats=["map", "amap"])], MAP_RULE)
P("C15", [J("pool", "h_map", 3000, opts={"mode": "pool"}, cats=["mpool"]),
          J("held", "h_map", 300, opts={"mode": "leak", "of": "pool"}, cats=["mpool"])], MAP_RULE)


def rmjobs(mode, cats, cases=2000):
    return [J("rm-" + mode, "h_rm", cases, chunk=25, opts={"mode": mode}, cats=cats)]


RM_RULE = ("Each case builds 3-5 real allocators over the host (pools, fixed, mixed, limited, aligned, thread-safe, named) plus "
           "externally registered memory and runs 60-250 random operations against a byte-exact model of every allocation; the vast cases copy, fill, reallocate and move more than 4 GiB; "
           "distinct = operation sequences.")
P("C03", rmjobs("intro", ["intro"]), RM_RULE)
P("C09", rmjobs("copy", ["copy"], 2500) + [J("vast", "h_vast", 32, chunk=1, timeout=300, single=250, opts={"mode": "copy"}, cats=["copy"])], RM_RULE)
P("C10", rmjobs("realloc", ["realloc"], 2500) + [J("refused", "h_file", 400, chunk=15, opts={"mode": "move"}, cats=["realloc"]),
                                                      J("shared", "h_shm", 600, chunk=20, opts={"mode": "ops"}, cats=["realloc"]),
                                                      J("vast", "h_vast", 20, chunk=1, timeout=300, single=250, opts={"mode": "realloc"}, cats=["realloc"])], RM_RULE)
P("C11", rmjobs("bad", ["bad"], 2500), RM_RULE)
P("C18", rmjobs("zero", ["zero"], 1600), RM_RULE)
P("C24", rmjobs("records", ["records"], 1800), RM_RULE)
P("C12", [J("registry", "h_reg", 1500, chunk=20, opts={"mode": "registry"}, cats=["reg"]),
          J("crowd", "h_reg", 2, chunk=1, timeout=300, single=250, opts={"mode": "crowd"}, cats=["reg"])],
  "Each case performs 40-200 random registrations, aliases, alias removals, lookups and listings against a name/id model; distinct = operation sequences.")
P("C25", [J("typed", "h_reg", 3000, chunk=25, opts={"mode": "typed"}, cats=["typed"])],
  "Each case runs random operations on standard containers over typed allocators against the same containers with std::allocator; distinct = operation sequences.")
P("C17", [J("buffer", "h_io", 12000, chunk=250, opts={"mode": "buffer"}, cats=["buf"]),
          J("logger", "h_io", 3000, chunk=100, opts={"mode": "logger"}, cats=["log"]),
          J("errors", "h_io", 1500, chunk=25, opts={"mode": "errors"}, cats=["err"]),
          J("files", "h_io", 1000, chunk=20, opts={"mode": "files"}, cats=["name", "bits"]),
          J("env", "h_io", 1500, chunk=10, opts={"mode": "env"}, cats=["env", "io", "proc"])],
  "Each case drives the real buffers, logger, error types and log files with random bytes, levels, environments and failing "
  "destinations and compares every byte that arrived with a model; distinct = operation sequences.")

P("C13", [J("share", "h_thread", 1600, flavour="tsan", chunk=10, opts={"mode": "share"}, cats=["race"]),
          J("map", "h_thread", 800, flavour="tsan", chunk=10, opts={"mode": "map"}, cats=["race"]),
          J("create", "h_thread", 240, flavour="tsan", chunk=10, opts={"mode": "create"}, cats=["race"]),
          J("claims", "h_thread", 2000, chunk=20, opts={"mode": "share", "claims": "1"}, cats=["race"]),
          J("claims-map", "h_thread", 1200, chunk=20, opts={"mode": "map"}, cats=["race"])],
  "Each case lets 2-8 threads work on shared thread-safe allocators, the pointer map or the registry with random delays, hand-overs "
  "between threads and refused requests; distinct = the order in which threads reached the resource.")
P("C16", [J("log", "h_events", 4000, chunk=20, opts={"mode": "log"}, cats=["event"]),
          J("store", "h_events", 10000, chunk=100, opts={"mode": "store"}, cats=["event"]),
          J("off", "h_events", 80, chunk=5, opts={"mode": "off"}, cats=["event"])],
  "Each case runs 20-120 random operations with recording on and compares every new line of the log with the operations performed, "
  "or records random events and reads them back; distinct = operation sequences.")
P("C21", [J("c", "h_c", 10000, chunk=25, cats=["capi"])],
  "Each case makes 1-6 allocators and runs 30-150 random calls through the C and Fortran entry points, comparing every result with "
  "the C++ interface and a byte-exact model; distinct = call sequences.")
P("C31", [J("fort", "h_fort", 6000, chunk=25, cats=["fort"])],
  "Each case makes 1-6 allocators and runs 30-150 random calls through the type-bound procedures of the Fortran module, typed arrays of "
  "all ranks among them, comparing every result with the C++ interface and a byte-exact model; distinct = call sequences.")
P("C32", [J("on", "h_bt", 1200, flavour="bt", chunk=20, env={"UMPIRE_BACKTRACE": "On"}, cats=["bt"]),
          J("lower", "h_bt", 200, flavour="bt", chunk=20, env={"UMPIRE_BACKTRACE": "on"}, cats=["bt"]),
          J("off", "h_bt", 300, flavour="bt", chunk=20, env={"UMPIRE_BACKTRACE": "Off"}, cats=["bt"]),
          J("unset", "h_bt", 300, flavour="bt", chunk=20, cats=["bt"]),
          J("exit", "h_bt", 300, flavour="bt", chunk=20, opts={"mode": "exit"}, env={"UMPIRE_BACKTRACE": "ON"}, cats=["bt"]),
          J("plain", "h_bt", 300, chunk=20, env={"UMPIRE_BACKTRACE": "On"}, cats=["bt"])],
  "Each case runs 20-90 random calls from eight call sites at depths up to 400 and compares the stack kept or printed for every one with "
  "the stack the site itself took; distinct = call sequences.")
P("C22", [J("poison", "h_poison", 12000, flavour="pasan", chunk=25, cats=["poison"])],
  "Each case builds 1-3 real strategies over a resource that reuses its addresses, runs 20-120 random operations and reads the "
  "sanitizer's shadow of every byte held after each; distinct = operation sequences.")
P("C19", [J("serial", "h_shm", 900, chunk=10, opts={"mode": "serial"}, cats=["shm"]),
          J("race", "h_shm", 600, chunk=10, opts={"mode": "race"}, cats=["shm"]),
          J("life", "h_shm", 400, chunk=20, opts={"mode": "life"}, cats=["shm"])],
  "Each case forks 1-7 processes that create or attach one segment at the same moment and then run 30-250 random operations on it, "
  "commanded one at a time by a model or all at once under a claims board in memory of its own; distinct = operation sequences.")
P("C20", [J("direct", "h_file", 1200, chunk=15, opts={"mode": "direct"}, cats=["file"]),
          J("alloc", "h_file", 800, chunk=10, opts={"mode": "alloc"}, cats=["file"])],
  "Each case runs 10-60 random operations on 1-3 file resources over four directories and after each compares the files, mappings "
  "and descriptors that exist with those the live allocations need; distinct = operation sequences.")
P("C26", [J("replay", "h_replay", 480, chunk=6, cats=["replay"])],
  "Each case records a random session of 5-120 operations, replays it with the real tool up to six times with different options while "
  "recording again, compares the logs operation by operation, and asks replaydiff about equal and unequal pairs; distinct = recorded sessions.")
P("C27", [J("world", "h_leak", 2000, chunk=25, opts={"mode": "world"}, cats=["leak"]),
          J("build", "h_leak", 1200, chunk=25, opts={"mode": "build"}, cats=["leak"]),
          J("mass", "h_leak", 20, chunk=1, timeout=300, single=250, opts={"mode": "mass"}, cats=["leak"])],
  "Each case prepares a closed piece of 3-60 steps (allocations, refusals, reallocations, moves, aliases, registrations, containers, "
  "C handles, listings, whole pools built and destroyed), repeats it 24-64 times and reads the sanitizer's count of live heap bytes "
  "after each repetition; distinct = step sequences.")
P("C28", [J("exit", "h_exit", 4000, chunk=40, cats=["exit"])],
  "Each case is a process of its own that makes 1-3 recording resources and 1-9 allocators over them, works 0-80 steps, forgets nothing, "
  "something or everything and ends; the resources' log reaches to the end of the process; distinct = (allocators made, what was forgotten).")
P("C29", [J("heur", "h_heur", 8000, chunk=50, cats=["heur"])],
  "Each case gives a pool one of the ready-made heuristics, one of its own or none and runs 40-160 random operations; at every "
  "question the ready-made heuristics are asked too and compared with the blocks the parent lent; distinct = (heuristic, answer, free "
  "blocks, blocks) states.")
P("C30", [J("self", "h_self", 3000, chunk=20, cats=["self"])],
  "Each case makes 1-8 allocators of any kind, tracked or not, over host resources with random traits and over files, works with them "
  "and asks each, reached in five ways, what it is; distinct = (strategy, parent, resource, tracking) pairs.")
P("C33", [J("ops", "h_ops", 9000, chunk=50, cats=["ops"]),
          J("poisoning", "h_ops", 1500, flavour="pasan", chunk=50, cats=["ops"])],
  "Each case makes 1-4 simulated devices of four platforms and 1-8 strategies over them and the host, runs 30-120 random operations, one in "
  "ten of which fails inside, and compares every call that reaches an operation with the table of what is registered; distinct = "
  "(operation, kind registered, form, platforms, outcome).")
