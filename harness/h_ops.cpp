// Operations on memory of several platforms.  The "devices" are resources whose
// addresses cannot be touched from the host at all: every device address is
// mapped PROT_NONE, and only the operations registered by this harness reach
// the bytes behind it, through a second mapping of the same pages.  What the
// library asks of which operation, and what it touches itself, is observed.
#include <sys/mman.h>

#include "camp/resource.hpp"
#include "umpire/interface/c_fortran/umpire.h"
#include "umpire/op/GenericReallocateOperation.hpp"
#include "umpire/op/MemoryOperation.hpp"
#include "umpire/op/MemoryOperationRegistry.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/util/AllocationRecord.hpp"
#include "world.hpp"
using namespace world;
using umpire::Allocator;
using umpire::util::AllocationRecord;
using umpire::op::MemoryOperation;
using umpire::op::MemoryOperationRegistry;
using Event = camp::resources::EventProxy<camp::resources::Resource>;
using Ctx = camp::resources::Resource;

namespace {

umpire::ResourceManager& rm() { return umpire::ResourceManager::getInstance(); }

// ------------------------------------------------------------ device memory
const size_t kArena = size_t(1) << 26;
char* g_dev;    // PROT_NONE
char* g_view;   // the same pages
bool on_device(const void* p) { return static_cast<const char*>(p) >= g_dev && static_cast<const char*>(p) < g_dev + kArena; }
// where the bytes of an address can be reached from this harness
char* reach(const void* p)
{
  if (on_device(p)) return g_view + (static_cast<const char*>(p) - g_dev);
  return const_cast<char*>(static_cast<const char*>(p));
}
size_t g_top{0};
std::map<size_t, std::vector<size_t>> g_free;   // by size
void* dev_take(size_t n)
{
  size_t s = 64;
  while (s < n + 32) s *= 2;
  size_t off;
  auto& f = g_free[s];
  if (!f.empty()) { off = f.back(); f.pop_back(); }
  else {
    if (g_top + s > kArena) UMPIRE_ERROR(umpire::out_of_memory_error, "the device is full");
    off = g_top;
    g_top += s;
  }
  std::memset(g_view + off, 0xE5, std::min<size_t>(s, 65536));
  return g_dev + off;
}
void dev_give(void* p, size_t n)
{
  size_t s = 64;
  while (s < n + 32) s *= 2;
  g_free[s].push_back(size_t(static_cast<char*>(p) - g_dev));
}

class Dev : public AllocationStrategy {
 public:
  Dev(const std::string& n, int id, Platform p, umpire::MemoryResourceTraits t) : AllocationStrategy{n, id, nullptr, "Dev"}, plat(p), traits(t) {}
  ~Dev()
  {
    for (auto& h : held) dev_give(reinterpret_cast<void*>(h.first), h.second);
  }
  Dev(const std::string& n, int id, int p) : AllocationStrategy{n, id, nullptr, "Dev"}, plat(Platform(p))
  {
    traits.id = 0;
    traits.resource = umpire::MemoryResourceTraits::resource_type::um;
  }
  Platform getPlatform() noexcept override { return plat; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return traits; }
  Platform plat;
  umpire::MemoryResourceTraits traits;
  std::map<std::uintptr_t, size_t> held;

 private:
  void* allocate(size_t n) override
  {
    void* p = dev_take(n);
    held[reinterpret_cast<std::uintptr_t>(p)] = n;
    return p;
  }
  void deallocate(void* p, size_t n) override
  {
    auto it = held.find(reinterpret_cast<std::uintptr_t>(p));
    VH_FLAG(it != held.end() && it->second == n, "ops:parent", n << " bytes given back to the device at " << p << " were not taken like that");
    if (it == held.end()) return;
    dev_give(p, it->second);
    held.erase(it);
  }
};

// ------------------------------------------------------------ operations
struct Call {
  const void* op;
  char form;                 // T transform, t transform_async, A apply, a apply_async
  const void *src, *dst;
  bool has_src{false}, has_dst{false};
  AllocationRecord srec{nullptr, 0, nullptr, ""}, drec{nullptr, 0, nullptr, ""};
  int val;
  size_t len;
};
std::vector<Call> g_log;
struct Fault { int in{-1}; int kind{0}; bool hit{false}; } g_fault;
struct Boom { int k; };
void maybe_fail()
{
  if (g_fault.in < 0) return;
  if (g_fault.in-- > 0) return;
  g_fault.hit = true;
  switch (g_fault.kind) {
    case 0: UMPIRE_ERROR(umpire::runtime_error, "the device refuses");
    case 1: throw std::bad_alloc();
    default: throw Boom{7};
  }
}
void note(const void* op, char form, const void* s, const void* d, AllocationRecord* sr, AllocationRecord* dr, int v, size_t n)
{
  Call c;
  c.op = op; c.form = form; c.src = s; c.dst = d; c.val = v; c.len = n;
  if (sr) { c.has_src = true; c.srec = AllocationRecord{sr->ptr, sr->size, sr->strategy, sr->name}; }
  if (dr) { c.has_dst = true; c.drec = AllocationRecord{dr->ptr, dr->size, dr->strategy, dr->name}; }
  g_log.push_back(c);
}

// What the recorded operation does: copies or sets bytes where only it can.
enum Does { COPY_, SET_, REALLOC_, MARK_ };
struct Rec : MemoryOperation {
  Does does;
  explicit Rec(Does d) : does(d) {}
  void work(char form, void* s, void** d, AllocationRecord* sr, AllocationRecord* dr, size_t n)
  {
    note(this, form, s, *d, sr, dr, 0, n);
    maybe_fail();
    if (does == COPY_) std::memmove(reach(*d), reach(s), n);
    else if (does == REALLOC_) {
      Allocator a = AllocatorTest::wrap(dr->strategy);
      void* q = a.allocate(n);
      std::memmove(reach(q), reach(s), std::min(n, sr->size));
      a.deallocate(s);
      *d = q;
    }
  }
  void mark(char form, void* p, AllocationRecord* r, int v, size_t n)
  {
    note(this, form, p, nullptr, r, nullptr, v, n);
    maybe_fail();
    if (does == SET_) std::memset(reach(p), v, n);
  }
};
// both forms
struct Both : Rec {
  using Rec::Rec;
  void transform(void* s, void** d, AllocationRecord* sr, AllocationRecord* dr, size_t n) override { work('T', s, d, sr, dr, n); }
  Event transform_async(void* s, void** d, AllocationRecord* sr, AllocationRecord* dr, size_t n, Ctx& c) override { work('t', s, d, sr, dr, n); return Event{c}; }
  void apply(void* p, AllocationRecord* r, int v, size_t n) override { mark('A', p, r, v, n); }
  Event apply_async(void* p, AllocationRecord* r, int v, size_t n, Ctx& c) override { mark('a', p, r, v, n); return Event{c}; }
};
// only the synchronous forms: the base class does the others
struct Sync : Rec {
  using Rec::Rec;
  void transform(void* s, void** d, AllocationRecord* sr, AllocationRecord* dr, size_t n) override { work('T', s, d, sr, dr, n); }
  void apply(void* p, AllocationRecord* r, int v, size_t n) override { mark('A', p, r, v, n); }
};
struct Async : Rec {
  using Rec::Rec;
  Event transform_async(void* s, void** d, AllocationRecord* sr, AllocationRecord* dr, size_t n, Ctx& c) override { work('t', s, d, sr, dr, n); return Event{c}; }
  Event apply_async(void* p, AllocationRecord* r, int v, size_t n, Ctx& c) override { mark('a', p, r, v, n); return Event{c}; }
};
struct Bare : MemoryOperation {};

enum Kind { NONE, BOTH, SYNC, ASYNC, BARE, GENERIC, HOSTOP };
const char* const kname[] = {"none", "both", "sync", "async", "bare", "generic", "host"};
struct Entry { Kind kind{NONE}; std::shared_ptr<MemoryOperation> op; };
using PP = std::pair<Platform, Platform>;
std::map<std::string, std::map<PP, Entry>> g_table;   // what is registered, as far as it differs from the library's own
const Platform H = Platform::host, C = Platform::cuda, P_ = Platform::hip, O = Platform::omp_target, S = Platform::sycl, U = Platform::undefined;
const Platform all_platforms[] = {H, C, P_, O, S, U};

void reg(const std::string& name, Platform a, Platform b, Kind k, Does d)
{
  Entry e;
  e.kind = k;
  switch (k) {
    case BOTH: e.op = std::make_shared<Both>(d); break;
    case SYNC: e.op = std::make_shared<Sync>(d); break;
    case ASYNC: e.op = std::make_shared<Async>(d); break;
    case BARE: e.op = std::make_shared<Bare>(); break;
    case GENERIC: e.op = std::make_shared<umpire::op::GenericReallocateOperation>(); break;
    default: break;
  }
  auto give = e.op;
  MemoryOperationRegistry::getInstance().registerOperation(name, PP{a, b}, std::move(give));
  g_table[name][PP{a, b}] = e;
}

std::vector<Allocator> g_base;   // registered device allocators, for the C interface
std::vector<Dev*> g_based;

void init()
{
  static bool done = false;
  if (done) return;
  done = true;
  int fd = ::memfd_create("verif-ops", 0);
  if (fd < 0 || ::ftruncate(fd, off_t(kArena)) != 0) { std::perror("memfd"); ::_exit(3); }
  g_dev = static_cast<char*>(::mmap(nullptr, kArena, PROT_NONE, MAP_SHARED, fd, 0));
  g_view = static_cast<char*>(::mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  ::close(fd);
  // the table: asymmetric on purpose
  reg("COPY", H, C, BOTH, COPY_);  reg("COPY", C, H, BOTH, COPY_);   reg("COPY", C, C, BOTH, COPY_);
  reg("COPY", H, P_, SYNC, COPY_); reg("COPY", P_, H, BOTH, COPY_);  reg("COPY", P_, P_, SYNC, COPY_);
  reg("COPY", P_, C, BOTH, COPY_);                                   // but not from C to P_
  reg("COPY", H, O, BOTH, COPY_);  reg("COPY", O, H, BARE, COPY_);   reg("COPY", O, O, ASYNC, COPY_);
  reg("COPY", S, O, BOTH, COPY_);                                    // S only sends to O
  reg("MEMSET", C, C, BOTH, SET_); reg("MEMSET", P_, P_, SYNC, SET_); reg("MEMSET", S, S, ASYNC, SET_);
  reg("MEMSET", H, C, BOTH, SET_);                                   // meaningless: must never be used
  reg("REALLOCATE", C, C, GENERIC, REALLOC_); reg("REALLOCATE", P_, P_, BOTH, REALLOC_);
  reg("REALLOCATE", S, S, GENERIC, REALLOC_); reg("REALLOCATE", O, O, SYNC, REALLOC_);
  reg("PREFETCH", C, C, BOTH, MARK_); reg("PREFETCH", P_, P_, SYNC, MARK_); reg("PREFETCH", O, O, BOTH, MARK_);
  reg("SET_READ_MOSTLY", C, C, BOTH, MARK_); reg("UNSET_READ_MOSTLY", C, C, BOTH, MARK_); reg("SET_ACCESSED_BY", C, C, BOTH, MARK_);
  reg("SET_READ_MOSTLY", P_, P_, SYNC, MARK_); reg("SET_COARSE_GRAIN", P_, P_, BOTH, MARK_);
  reg("SET_PREFERRED_LOCATION", H, H, BOTH, MARK_); reg("SET_PREFERRED_LOCATION", C, C, BOTH, MARK_);
  reg("SET_ACCESSED_BY", C, H, BOTH, MARK_);                         // never to be used by an advisor over C
  g_table["COPY"][PP{H, H}].kind = HOSTOP;
  g_table["MEMSET"][PP{H, H}].kind = HOSTOP;
  g_table["REALLOCATE"][PP{H, H}].kind = HOSTOP;
  for (auto p : {C, P_}) {
    Allocator a = rm().makeAllocator<Dev>(std::string("opsdev") + (p == C ? "c" : "p"), int(p));
    g_base.push_back(a);
    g_based.push_back(dynamic_cast<Dev*>(a.getAllocationStrategy()));
  }
}
Entry entry(const std::string& n, Platform a, Platform b)
{
  auto i = g_table.find(n);
  if (i == g_table.end()) return {};
  auto j = i->second.find(PP{a, b});
  return j == i->second.end() ? Entry{} : j->second;
}

// passes everything on, remembering it: sits under every advisor and prefetcher
class Probe : public AllocationStrategy {
 public:
  Probe(const std::string& n, int id, AllocationStrategy* p) : AllocationStrategy{n, id, p, "Probe"}, below(p) {}
  Platform getPlatform() noexcept override { return below->getPlatform(); }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return below->getTraits(); }
  AllocationStrategy* below;
  std::vector<std::pair<void*, size_t>> took;      // since last looked at
  std::map<void*, size_t> held;

 private:
  void* allocate(size_t n) override
  {
    void* p = below->allocate_internal(n);
    took.push_back({p, n});
    held[p] = n;
    return p;
  }
  void deallocate(void* p, size_t n) override
  {
    auto it = held.find(p);
    VH_FLAG(it != held.end() && it->second == n, "ops:passed", "an advisor or prefetcher gives back " << n << " bytes at " << p << ", which it did not take like that");
    if (it != held.end()) held.erase(it);
    below->deallocate_internal(p, n);
  }
};

struct Watch { Probe* probe; const void* op; int device; std::string what; AllocationStrategy* s; };
struct Node { AllocationStrategy* s; Platform plat; bool um; std::string what; std::vector<size_t> watches; Allocator a; size_t live{0}, bytes{0}; size_t fixed{0}; std::vector<Probe*> above; };
struct Live { size_t node; size_t n; std::vector<unsigned char> data; };

struct Run {
  vh::Rng& r;
  std::vector<std::unique_ptr<AllocationStrategy>> own;   // destroyed last made first
  std::vector<Dev*> devs;
  std::vector<Watch> watches;
  std::vector<Node> nodes;
  std::map<std::uintptr_t, Live> live;
  int ids{7000};
  Ctx ctx{camp::resources::Host{}};
  unsigned char pat{1};

  explicit Run(vh::Rng& g) : r(g) {}
  ~Run()
  {
    // normally empty: after a violation the process ends
    while (!own.empty()) own.pop_back();
  }

  std::string nm(const char* b) { return std::string(b) + std::to_string(++ids); }

  void add_node(AllocationStrategy* s, Platform p, bool um, const std::string& what, std::vector<size_t> w, size_t fixed = 0)
  {
    nodes.push_back(Node{s, p, um, what, std::move(w), AllocatorTest::wrap(s), 0, 0, fixed, {}});
  }

  // an advisor or prefetcher over node k, refused where there is no operation
  void advise(size_t k)
  {
    Node base = nodes[k];
    if (base.fixed) return;
    bool pre = r.chance(1, 3);
    static const char* names[] = {"SET_READ_MOSTLY", "UNSET_READ_MOSTLY", "SET_ACCESSED_BY", "SET_PREFERRED_LOCATION", "SET_COARSE_GRAIN", "PREFETCH", "NO_SUCH_ADVICE", ""};
    std::string on = pre ? "PREFETCH" : names[r.below(8)];
    Entry e = entry(on, base.plat, base.plat);
    int dev = r.chance(1, 3) ? 0 : int(r.below(64)) - 8;
    bool with_dev = r.chance(3, 4);
    if (!with_dev) dev = 0;
    std::unique_ptr<Probe> pr(new Probe(nm("probe"), ids, base.s));
    Allocator pa = AllocatorTest::wrap(pr.get());
    std::unique_ptr<AllocationStrategy> st;
    bool refused = false;
    bool acc = r.chance(1, 3);
    Allocator other = nodes[r.below(nodes.size())].a;
    try {
      std::string n = nm(pre ? "prefetcher" : "advisor");
      if (pre) st.reset(with_dev ? new umpire::strategy::AllocationPrefetcher(n, ids, pa, dev) : new umpire::strategy::AllocationPrefetcher(n, ids, pa));
      else if (acc) st.reset(with_dev ? new umpire::strategy::AllocationAdvisor(n, ids, pa, on, other, dev) : new umpire::strategy::AllocationAdvisor(n, ids, pa, on, other));
      else st.reset(with_dev ? new umpire::strategy::AllocationAdvisor(n, ids, pa, on, dev) : new umpire::strategy::AllocationAdvisor(n, ids, pa, on));
    } catch (const umpire::runtime_error&) { refused = true; }
    vh::tr("%s %s over %s device %d -> %s", pre ? "prefetcher" : "advisor", on.c_str(), base.what.c_str(), dev, refused ? "refused" : "made");
    VH_CHECK(refused == (e.kind == NONE), "ops:advisor", (pre ? "prefetcher" : "advisor") << " with operation \"" << on << "\" over " << base.what << (refused ? " was refused although the operation exists" : " was made although there is no such operation"));
    VH_CHECK(g_log.empty() && pr->took.empty(), "ops:advisor", "making an advisor applied an operation or took memory");
    vh::step("advise", refused, e.kind);
    if (refused) return;
    VH_CHECK(st->getPlatform() == base.plat, "ops:platform", "an advisor or prefetcher over " << base.what << " has another platform");
    VH_CHECK(st->getTraits().resource == base.s->getTraits().resource && st->getTraits().size == base.s->getTraits().size, "ops:platform", "an advisor or prefetcher over " << base.what << " has other traits");
    watches.push_back(Watch{pr.get(), e.op.get(), dev, (pre ? "Prefetcher<" : "Advisor<") + on + ">", st.get()});
    auto w = base.watches;
    w.push_back(watches.size() - 1);
    std::string what = watches.back().what + "/" + base.what;
    nodes[k].above.push_back(pr.get());
    own.push_back(std::move(pr));
    AllocationStrategy* raw = st.get();
    own.push_back(std::move(st));
    add_node(raw, base.plat, base.um, what, w);
    if (r.chance(1, 2)) wrap(nodes.size() - 1);
  }

  void wrap(size_t k)
  {
    Node base = nodes[k];
    if (base.fixed) return;
    std::unique_ptr<AllocationStrategy> st;
    std::string what;
    size_t fixed = 0;
    own.emplace_back(new Probe(nm("probe"), ids, base.s));
    auto pr = static_cast<Probe*>(own.back().get());
    nodes[k].above.push_back(pr);
    base.a = AllocatorTest::wrap(pr);
    switch (r.below(7)) {
      case 0: st.reset(new umpire::strategy::QuickPool(nm("qp"), ids, base.a, r.range(64, 4096), r.range(64, 2048))); what = "QuickPool"; break;
      case 1: st.reset(new umpire::strategy::DynamicPoolList(nm("dp"), ids, base.a, r.range(64, 4096), r.range(64, 2048))); what = "DynamicPoolList"; break;
      case 2: st.reset(new umpire::strategy::NamedAllocationStrategy(nm("nas"), ids, base.a)); what = "Named"; break;
      case 3: st.reset(new umpire::strategy::SizeLimiter(nm("sl"), ids, base.a, size_t(1) << 24)); what = "SizeLimiter"; break;
      case 4: st.reset(new umpire::strategy::ThreadSafeAllocator(nm("ts"), ids, base.a)); what = "ThreadSafe"; break;
      case 5: fixed = r.range(1, 300); st.reset(new umpire::strategy::FixedPool(nm("fp"), ids, base.a, fixed, r.range(1, 40))); what = "FixedPool"; break;
      default: st.reset(new umpire::strategy::MixedPool(nm("mp"), ids, base.a, 8, 256, 4096, 4, 4096, 1024)); what = "MixedPool"; break;
    }
    vh::tr("%s over %s", what.c_str(), base.what.c_str());
    VH_CHECK(st->getPlatform() == base.plat, "ops:platform", what << " over " << base.what << " has another platform");
    AllocationStrategy* raw = st.get();
    own.push_back(std::move(st));
    judge_advice("making a " + what, base.watches);
    add_node(raw, base.plat, base.um, what + "/" + base.what, base.watches, fixed);
  }

  // Everything the advisors' operations were asked for in this step is exactly what passed below them.
  // Removes those calls from the log.
  void judge_advice(const std::string& where, const std::vector<size_t>&)
  {
    vh::check_flags();
    for (auto& w : watches) {
      for (auto& t : w.probe->took) {
        size_t hits = 0;
        for (size_t i = 0; i < g_log.size();) {
          auto& c = g_log[i];
          if (c.op == w.op && c.src == t.first && c.len == t.second && c.val == w.device && (c.form == 'A')) {
            ++hits;
            g_log.erase(g_log.begin() + long(i));
            vh::count("advice");
            break;
          }
          ++i;
        }
        VH_CHECK(hits == 1, "ops:advice", "in " << where << ": " << w.what << " (device " << w.device << ") took " << t.second << " bytes at " << t.first << " and did not apply its operation to them; calls left: " << show());
      }
      w.probe->took.clear();
    }
  }
  std::string show()
  {
    std::ostringstream o;
    for (auto& c : g_log) o << "[" << c.form << " op " << c.op << " src " << c.src << " dst " << c.dst << " val " << c.val << " len " << c.len << "]";
    return g_log.empty() ? "none" : o.str();
  }

  std::vector<unsigned char> bytes(const void* p, size_t n)
  {
    auto q = reinterpret_cast<unsigned char*>(reach(p));
    return std::vector<unsigned char>(q, q + n);
  }
  void intact(const char* where)
  {
    for (auto& l : live)
      VH_CHECK(l.second.n == 0 || std::memcmp(reach(reinterpret_cast<void*>(l.first)), l.second.data.data(), l.second.n) == 0, "ops:bytes",
               "after " << where << " the bytes of an allocation of " << l.second.n << " from " << nodes[l.second.node].what << " are not what the operations made them");
#ifdef VH_ASAN
    VH_CHECK(g_top == 0 || !__asan_region_is_poisoned(g_dev, g_top), "ops:shadow", "after " << where << " memory of a device is marked in the host's shadow");
#endif
    for (auto& n : nodes) {
      size_t b = n.bytes, c = n.live;
      for (auto p : n.above) for (auto& h : p->held) { b += h.second; ++c; }
      VH_CHECK(n.s->getCurrentSize() == b, "ops:stats", "after " << where << ": " << n.what << " reports " << n.s->getCurrentSize() << " bytes in use, " << b << " are");
      VH_CHECK(n.s->getAllocationCount() == c, "ops:stats", "after " << where << ": " << n.what << " reports " << n.s->getAllocationCount() << " allocations, there are " << c);
    }
  }
  void born(void* p, size_t n, size_t node, bool fill)
  {
    VH_CHECK(n == 0 || nodes[node].plat == H || on_device(p), "ops:where", "memory of " << nodes[node].what << " is not on its device");
    Live l{node, n, {}};
    if (fill) {
      for (size_t i = 0; i < n; ++i) reach(p)[i] = char(pat = (unsigned char)(pat * 5 + 3));
    }
    l.data = bytes(p, n);
    live[reinterpret_cast<std::uintptr_t>(p)] = l;
    nodes[node].live++;
    nodes[node].bytes += n;
  }
  void died(void* p)
  {
    auto it = live.find(reinterpret_cast<std::uintptr_t>(p));
    nodes[it->second.node].live--;
    nodes[it->second.node].bytes -= it->second.n;
    live.erase(it);
  }
  size_t size_for(size_t k)
  {
    if (nodes[k].fixed) return nodes[k].fixed;
    return r.chance(1, 12) ? 0 : r.chance(1, 50) ? r.range(2000, 100000) : r.range(1, r.chance(1, 3) ? 2000 : 200);
  }
  // an error a call ended with
  enum Err { OK, RUNTIME, BADALLOC, BOOM, OTHER };
  template <typename F> Err attempt(F f)
  {
    try { f(); return OK; }
    catch (const vh::Violation&) { throw; }
    catch (const umpire::runtime_error&) { return RUNTIME; }
    catch (const std::bad_alloc&) { return BADALLOC; }
    catch (const Boom& b) { return b.k == 7 ? BOOM : OTHER; }
    catch (...) { return OTHER; }
  }
  Err injected() const { return g_fault.kind == 0 ? RUNTIME : g_fault.kind == 1 ? BADALLOC : BOOM; }
  void arm(int in)
  {
    g_fault = Fault{};
    g_fault.in = in;
    g_fault.kind = int(r.below(3));
  }
  void disarm() { g_fault.in = -1; g_fault.hit = false; }

  void alloc()
  {
    size_t k = r.below(nodes.size());
    size_t n = size_for(k);
    bool f = r.chance(1, 10);
    if (f) arm(int(r.below(2)));
    std::vector<size_t> heldb;
    for (auto& w : watches) heldb.push_back(w.probe->held.size());
    void* p = nullptr;
    Err e = attempt([&] { p = r.chance(1, 4) ? nodes[k].a.allocate("named", n) : nodes[k].a.allocate(n); });
    bool hit = g_fault.hit;
    disarm();
    vh::tr("allocate %zu from %s%s", n, nodes[k].what.c_str(), hit ? " (operation fails)" : "");
    vh::step("alloc", k, hit);
    bool pool = nodes[k].what.find("Pool") != std::string::npos;
    if (hit && pool && e == OK) hit = false;   // a pool may ask its parent again
    if (hit) {
      // the advice failed: the caller is told, and nothing is kept that nobody can give back
      vh::count("failed advice");
      VH_CHECK(e == injected(), "ops:error", "allocating from " << nodes[k].what << ": an operation failed, and the call " << (e == OK ? "did not fail" : "failed with another error"));
      for (size_t i = 0; i < watches.size(); ++i)
        VH_CHECK(pool || watches[i].probe->held.size() == heldb[i], "ops:kept", "allocating from " << nodes[k].what << " failed, but " << watches[i].what << " keeps memory of its parent");
      for (auto& w : watches) w.probe->took.clear();
      g_log.clear();
      return;
    }
    VH_CHECK(e == OK, "ops:error", "allocating " << n << " bytes from " << nodes[k].what << " failed");
    judge_advice("allocate", {});
    VH_CHECK(g_log.empty(), "ops:extra", "allocating from " << nodes[k].what << " called operations nobody asked for: " << show());
    born(p, n, k, true);
  }
  void dealloc()
  {
    if (live.empty()) return;
    auto it = live.begin();
    std::advance(it, long(r.below(live.size())));
    void* p = reinterpret_cast<void*>(it->first);
    size_t k = it->second.node;
    if (r.chance(1, 2)) rm().deallocate(p); else nodes[k].a.deallocate(p);
    vh::tr("deallocate %zu of %s", it->second.n, nodes[k].what.c_str());
    vh::step("dealloc", k);
    died(p);
    judge_advice("deallocate", {});
    VH_CHECK(g_log.empty(), "ops:extra", "deallocating to " << nodes[k].what << " called operations nobody asked for: " << show());
  }
  std::map<std::uintptr_t, Live>::iterator any()
  {
    auto it = live.begin();
    std::advance(it, long(r.below(live.size())));
    return it;
  }
  static char formed(Kind k, bool async)
  {
    if (k == BOTH) return async ? 't' : 'T';
    if (k == SYNC) return 'T';
    if (k == ASYNC) return async ? 't' : 0;   // 0: the base class refuses
    return 0;
  }
  void rec(const AllocationRecord& got, void* base, const Live& l, const char* which)
  {
    VH_CHECK(got.ptr == base && got.size == l.n && got.strategy == nodes[l.node].s, "ops:record",
             "the operation was given a record of the " << which << " that is not the one of the allocation (" << got.ptr << "," << got.size << " for " << base << "," << l.n << ")");
  }
  void copy()
  {
    if (live.size() < 1) return;
    auto s = any(), d = any();
    if (s == d) return;
    size_t so = s->second.n && r.chance(1, 3) ? r.below(s->second.n) : 0, dof = d->second.n && r.chance(1, 3) ? r.below(d->second.n) : 0;
    size_t sn = s->second.n - so, dn = d->second.n - dof;
    size_t n = r.chance(1, 4) ? 0 : r.chance(1, 8) ? r.range(1, 2 * std::max<size_t>(1, std::min(sn, dn))) : r.range(0, std::min(sn, dn));
    void *sp = reinterpret_cast<void*>(s->first + so), *dp = reinterpret_cast<void*>(d->first + dof);
    bool async = r.chance(1, 2);
    Platform a = nodes[s->second.node].plat, b = nodes[d->second.node].plat;
    Entry e = entry("COPY", a, b);
    size_t eff = n ? n : sn;
    bool fits = eff <= sn && eff <= dn;
    bool f = r.chance(1, 10) && e.kind != HOSTOP;
    if (f) arm(0);
    Err er = attempt([&] {
      if (async) { rm().copy(dp, sp, ctx, n); }
      else rm().copy(dp, sp, n);
    });
    bool hit = g_fault.hit;
    disarm();
    char form = formed(e.kind, async);
    vh::tr("copy%s %zu: %s+%zu -> %s+%zu (%s) err %d", async ? " async" : "", n, nodes[s->second.node].what.c_str(), so, nodes[d->second.node].what.c_str(), dof, kname[e.kind], er);
    vh::step("copy", size_t(e.kind) * 8 + async * 4 + fits * 2 + hit, er);
    vh::sig(std::string("copy ") + kname[e.kind] + (async ? " async " : " ") + std::to_string(int(a)) + ">" + std::to_string(int(b)) + (fits ? "" : " too much") + (hit ? " fails" : ""));
    if (!fits) {
      VH_CHECK(er == RUNTIME, "ops:refuse", "a copy of " << eff << " bytes from " << sn << " into " << dn << " was not refused");
      VH_CHECK(g_log.empty(), "ops:refuse", "a copy that does not fit was handed to an operation: " << show());
      return;
    }
    if (eff == 0) {  // nothing to do: whether anybody is asked is not judged
      g_log.clear();
      return;
    }
    if (e.kind == HOSTOP) {
      VH_CHECK(er == OK && g_log.empty(), "ops:host", "a copy on the host went to another operation, or failed: " << show());
    } else if (form == 0) {
      VH_CHECK(er == RUNTIME, "ops:missing", "a copy from platform " << int(a) << " to " << int(b) << (async ? " with a resource" : "") << ", for which there is no usable operation, was not refused");
      VH_CHECK(g_log.empty(), "ops:missing", "a copy for which there is no operation was handed to another one: " << show());
      return;
    } else {
      VH_CHECK(g_log.size() == 1, "ops:once", "a copy from platform " << int(a) << " to " << int(b) << " called " << g_log.size() << " operations: " << show());
      auto& c = g_log[0];
      VH_CHECK(c.op == e.op.get(), "ops:which", "a copy from platform " << int(a) << " to " << int(b) << " called the operation of another name or pair of platforms");
      VH_CHECK(c.form == form, "ops:form", "a copy " << (async ? "with" : "without") << " a resource called the operation in the form '" << c.form << "', not '" << form << "'");
      VH_CHECK(c.src == sp && c.dst == dp && c.len == eff, "ops:args", "the copy of " << eff << " bytes " << sp << " -> " << dp << " reached the operation as " << show());
      VH_CHECK(c.has_src && c.has_dst, "ops:record", "the copy operation was given no record of an allocation");
      rec(c.srec, reinterpret_cast<void*>(s->first), s->second, "source");
      rec(c.drec, reinterpret_cast<void*>(d->first), d->second, "destination");
      g_log.clear();
      VH_CHECK(er == (hit ? injected() : OK), "ops:error", "the operation of a copy " << (hit ? "failed, and the copy ended otherwise" : "succeeded, but the copy failed"));
      if (hit) return;
    }
    std::copy(s->second.data.begin() + long(so), s->second.data.begin() + long(so + eff), d->second.data.begin() + long(dof));
    vh::count("copies");
  }
  void set()
  {
    if (live.empty()) return;
    auto d = any();
    size_t off = d->second.n && r.chance(1, 3) ? r.below(d->second.n) : 0, rest = d->second.n - off;
    size_t n = r.chance(1, 4) ? 0 : r.chance(1, 8) ? r.range(1, 2 * rest + 1) : r.range(0, rest);
    int v = r.chance(1, 4) ? int(r.next()) : int(r.below(256));
    void* p = reinterpret_cast<void*>(d->first + off);
    bool async = r.chance(1, 2);
    Platform a = nodes[d->second.node].plat;
    Entry e = entry("MEMSET", a, a);
    size_t eff = n ? n : rest;
    bool fits = eff <= rest, f = r.chance(1, 10) && e.kind != HOSTOP;
    if (f) arm(0);
    Err er = attempt([&] {
      if (async) rm().memset(p, v, ctx, n);
      else rm().memset(p, v, n);
    });
    bool hit = g_fault.hit;
    disarm();
    char form = formed(e.kind, async);
    if (form) form = form == 't' ? 'a' : 'A';
    vh::tr("memset%s %d %zu: %s+%zu (%s) err %d", async ? " async" : "", v, n, nodes[d->second.node].what.c_str(), off, kname[e.kind], er);
    vh::step("memset", size_t(e.kind) * 8 + async * 4 + fits * 2 + hit, er);
    vh::sig(std::string("memset ") + kname[e.kind] + (async ? " async " : " ") + std::to_string(int(a)) + (fits ? "" : " too much") + (hit ? " fails" : ""));
    if (!fits) {
      VH_CHECK(er == RUNTIME && g_log.empty(), "ops:refuse", "a memset of " << eff << " bytes where " << rest << " are left was not refused");
      return;
    }
    if (eff == 0) { g_log.clear(); return; }
    if (e.kind == HOSTOP) {
      VH_CHECK(er == OK && g_log.empty(), "ops:host", "a memset on the host went to another operation, or failed: " << show());
    } else if (form == 0) {
      VH_CHECK(er == RUNTIME && g_log.empty(), "ops:missing", "a memset on platform " << int(a) << ", which has no usable operation for it, was not refused: " << show());
      return;
    } else {
      VH_CHECK(g_log.size() == 1, "ops:once", "a memset called " << g_log.size() << " operations: " << show());
      auto& c = g_log[0];
      VH_CHECK(c.op == e.op.get(), "ops:which", "a memset on platform " << int(a) << " called another operation");
      VH_CHECK(c.form == form, "ops:form", "a memset " << (async ? "with" : "without") << " a resource called the operation in the form '" << c.form << "', not '" << form << "'");
      VH_CHECK(c.src == p && c.len == eff && c.val == v, "ops:args", "the memset of " << eff << " bytes at " << p << " to " << v << " reached the operation as " << show());
      VH_CHECK(c.has_src, "ops:record", "the memset operation was given no record");
      rec(c.srec, reinterpret_cast<void*>(d->first), d->second, "allocation");
      g_log.clear();
      VH_CHECK(er == (hit ? injected() : OK), "ops:error", "the operation of a memset " << (hit ? "failed, and the memset ended otherwise" : "succeeded, but the memset failed"));
      if (hit) return;
    }
    std::fill(d->second.data.begin() + long(off), d->second.data.begin() + long(off + eff), (unsigned char)v);
    vh::count("memsets");
  }
  void prefetch()
  {
    if (live.empty()) return;
    auto d = any();
    if (d->second.n == 0) return;
    size_t off = r.chance(1, 2) ? r.below(d->second.n) : 0, rest = d->second.n - off;
    Node& nd = nodes[d->second.node];
    Entry e = entry("PREFETCH", nd.plat, nd.plat);
    int dev = r.chance(1, 4) ? int(r.next()) : int(r.below(20)) - 2;
    void* p = reinterpret_cast<void*>(d->first + off);
    bool f = r.chance(1, 10);
    if (f) arm(0);
    Err er = attempt([&] { rm().prefetch(p, dev, ctx); });
    bool hit = g_fault.hit;
    disarm();
    vh::tr("prefetch %s+%zu um %d (%s) err %d", nd.what.c_str(), off, nd.um, kname[e.kind], er);
    vh::step("prefetch", size_t(e.kind) * 4 + nd.um * 2 + hit, er);
    vh::sig(std::string("prefetch ") + kname[e.kind] + (nd.um ? " um " : " ") + std::to_string(int(nd.plat)) + (hit ? " fails" : ""));
    if (!nd.um || e.kind == NONE) {
      VH_CHECK(er == RUNTIME && g_log.empty(), "ops:prefetch", "a prefetch of memory that is " << (nd.um ? "unified, but has no operation for it," : "not unified") << " was not refused: " << show());
      return;
    }
    char form = e.kind == BOTH ? 'a' : 'A';
    VH_CHECK(g_log.size() == 1, "ops:once", "a prefetch called " << g_log.size() << " operations: " << show());
    auto& c = g_log[0];
    VH_CHECK(c.op == e.op.get() && c.form == form, "ops:which", "a prefetch on platform " << int(nd.plat) << " called another operation, or in another form: " << show());
    VH_CHECK(c.src == p && c.len == rest && c.val == dev, "ops:args", "the prefetch to " << dev << " of " << rest << " bytes at " << p << " reached the operation as " << show());
    VH_CHECK(c.has_src, "ops:record", "the prefetch operation was given no record");
    rec(c.srec, reinterpret_cast<void*>(d->first), d->second, "allocation");
    g_log.clear();
    VH_CHECK(er == (hit ? injected() : OK), "ops:error", "the operation of a prefetch " << (hit ? "failed, and the prefetch ended otherwise" : "succeeded, but the prefetch failed"));
    vh::count("prefetches");
  }
  void move()
  {
    if (live.empty()) return;
    auto d = any();
    size_t from = d->second.node, to = r.below(nodes.size());
    if (nodes[to].fixed && nodes[to].fixed != d->second.n) return;
    Entry e = entry("COPY", nodes[from].plat, nodes[to].plat);
    void* p = reinterpret_cast<void*>(d->first);
    void* q = nullptr;
    size_t n = d->second.n;
    bool f = r.chance(1, 8) && e.kind != HOSTOP && nodes[to].watches.empty();
    if (f) arm(0);
    auto before = live;
    Err er = attempt([&] { q = rm().move(p, nodes[to].a); });
    bool hit = g_fault.hit;
    disarm();
    char form = formed(e.kind, false);
    vh::tr("move %zu: %s -> %s (%s) err %d", n, nodes[from].what.c_str(), nodes[to].what.c_str(), kname[e.kind], er);
    vh::step("move", size_t(e.kind) * 4 + (from == to) * 2 + hit, er);
    vh::sig(std::string("move ") + kname[e.kind] + " " + std::to_string(int(nodes[from].plat)) + ">" + std::to_string(int(nodes[to].plat)) + (hit ? " fails" : ""));
    judge_advice("move", {});
    if (from == to) {
      VH_CHECK(er == OK && q == p && g_log.empty(), "ops:move", "a move to the allocator the memory is from did something");
      return;
    }
    if (n == 0) {
      g_log.clear();
      if (er == OK) {
        auto dat = d->second;
        died(p);
        born(q, 0, to, false);
      }
      return;
    }
    if (e.kind != HOSTOP && form == 0) {
      VH_CHECK(er == RUNTIME, "ops:missing", "a move from platform " << int(nodes[from].plat) << " to " << int(nodes[to].plat) << ", between which nothing copies, was not refused");
      VH_CHECK(g_log.empty(), "ops:missing", "a move without an operation was handed to another one: " << show());
      vh::count("moves refused");
      return;   // intact() finds the source and the statistics as before
    }
    if (e.kind == HOSTOP) VH_CHECK(er == OK && g_log.empty(), "ops:host", "a move on the host went to another operation, or failed");
    else {
      VH_CHECK(g_log.size() == 1, "ops:once", "a move called " << g_log.size() << " operations: " << show());
      auto& c = g_log[0];
      VH_CHECK(c.op == e.op.get() && c.form == form, "ops:which", "a move from platform " << int(nodes[from].plat) << " to " << int(nodes[to].plat) << " called another operation, or in another form");
      VH_CHECK(c.src == p && c.len == n && (hit || c.dst == q), "ops:args", "the move of " << n << " bytes from " << p << " reached the operation as " << show());
      rec(c.srec, p, d->second, "source");
      VH_CHECK(c.drec.size == n && c.drec.strategy == nodes[to].s, "ops:record", "the operation of a move was given a record that is not the one of the new memory");
      g_log.clear();
      VH_CHECK(er == (hit ? injected() : OK), "ops:error", "the operation of a move " << (hit ? "failed, and the move ended otherwise" : "succeeded, but the move failed"));
      if (hit) { vh::count("moves failed"); return; }
    }
    auto data = d->second.data;
    died(p);
    VH_CHECK(bytes(q, n) == data, "ops:bytes", "moved memory has other bytes");
    born(q, n, to, false);
    vh::count("moves");
  }
  void realloc()
  {
    if (live.empty()) return;
    auto d = any();
    size_t k = d->second.node;
    if (nodes[k].fixed) return;
    size_t old = d->second.n, n = r.chance(1, 10) ? 0 : r.chance(1, 50) ? r.range(2000, 100000) : r.range(1, r.chance(1, 2) ? 300 : 3000);
    void* p = reinterpret_cast<void*>(d->first);
    Platform a = nodes[k].plat;
    int how = int(r.below(4));
    bool async = how & 1;
    Entry e = entry("REALLOCATE", a, a);
    Entry cp = entry("COPY", a, a);
    bool f = r.chance(1, 8) && a != H && nodes[k].watches.empty();
    if (f) arm(0);
    void* q = nullptr;
    auto data = d->second.data;
    Err er = attempt([&] {
      switch (how) {
        case 0: q = rm().reallocate(p, n); break;
        case 1: q = rm().reallocate(p, n, ctx); break;
        case 2: q = rm().reallocate(p, n, nodes[k].a); break;
        default: q = rm().reallocate(p, n, nodes[k].a, ctx);
      }
    });
    bool hit = g_fault.hit;
    disarm();
    vh::tr("reallocate%s %zu -> %zu: %s (%s, copies by %s) err %d", async ? " async" : "", old, n, nodes[k].what.c_str(), kname[e.kind], kname[cp.kind], er);
    vh::step("reallocate", size_t(e.kind) * 8 + size_t(how) * 2 + hit, er);
    vh::sig(std::string("reallocate ") + kname[e.kind] + " " + std::to_string(int(a)) + " " + std::to_string(how) + (n == 0 ? " to nothing" : "") + (hit ? " fails" : ""));
    judge_advice("reallocate", {});
    if (n == 0) {
      VH_CHECK(er == OK && g_log.empty(), "ops:realloc", "a reallocation to nothing asked an operation, or failed: " << show());
      died(p);
      born(q, 0, k, false);
      return;
    }
    if (old == 0) {   // whether anything is asked to copy nothing is not judged
      g_log.clear();
      if (er == OK) { died(p); born(q, n, k, true); }
      return;
    }
    size_t keep = std::min(old, n);
    if (a == H) {
      VH_CHECK(er == OK && g_log.empty(), "ops:host", "a reallocation on the host failed, or asked another operation: " << show());
    } else {
      // the operation that must have been asked, and how
      char form;
      const void* want;
      size_t len;
      if (e.kind == GENERIC) {
        form = formed(cp.kind, async);
        want = cp.op.get();
        len = keep;
      } else {
        form = formed(e.kind, async);
        want = e.op.get();
        len = n;
      }
      if (form == 0) {
        VH_CHECK(er == RUNTIME && g_log.empty(), "ops:missing", "a reallocation on platform " << int(a) << ", which cannot copy, was not refused: " << show());
        vh::count("reallocations refused");
        return;
      }
      VH_CHECK(g_log.size() == 1, "ops:once", "a reallocation on platform " << int(a) << " called " << g_log.size() << " operations: " << show());
      auto& c = g_log[0];
      VH_CHECK(c.op == want, "ops:which", "a reallocation on platform " << int(a) << " called another operation");
      VH_CHECK(c.form == form, "ops:form", "a reallocation " << (async ? "with" : "without") << " a resource called the operation in the form '" << c.form << "', not '" << form << "'");
      VH_CHECK(c.src == p && c.len == len, "ops:args", "the reallocation of " << old << " bytes at " << p << " to " << n << " reached the operation as " << show());
      VH_CHECK(c.has_src, "ops:record", "the operation of a reallocation was given no record");
      rec(c.srec, p, d->second, "old memory");
      VH_CHECK(c.has_dst && c.drec.strategy == nodes[k].s, "ops:record", "the operation of a reallocation was given a record of another strategy");
      g_log.clear();
      VH_CHECK(er == (hit ? injected() : OK), "ops:error", "the operation of a reallocation " << (hit ? "failed, and the reallocation ended otherwise" : "succeeded, but the reallocation failed"));
      if (hit) { vh::count("reallocations failed"); return; }
    }
    died(p);
    VH_CHECK(std::memcmp(reach(q), data.data(), keep) == 0, "ops:bytes", "a reallocation from " << old << " to " << n << " lost bytes");
    born(q, n, k, false);
    // what is new is undefined: give it a value
    auto& l = live[reinterpret_cast<std::uintptr_t>(q)];
    for (size_t i = keep; i < n; ++i) reach(q)[i] = char(l.data[i] = (unsigned char)(pat = (unsigned char)(pat * 5 + 3)));
    vh::count("reallocations");
  }
  // looking operations up
  void lookup()
  {
    static const char* names[] = {"COPY", "MEMSET", "REALLOCATE", "PREFETCH", "SET_READ_MOSTLY", "SET_ACCESSED_BY", "SET_PREFERRED_LOCATION", "MOVE", "copy", "", "COPY "};
    std::string n = names[r.below(11)];
    Platform a, b;
    std::shared_ptr<MemoryOperation> got;
    bool refused = false, by_strategy = r.chance(2, 3);
    if (by_strategy) {
      Node &x = nodes[r.below(nodes.size())], &y = nodes[r.below(nodes.size())];
      a = x.plat;
      b = y.plat;
      try {
        if (r.chance(1, 2)) got = rm().getOperation(n, x.a, y.a);
        else got = MemoryOperationRegistry::getInstance().find(n, x.s, y.s);
      } catch (const umpire::runtime_error&) { refused = true; }
    } else {
      a = all_platforms[r.below(6)];
      b = all_platforms[r.below(6)];
      try { got = MemoryOperationRegistry::getInstance().find(n, PP{a, b}); } catch (const umpire::runtime_error&) { refused = true; }
    }
    Entry e = entry(n, a, b);
    if (n == "REALLOCATE" && a == U && b == U) e.kind = HOSTOP;   // the library's own
    vh::step("lookup", size_t(a) * 8 + size_t(b), refused);
    VH_CHECK(refused == (e.kind == NONE), "ops:find", "looking for \"" << n << "\" from platform " << int(a) << " to " << int(b) << (refused ? " found nothing" : " found something") << ", " << (e.kind == NONE ? "nothing" : "an operation") << " is registered");
    VH_CHECK(refused || got != nullptr, "ops:find", "looking for \"" << n << "\" gave no operation and no error");
    if (e.op) VH_CHECK(got == e.op, "ops:find", "looking for \"" << n << "\" from platform " << int(a) << " to " << int(b) << " found another operation");
    vh::count("lookups");
  }
  // operations of the user's own
  void user(std::uint64_t cs)
  {
    std::map<std::string, std::map<PP, std::shared_ptr<MemoryOperation>>> mine;
    size_t names = r.range(1, 12);
    auto& reg_ = MemoryOperationRegistry::getInstance();
    for (size_t i = 0; i < names; ++i) {
      std::string n = "user" + std::to_string(cs) + (r.chance(1, 4) ? std::string(r.below(300), 'x') : std::string(1, char('a' + i)));
      for (size_t j = r.range(1, 20); j; --j) {
        PP pp{all_platforms[r.below(6)], all_platforms[r.below(6)]};
        if (mine[n].count(pp)) continue;
        std::shared_ptr<MemoryOperation> o = std::make_shared<Bare>();
        mine[n][pp] = o;
        reg_.registerOperation(n, pp, std::move(o));
      }
    }
    for (auto& m : mine)
      for (auto a : all_platforms)
        for (auto b : all_platforms) {
          std::shared_ptr<MemoryOperation> got;
          try { got = reg_.find(m.first, PP{a, b}); } catch (const umpire::runtime_error&) {}
          auto it = m.second.find(PP{a, b});
          VH_CHECK(got == (it == m.second.end() ? nullptr : it->second), "ops:find", "\"" << m.first << "\" from platform " << int(a) << " to " << int(b) << " is not the operation registered under it");
          vh::count("lookups");
        }
    vh::step("user", names);
  }
  // advisors and prefetchers made by name, in C++ and in C
  void made(std::uint64_t cs)
  {
    size_t b = r.below(2);
    Platform p = g_based[b]->plat;
    static const char* names[] = {"SET_READ_MOSTLY", "SET_ACCESSED_BY", "SET_COARSE_GRAIN", "SET_PREFERRED_LOCATION"};
    bool pre = r.chance(1, 2);
    std::string on = pre ? "PREFETCH" : names[r.below(4)];
    Entry e = entry(on, p, p);
    if (e.kind == NONE) return;
    int dev = int(r.below(40)) - 4;
    std::string name = "opsmade" + std::to_string(cs);
    umpire_resourcemanager cr;
    umpire_resourcemanager_get_instance(&cr);
    umpire_allocator base, out;
    umpire_resourcemanager_get_allocator_by_name(&cr, g_base[b].getName().c_str(), &base);
    int how = int(r.below(3));
    std::string padded = name + std::string(r.below(5), ' '), op_padded = on + std::string(r.below(5), ' ');
    if (how == 0) {
      if (pre) rm().makeAllocator<umpire::strategy::AllocationPrefetcher>(name, g_base[b], dev);
      else rm().makeAllocator<umpire::strategy::AllocationAdvisor>(name, g_base[b], on, dev);
    } else if (how == 1) {
      if (pre) umpire_resourcemanager_make_allocator_prefetcher(&cr, name.c_str(), base, dev, &out);
      else umpire_resourcemanager_make_allocator_advisor(&cr, name.c_str(), base, on.c_str(), dev, &out);
    } else {
      if (pre) umpire_resourcemanager_make_allocator_bufferify_prefetcher(&cr, padded.c_str(), int(name.size()), base, dev, &out);
      else umpire_resourcemanager_make_allocator_bufferify_advisor(&cr, padded.c_str(), int(name.size()), base, op_padded.c_str(), int(on.size()), dev, &out);
    }
    vh::tr("%s %s over %s made in way %d, device %d", pre ? "prefetcher" : "advisor", on.c_str(), g_base[b].getName().c_str(), how, dev);
    vh::step("made", size_t(how) * 2 + pre);
    VH_CHECK(rm().isAllocator(name), "ops:made", "the allocator made is not registered");
    Allocator a = rm().getAllocator(name);
    VH_CHECK(a.getStrategyName() == (pre ? "AllocationPrefetcher" : "AllocationAdvisor"), "ops:made", "the allocator made is a " << a.getStrategyName());
    VH_CHECK(a.getParent() == g_base[b].getAllocationStrategy() && a.getPlatform() == p, "ops:made", "the allocator made is over something else");
    for (size_t i = r.range(1, 6); i; --i) {
      size_t n = r.range(1, 500);
      g_log.clear();
      void* q;
      if (how == 0) q = a.allocate(n);
      else q = umpire_allocator_allocate(&out, n);
      VH_CHECK(g_log.size() == 1 && g_log[0].op == e.op.get() && g_log[0].src == q && g_log[0].val == dev && g_log[0].len == n && g_log[0].form == 'A', "ops:advice",
               "an allocation of " << n << " bytes at " << q << " for device " << dev << " reached the operation as " << show());
      g_log.clear();
      a.deallocate(q);
      VH_CHECK(g_log.empty(), "ops:extra", "giving memory back called operations");
      vh::count("advice");
    }
    VH_CHECK(g_based[b]->held.empty(), "ops:kept", "memory of the device is still held");
  }

  void run(std::uint64_t cs)
  {
    g_log.clear();
    g_top = 0;
    g_free.clear();
    disarm();
    static const Platform ps[] = {C, C, P_, P_, O, S};
    using RT = umpire::MemoryResourceTraits::resource_type;
    add_node(rm().getAllocator("HOST").getAllocationStrategy(), H, false, "HOST", {});
    nodes[0].bytes = nodes[0].s->getCurrentSize();
    nodes[0].live = nodes[0].s->getAllocationCount();
    size_t nd = r.range(1, 4);
    for (size_t i = 0; i < nd; ++i) {
      umpire::MemoryResourceTraits t;
      t.id = int(i);
      static const RT rts[] = {RT::um, RT::um, RT::device, RT::pinned, RT::unknown, RT::device_const};
      t.resource = rts[r.below(6)];
      t.size = r.below(1000);
      Platform p = ps[r.below(6)];
      std::unique_ptr<Dev> d(new Dev(nm("dev"), ids, p, t));
      devs.push_back(d.get());
      AllocationStrategy* raw = d.get();
      own.push_back(std::move(d));
      add_node(raw, p, t.resource == RT::um, "Dev" + std::to_string(int(p)), {});
    }
    if (r.chance(1, 3)) wrap(0);
    for (size_t i = r.range(0, 3); i; --i) wrap(1 + r.below(nodes.size() - 1));
    for (size_t i = r.range(0, 3); i; --i) advise(r.below(nodes.size()));
    size_t ops = r.range(30, 120);
    static const int w[] = {6, 3, 6, 4, 2, 3, 4, 1};
    for (size_t i = 0; i < ops; ++i) {
      int x = int(r.below(29)), k = 0;
      while (x >= w[k]) x -= w[k++];
      const char* what = "";
      switch (k) {
        case 0: what = "allocate"; if (live.size() < 40) alloc(); break;
        case 1: what = "deallocate"; dealloc(); break;
        case 2: what = "copy"; copy(); break;
        case 3: what = "memset"; set(); break;
        case 4: what = "prefetch"; prefetch(); break;
        case 5: what = "move"; move(); break;
        case 6: what = "reallocate"; realloc(); break;
        default: what = "look-up"; lookup();
      }
      vh::check_flags();
      VH_CHECK(g_log.empty(), "ops:extra", "after " << what << " there are calls nobody asked for: " << show());
      intact(what);
    }
    while (!live.empty()) dealloc();
    intact("the end");
    if (r.chance(1, 8)) user(cs);
    if (r.chance(1, 3)) made(cs);
    while (!own.empty()) {
      // devices are destroyed last; by then nothing is held
      if (auto d = dynamic_cast<Dev*>(own.back().get())) VH_CHECK(d->held.empty(), "ops:kept", "at the end the device still holds memory of strategies that are gone");
      own.pop_back();
    }
    vh::check_flags();
    g_log.clear();   // a pool that coalesces on the way out may have taken memory once more
  }
};

void one(vh::Rng& r, std::uint64_t cs)
{
  init();
  Run x(r);
  x.run(cs);
}
} // namespace
int main(int argc, char** argv) { return vh::run(argc, argv, "ops", one); }
