// A generated tree of real Umpire allocation strategies.  Between every
// strategy and its parent sits a transparent recording Tap, and at the bottom a
// recording, fault-injecting root (VRoot).  The oracle only looks at the public
// interface of the strategies and at what crosses the taps.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include <sys/mman.h>

#include <algorithm>
#include <array>
#include <limits>
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

// umpire::Allocator names ::AllocatorTest as a friend: lets us wrap a strategy
// we own, so it can be destroyed inside a case.
class AllocatorTest {
 public:
  static umpire::Allocator wrap(umpire::strategy::AllocationStrategy* s) { return umpire::Allocator(s); }
};

namespace world {
using umpire::Platform;
using umpire::strategy::AllocationStrategy;
using std::size_t;

inline std::string hexp(const void* p)
{
  char b[32];
  std::snprintf(b, sizeof b, "%p", p);
  return b;
}

// ---------------------------------------------------------------- VRoot
// The memory resource of the generated world.
class VRoot : public AllocationStrategy {
 public:
  struct Blk {
    size_t size;
    char* base;
    size_t total;
    bool mapped;  // address space whose pages exist once touched
  };
  VRoot(const std::string& name, int id, size_t skew)
      : AllocationStrategy{name, id, nullptr, "VRoot"}, m_skew{skew}
  {
  }
  ~VRoot() override
  {
    for (auto& b : live) give_back(b.second);
  }
  Platform getPlatform() noexcept override { return Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }

  std::map<std::uintptr_t, Blk> live;
  long fail_in{-1};   // fail the call after this many further successes
  int fail_len{0};    // how many consecutive calls fail
  bool failing_called{false};
  std::uint64_t n_alloc{0}, n_fail{0};

 private:
  void give_back(const Blk& b)
  {
#ifdef VH_ASAN
    __asan_unpoison_memory_region(b.base, b.mapped ? m_skew : b.total);
#endif
    if (b.mapped) ::munmap(b.base, b.total);
    else std::free(b.base);
  }
  void* allocate(size_t bytes) override
  {
    bool inject = false;
    if (fail_in == 0) {
      inject = true;
      if (--fail_len <= 0) fail_in = -1;
    } else if (fail_in > 0) {
      --fail_in;
    }
    if (inject || bytes > (size_t(1) << 36)) {
      ++n_fail;
      failing_called = true;
      UMPIRE_ERROR(umpire::out_of_memory_error, "VRoot: out of memory");
    }
    Blk b;
    b.size = bytes;
    b.total = bytes + m_skew;
    void* p = nullptr;
    b.mapped = bytes > (size_t(1) << 24);
    if (b.mapped) {
      p = ::mmap(nullptr, b.total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) {
        ++n_fail;
        failing_called = true;
        UMPIRE_ERROR(umpire::out_of_memory_error, "VRoot: no address space");
      }
    } else if (::posix_memalign(&p, 64, b.total ? b.total : 1)) {
      ++n_fail;
      failing_called = true;
      UMPIRE_ERROR(umpire::out_of_memory_error, "VRoot: real out of memory");
    }
    b.base = static_cast<char*>(p);
#ifdef VH_ASAN
    if (m_skew) __asan_poison_memory_region(b.base, m_skew);
#endif
    char* r = b.base + m_skew;
    live[reinterpret_cast<std::uintptr_t>(r)] = b;
    ++n_alloc;
    return r;
  }
  void deallocate(void* ptr, size_t size) override
  {
    auto it = live.find(reinterpret_cast<std::uintptr_t>(ptr));
    if (it == live.end()) {
      vh::flag("conserve:unknown-block", "resource asked to free " + hexp(ptr) + " which it does not have outstanding");
      return;
    }
    (void)size;
    give_back(it->second);
    live.erase(it);
  }
  size_t m_skew;
};

struct Node;

// ---------------------------------------------------------------- Tap
class Tap : public AllocationStrategy {
 public:
  Tap(const std::string& name, int id, Node* up, Node* down);
  Platform getPlatform() noexcept override;
  umpire::MemoryResourceTraits getTraits() const noexcept override;
  std::map<std::uintptr_t, size_t> held;
  size_t held_bytes{0};
  std::uint64_t n_alloc{0}, n_dealloc{0}, n_fail{0};

 private:
  void* allocate(size_t bytes) override { return do_alloc(nullptr, bytes); }
  void* allocate_named(const std::string& name, size_t bytes) override { return do_alloc(&name, bytes); }
  void* do_alloc(const std::string* name, size_t bytes);
  void deallocate(void* ptr, size_t size) override;
  Node* m_up;
  Node* m_down;
};

enum Kind { ROOT, QUICK, LIST, FIXED, SLOT, MIXED, MONO, LIMIT, ALIGN, TSAFE, SHIM, NAMED, NKINDS };
inline const char* kname(Kind k)
{
  static const char* n[] = {"Root", "QuickPool", "DynamicPoolList", "FixedPool", "SlotPool", "MixedPool", "Monotonic",
                            "SizeLimiter", "AlignedAllocator", "ThreadSafe", "NamingShim", "Named"};
  return n[k];
}

struct Live {
  size_t size;        // as requested
  bool user;          // user allocation (else a child's block)
  bool zero;          // zero-byte request
  std::uint64_t pat;  // content pattern (user only)
  std::string name;
  std::uint64_t serial;
};

// ---------------------------------------------------------------- Node
struct Node {
  Kind kind{ROOT};
  int index{0};
  Node* parent{nullptr};
  AllocationStrategy* s{nullptr};
  std::unique_ptr<AllocationStrategy> own;
  std::unique_ptr<Tap> tap;  // between s and parent
  umpire::Allocator alloc;   // user handle on s
  std::string cfg;
  // parameters
  size_t align{16}, first{0}, next{0}, obj{0}, nobj{0}, cap{0}, slots{0};
  int heur{-1};
  size_t heur_arg{0};
  size_t mix_small{0}, mix_large{0}, mix_max{0}, mix_mult{0};
  bool constructing{false};
  bool tracked{true};
  // model
  std::map<std::uintptr_t, Live> live;
  size_t cur{0}, hwm{0}, count{0};
  size_t mono_used{0};
  size_t fixed_live{0}, fixed_hwm{0};
  size_t limit_used{0};
  size_t aligned_cur{0}, aligned_hwm{0}, actual_hwm{0};
  std::vector<std::pair<std::uintptr_t, long>> slot_sizes;  // (ptr, +free/-used size)
  bool stats_known{true};
  // per-call bookkeeping
  bool below_failed{false};

  size_t rounded(size_t b) const { return (b + align - 1) / align * align; }
  bool pool() const { return kind == QUICK || kind == LIST; }
};

struct World;
inline World*& W()
{
  static World* w = nullptr;
  return w;
}

struct World {
  vh::Rng& rng;
  std::unique_ptr<VRoot> root;
  std::vector<std::unique_ptr<Node>> nodes;  // [0] is the root
  std::uint64_t serial{0};
  std::string tag;
  // options
  bool check_stats{true};
  size_t max_size{4096};
  std::string shape;

  explicit World(vh::Rng& r) : rng(r) { W() = this; }
  bool clean{false};
  ~World()
  {
    if (!clean) {  // unwinding after a violation: leave everything in place
      for (auto& n : nodes) { n->own.release(); n->tap.release(); n.release(); }
      root.release();
    }
    W() = nullptr;
  }

  // ------------------------------------------------ model transitions
  void model_alloc(Node& n, void* ptr, size_t bytes, bool user, bool zero, std::uint64_t pat, const std::string& name)
  {
    auto a = reinterpret_cast<std::uintptr_t>(ptr);
    const std::string who = std::string(kname(n.kind)) + "[" + n.cfg + "]";
    VH_FLAG(ptr != nullptr, "disjoint:null", who << " returned nullptr for " << bytes << " bytes");
    if (!ptr) return;
    // disjointness against everything live at this node
    size_t len = bytes ? bytes : 1;
    auto it = n.live.lower_bound(a);
    bool overlap = false;
    std::uintptr_t oa = 0;
    size_t os = 0;
    if (it != n.live.end() && it->first < a + len) { overlap = true; oa = it->first; os = it->second.size; }
    if (it != n.live.begin()) {
      auto p = std::prev(it);
      if (p->first + (p->second.size ? p->second.size : 1) > a) { overlap = true; oa = p->first; os = p->second.size; }
    }
    VH_FLAG(!overlap, "disjoint:overlap", who << " returned " << ptr << "+" << bytes << " overlapping live " << (void*)oa << "+" << os);
    // containment: the bytes must lie inside a block the strategy holds
    if (!zero && n.kind != ROOT) {
      auto h = n.tap->held.upper_bound(a);
      bool inside = false;
      if (h != n.tap->held.begin()) {
        --h;
        inside = a >= h->first && a + bytes <= h->first + h->second;
      }
      VH_FLAG(inside, "disjoint:outside", who << " returned " << ptr << "+" << bytes << " which is not inside memory it holds from its parent");
    }
    // alignment
    if (!zero && (n.kind == QUICK || n.kind == LIST || n.kind == ALIGN))
      VH_FLAG(a % n.align == 0, std::string("align:") + kname(n.kind), who << " returned " << ptr << " for " << bytes << " bytes, not aligned to " << n.align);
    if (!zero && n.kind == MIXED && bytes > n.mix_large)
      VH_FLAG(a % n.align == 0, "align:MixedPool", who << " returned " << ptr << " for " << bytes << " bytes, not aligned to " << n.align);
    if (overlap) n.live.erase(a);
    n.live[a] = Live{bytes, user, zero, pat, name, serial++};
    n.cur += bytes;
    n.count++;
    n.hwm = std::max(n.hwm, n.cur);
    if (!zero) {
      if (n.kind == FIXED) { n.fixed_live++; n.fixed_hwm = std::max(n.fixed_hwm, n.fixed_live); }
      if (n.kind == MONO) {
        n.mono_used += bytes;
        VH_FLAG(n.mono_used <= n.cap, "limit:Monotonic", who << " handed out " << n.mono_used << " of " << n.cap);
      }
      if (n.kind == LIMIT) {
        n.limit_used += bytes;
        VH_FLAG(n.limit_used <= n.cap, "limit:SizeLimiter", who << " has " << n.limit_used << " bytes live over its limit " << n.cap);
      }
      if (n.kind == SLOT) {
        bool found = false;
        for (auto& sl : n.slot_sizes)
          if (sl.first == a) {
            found = true;
            VH_FLAG(sl.second == long(bytes), "limit:SlotPool-size", who << " reused a " << sl.second << " byte slot for " << bytes);
            sl.second = -sl.second;
          }
        if (!found) n.slot_sizes.push_back({a, -long(bytes)});
        VH_FLAG(n.slot_sizes.size() <= n.slots, "limit:SlotPool", who << " uses " << n.slot_sizes.size() << " of " << n.slots << " slots");
      }
      if (n.pool()) {
        n.aligned_cur += n.rounded(bytes);
        n.aligned_hwm = std::max(n.aligned_hwm, n.aligned_cur);
      }
    }
  }
  void model_dealloc(Node& n, void* ptr)
  {
    auto a = reinterpret_cast<std::uintptr_t>(ptr);
    auto it = n.live.find(a);
    if (it == n.live.end()) return;
    size_t bytes = it->second.size;
    bool zero = it->second.zero;
    n.cur -= bytes;
    n.count--;
    if (!zero) {
      if (n.kind == FIXED) n.fixed_live--;
      if (n.kind == LIMIT) n.limit_used -= bytes;
      if (n.kind == SLOT)
        for (auto& sl : n.slot_sizes)
          if (sl.first == a) sl.second = -sl.second;
      if (n.pool()) n.aligned_cur -= n.rounded(bytes);
    }
    n.live.erase(it);
  }
  // Would this node, on its own account, be entitled to refuse `bytes`?
  bool may_refuse(Node& n, size_t bytes)
  {
    switch (n.kind) {
      case MONO: return bytes > n.cap - n.mono_used;
      case LIMIT: return bytes > n.cap - n.limit_used;
      case SLOT: {
        if (n.slot_sizes.size() < n.slots) return false;
        for (auto& sl : n.slot_sizes) if (sl.second == long(bytes)) return false;
        return true;
      }
      default: return false;
    }
  }
  // The oversize rule: a request no address space can satisfy has to be refused.
  void model_refused(Node& n, size_t bytes, bool below_failed)
  {
    if (bytes > (size_t(1) << 40)) return;
    VH_FLAG(below_failed || may_refuse(n, bytes), std::string("limit:spurious-") + kname(n.kind),
            kname(n.kind) << "[" << n.cfg << "] refused " << bytes << " bytes although its parent did not fail and its own limit allows it");
  }

  // ------------------------------------------------ free space model of a pool
  struct Space {
    size_t blocks{0}, actual{0}, rel_blocks{0}, rel_bytes{0}, regions{0}, largest{0};
  };
  Space space(Node& n)
  {
    Space sp;
    for (auto& h : n.tap->held) {
      std::uintptr_t b = (h.first + n.align - 1) & ~(std::uintptr_t(n.align) - 1);
      size_t sz = h.second - n.align;
      sp.blocks++;
      sp.actual += sz;
      std::uintptr_t pos = b, end = b + sz;
      size_t used = 0;
      for (auto it = n.live.lower_bound(h.first); it != n.live.end() && it->first < end; ++it) {
        if (it->second.zero) continue;
        if (it->first > pos) {
          sp.regions++;
          sp.largest = std::max(sp.largest, size_t(it->first - pos));
        }
        pos = it->first + n.rounded(it->second.size);
        used++;
      }
      if (pos < end) {
        sp.regions++;
        sp.largest = std::max(sp.largest, size_t(end - pos));
      }
      if (!used) { sp.rel_blocks++; sp.rel_bytes += sz; }
    }
    return sp;
  }
  size_t nonzero_live(Node& n)
  {
    size_t c = 0;
    for (auto& l : n.live) if (!l.second.zero) c++;
    return c;
  }

  template <typename P>
  void check_pool(Node& n, P& p)
  {
    Space sp = space(n);
    const std::string who = std::string(kname(n.kind)) + "[" + n.cfg + "]";
    const std::string k = std::string("pool:") + kname(n.kind);
    VH_CHECK(p.getActualSize() == sp.actual, k + "-actual", who << " getActualSize " << p.getActualSize() << " but it holds " << sp.actual << " usable bytes in " << sp.blocks << " parent blocks");
    VH_CHECK(p.getTotalBlocks() == sp.blocks, k + "-total-blocks", who << " getTotalBlocks " << p.getTotalBlocks() << " held " << sp.blocks);
    VH_CHECK(p.getReleasableBlocks() == sp.rel_blocks, k + "-rel-blocks", who << " getReleasableBlocks " << p.getReleasableBlocks() << " but " << sp.rel_blocks << " held blocks contain no live allocation");
    VH_CHECK(p.getReleasableSize() == sp.rel_bytes, k + "-rel-bytes", who << " getReleasableSize " << p.getReleasableSize() << " expected " << sp.rel_bytes);
    VH_CHECK(p.getBlocksInPool() == nonzero_live(n) + sp.regions, k + "-blocks", who << " getBlocksInPool " << p.getBlocksInPool() << " expected " << nonzero_live(n) << " used + " << sp.regions << " free regions");
    VH_CHECK(p.getLargestAvailableBlock() == sp.largest, k + "-largest", who << " getLargestAvailableBlock " << p.getLargestAvailableBlock() << " expected " << sp.largest);
    VH_CHECK(p.getAlignedSize() == n.aligned_cur, k + "-aligned", who << " getAlignedSize " << p.getAlignedSize() << " expected " << n.aligned_cur);
    VH_CHECK(p.getActualHighwaterMark() >= p.getActualSize() && p.getActualHighwaterMark() == n.actual_hwm, k + "-actual-hwm", who << " getActualHighwaterMark " << p.getActualHighwaterMark() << " expected " << n.actual_hwm);
    // pool-internal coalescing allocates through the pool itself, so only bounds here
    if (n.heur < 0) VH_CHECK(p.getAlignedHighwaterMark() == n.aligned_hwm, k + "-aligned-hwm", who << " getAlignedHighwaterMark " << p.getAlignedHighwaterMark() << " expected " << n.aligned_hwm);
    VH_CHECK(p.getAlignedHighwaterMark() >= n.aligned_hwm && p.getAlignedHighwaterMark() <= std::max(n.actual_hwm, n.aligned_hwm), k + "-aligned-hwm", who << " getAlignedHighwaterMark " << p.getAlignedHighwaterMark() << " model " << n.aligned_hwm << " actual hwm " << n.actual_hwm);
    vh::sig(std::string(kname(n.kind)) + "|a" + std::to_string(n.align) + "|h" + std::to_string(n.heur) + "|b" + std::to_string(std::min<size_t>(sp.blocks, 9)) + "|r" +
            std::to_string(std::min<size_t>(sp.rel_blocks, 5)) + "|f" + std::to_string(std::min<size_t>(sp.regions, 9)) + "|l" + std::to_string(std::min<size_t>(n.live.size(), 12)));
  }

  // Compare every public statistic of every node with the model.
  void check_all()
  {
    vh::check_flags();
    for (auto& np : nodes) {
      Node& n = *np;
      if (!n.s) continue;
      AllocationStrategy& s = *n.s;
      const std::string who = std::string(kname(n.kind)) + "[" + n.cfg + "]";
      if (n.stats_known) {
        size_t cur = n.cur, hwm = n.hwm, cnt = n.count;
        if (n.kind == FIXED) { cur = n.fixed_live * n.obj; hwm = n.fixed_hwm * n.obj; }
        if (n.kind == MONO) { cur = n.mono_used; hwm = n.cap; }
        VH_CHECK(n.alloc.getCurrentSize() == cur, std::string("stats:cur-") + kname(n.kind), who << " getCurrentSize " << n.alloc.getCurrentSize() << " but live allocations sum to " << cur);
        VH_CHECK(n.alloc.getAllocationCount() == cnt, std::string("stats:count-") + kname(n.kind), who << " getAllocationCount " << n.alloc.getAllocationCount() << " but " << cnt << " are live");
        VH_CHECK(n.alloc.getHighWatermark() == hwm, std::string("stats:hwm-") + kname(n.kind), who << " getHighWatermark " << n.alloc.getHighWatermark() << " expected " << hwm);
        if (n.kind != QUICK && n.kind != LIST && n.kind != FIXED && n.kind != MIXED)
          VH_CHECK(n.alloc.getActualSize() == cur, std::string("stats:actual-") + kname(n.kind), who << " getActualSize " << n.alloc.getActualSize() << " expected " << cur);
      }
      if (n.kind == QUICK) check_pool(n, static_cast<umpire::strategy::QuickPool&>(s));
      if (n.kind == LIST) check_pool(n, static_cast<umpire::strategy::DynamicPoolList&>(s));
      if (n.kind == FIXED) {
        auto& f = static_cast<umpire::strategy::FixedPool&>(s);
        VH_CHECK(f.numPools() == n.tap->held.size(), "pool:FixedPool-numPools", who << " numPools " << f.numPools() << " holds " << n.tap->held.size());
        size_t h = n.tap->held_bytes, slack = n.tap->held.size() * (n.nobj / 8 + 64);
        VH_CHECK(n.alloc.getActualSize() >= h && n.alloc.getActualSize() <= h + slack, "pool:FixedPool-actual", who << " getActualSize " << n.alloc.getActualSize() << " but holds " << h);
        VH_CHECK(n.fixed_live <= n.tap->held.size() * n.nobj, "pool:FixedPool-capacity", who << " more live objects than slots");
      }
      if (n.kind == MIXED) {
        size_t h = n.tap->held_bytes, k = n.tap->held.size();
        VH_CHECK(n.alloc.getActualSize() + k * n.align >= h && n.alloc.getActualSize() <= h + k * 320, "pool:MixedPool-actual", who << " getActualSize " << n.alloc.getActualSize() << " but holds " << h);
      }
    }
    vh::check_flags();
  }

  // ------------------------------------------------ user operations
  // All bytes; of a vast allocation the two ends and what lies around the powers of two.
  static size_t next_byte(size_t i, size_t n)
  {
    if (n <= (size_t(1) << 21)) return i + 1;
    if (i < 64) return i + 1;
    for (int b = 21; b < 48 && (size_t(1) << b) < n; ++b) {
      size_t m = (size_t(1) << b) - 8;
      if (i < m) return m;
      if (i < m + 16) return i + 1;
    }
    return std::max(i + 1, n - 64);
  }
  static void fill(void* p, size_t n, std::uint64_t pat)
  {
    unsigned char* c = static_cast<unsigned char*>(p);
    for (size_t i = 0; i < n; i = next_byte(i, n)) c[i] = static_cast<unsigned char>((pat >> ((i % 7) * 8)) + i);
  }
  static long verify(const void* p, size_t n, std::uint64_t pat)
  {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i = next_byte(i, n))
      if (c[i] != static_cast<unsigned char>((pat >> ((i % 7) * 8)) + i)) return long(i);
    return -1;
  }
  void verify_live(Node& n, std::uintptr_t a, const Live& l)
  {
    if (!l.user || l.zero) return;
    long bad = verify(reinterpret_cast<void*>(a), l.size, l.pat);
    VH_CHECK(bad < 0, "content:changed", kname(n.kind) << "[" << n.cfg << "] live allocation " << (void*)a << "+" << l.size << " changed at byte " << bad);
  }
  void verify_contents()
  {
    for (auto& n : nodes)
      for (auto& l : n->live) verify_live(*n, l.first, l.second);
  }

  struct Snap {
    std::vector<std::array<size_t, 4>> v;
  };
  Snap snapshot()
  {
    Snap s;
    for (auto& n : nodes) {
      if (!n->s) { s.v.push_back({{0, 0, 0, 0}}); continue; }
      s.v.push_back({{n->alloc.getCurrentSize(), n->alloc.getAllocationCount(), n->alloc.getHighWatermark(), n->alloc.getActualSize()}});
    }
    return s;
  }

  // Returns the pointer or nullptr when the allocator refused.
  void* user_alloc(Node& n, size_t bytes, bool named)
  {
    std::string nm = named ? ("n" + std::to_string(serial)) : "";
    n.below_failed = false;
    root->failing_called = false;
    std::uint64_t grown0 = n.tap ? n.tap->n_alloc : 0;
    Space before;
    size_t pfree = 0;
    const bool crowded = n.live.size() > 20000;  // the free space of such a pool is not recomputed at every step
    if (n.pool() && bytes && !crowded) before = space(n);
    if (n.kind == FIXED && bytes) pfree = n.tap->held.size() * n.nobj - n.fixed_live;
    bool had_fail0 = n.tap ? n.tap->n_fail != 0 : false;
    std::uint64_t nf0 = n.tap ? n.tap->n_fail : 0;
    (void)had_fail0;
    Snap s0 = snapshot();
    void* p = nullptr;
    try {
      vh::tr("alloc node%d(%s) %zu%s", n.index, kname(n.kind), bytes, named ? " named" : "");
      p = named ? n.alloc.allocate(nm, bytes) : n.alloc.allocate(bytes);
      vh::tr("  -> %p", p);
      vh::step("alloc", bytes, n.index);
    } catch (umpire::out_of_memory_error& e) {
      vh::tr("  -> OOM");
      vh::step("oom", bytes, n.index);
      vh::count("refused");
      bool below = n.tap && n.tap->n_fail != nf0;
      if (n.kind == ROOT) below = root->failing_called;
      model_refused(n, bytes, below);
      VH_CHECK(e.requested_size() == bytes, "fault:error-size", kname(n.kind) << " out_of_memory_error says " << e.requested_size() << " bytes, the request was " << bytes << (named ? " (named)" : ""));
      VH_CHECK(e.get_allocator_id() == n.alloc.getId(), "fault:error-id", kname(n.kind) << " out_of_memory_error names allocator " << e.get_allocator_id() << ", the request went to " << n.alloc.getId() << (named ? " (named)" : ""));
      after_failure(n, s0);
      check_gave_up(n, bytes);
      return nullptr;
    } catch (umpire::runtime_error& e) {
      vh::tr("  -> refused");
      vh::step("refused", bytes, n.index);
      vh::count("refused");
      bool below = n.tap && n.tap->n_fail != nf0;
      model_refused(n, bytes, below);
      after_failure(n, s0);
      check_gave_up(n, bytes);
      return nullptr;
    }
    vh::count("alloc");
    VH_CHECK(bytes <= (size_t(1) << 40), std::string("oversize:accepted-") + kname(n.kind), kname(n.kind) << "[" << n.cfg << "] accepted a request of " << bytes << " bytes");
    std::uint64_t pat = vh::mix(serial, 77);
    model_alloc(n, p, bytes, true, bytes == 0, pat, nm);
    vh::check_flags();
    if (bytes) {
      if (n.pool() && !crowded) {
        std::uint64_t g = n.tap->n_alloc - grown0;
        if (before.largest >= n.rounded(bytes))
          VH_CHECK(g == 0, std::string("reuse:") + kname(n.kind), kname(n.kind) << "[" << n.cfg << "] took a new block from its parent for " << bytes << " bytes although a free region of " << before.largest << " was available");
        else
        {
          VH_CHECK(g == 1, std::string("reuse:grow-") + kname(n.kind), kname(n.kind) << " took " << g << " blocks for one allocation");
          auto h = n.tap->held.upper_bound(reinterpret_cast<std::uintptr_t>(p));
          size_t want = std::max(n.rounded(bytes), before.blocks ? n.next : n.first) + n.align, got = h == n.tap->held.begin() ? 0 : std::prev(h)->second;
          VH_CHECK(got == want, std::string("pool:") + kname(n.kind) + "-grow-size", kname(n.kind) << "[" << n.cfg << "] with " << before.blocks << " blocks took one of " << got << " bytes for a request of " << bytes << ", expected " << want);
        }
      }
      if (n.kind == FIXED) {
        std::uint64_t g = n.tap->n_alloc - grown0;
        VH_CHECK(g == (pfree ? 0u : 1u), "reuse:FixedPool", "FixedPool[" << n.cfg << "] took " << g << " new blocks with " << pfree << " free objects available");
      }
      fill(p, bytes, pat);
    }
    // introspection of the fresh allocation
    auto& rm = umpire::ResourceManager::getInstance();
    if (n.tracked) {
      VH_CHECK(rm.getSize(p) == bytes, "introspect:size", "getSize(" << p << ") is " << rm.getSize(p) << " expected " << bytes);
      VH_CHECK(rm.getAllocator(p).getAllocationStrategy() == n.s, "introspect:owner", "getAllocator(" << p << ") is not the allocating allocator");
      if (named) VH_CHECK(rm.findAllocationRecord(p)->name == nm, "introspect:name", "record name is '" << rm.findAllocationRecord(p)->name << "' expected '" << nm << "'");
    }
    return p;
  }
  void after_failure(Node& n, const Snap& s0)
  {
    Snap s1 = snapshot();
    for (size_t i = 0; i < nodes.size(); ++i) {
      Node& m = *nodes[i];
      if (!m.s) continue;
      bool is_anc = false;
      bool pool_below = false, pool_incl = false;  // a pool between n and m may coalesce what it gets back
      for (Node* q = &n; q; q = q->parent) {
        if (q == &m) is_anc = true;
        bool c = q != &n && (q->kind == QUICK || q->kind == LIST || q->kind == MIXED);
        if (!is_anc) pool_below |= c;
        if (q == &m) pool_incl = pool_below || c;
      }
      if (is_anc && pool_below) continue;
      const char* kn = kname(m.kind);
      // An ancestor of the refused request may have seen blocks handed back
      // (pools give up free blocks and retry); nothing may have grown.
      if (&m == &n || !is_anc) {
        VH_CHECK(s1.v[i][0] == s0.v[i][0], std::string("fault:cur-") + kn, kn << "[" << m.cfg << "] getCurrentSize went " << s0.v[i][0] << " -> " << s1.v[i][0] << " across a refused request");
        VH_CHECK(s1.v[i][1] == s0.v[i][1], std::string("fault:count-") + kn, kn << "[" << m.cfg << "] getAllocationCount went " << s0.v[i][1] << " -> " << s1.v[i][1] << " across a refused request");
      } else {
        if (m.kind != MONO)
          VH_CHECK(s1.v[i][0] <= s0.v[i][0], std::string("fault:cur-") + kn, kn << "[" << m.cfg << "] getCurrentSize grew " << s0.v[i][0] << " -> " << s1.v[i][0] << " across a refused request");
        VH_CHECK(s1.v[i][1] <= s0.v[i][1], std::string("fault:count-") + kn, kn << "[" << m.cfg << "] getAllocationCount grew " << s0.v[i][1] << " -> " << s1.v[i][1] << " across a refused request");
      }
      if (is_anc && pool_incl) continue;
      VH_CHECK(s1.v[i][2] == s0.v[i][2], std::string("fault:hwm-") + kn, kn << "[" << m.cfg << "] getHighWatermark went " << s0.v[i][2] << " -> " << s1.v[i][2] << " across a refused request");
      if (m.kind != MONO)
        VH_CHECK(s1.v[i][3] <= s0.v[i][3], std::string("fault:actual-") + kn, kn << "[" << m.cfg << "] getActualSize grew " << s0.v[i][3] << " -> " << s1.v[i][3] << " across a refused request");
    }
    for (auto& m : nodes)
      if (m->live.size() > 20000) continue;
      else for (auto& l : m->live)
        if (l.second.user && !l.second.zero)
          VH_CHECK(verify(reinterpret_cast<void*>(l.first), l.second.size, l.second.pat) < 0, "fault:content", kname(m->kind) << "[" << m->cfg << "] a live allocation of " << l.second.size << " bytes changed across a refused request");
    vh::check_flags();
  }
  // A pool gives back what it holds unused before it lets a request fail.
  void check_gave_up(Node& n, size_t bytes)
  {
    if (!n.pool() || bytes > (size_t(1) << 40) || n.live.size() > 20000) return;
    Space sp = space(n);
    VH_CHECK(sp.rel_blocks == 0, std::string("fault:keeps-") + kname(n.kind), kname(n.kind) << "[" << n.cfg << "] lets a request of " << bytes << " bytes fail while it holds " << sp.rel_blocks << " unused blocks of its parent");
  }

  void user_dealloc(Node& n, std::uintptr_t a, bool via_rm)
  {
    auto it = n.live.find(a);
    Live l = it->second;
    verify_live(n, a, l);
    vh::step("free", l.serial, n.index);
    vh::tr("free node%d(%s) %p size %zu%s", n.index, kname(n.kind), (void*)a, l.size, via_rm ? " via rm" : "");
    auto& rm = umpire::ResourceManager::getInstance();
    const size_t most = growth_bound(n);
    model_dealloc(n, reinterpret_cast<void*>(a));
    if (via_rm && n.tracked) rm.deallocate(reinterpret_cast<void*>(a));
    else n.alloc.deallocate(reinterpret_cast<void*>(a));
    vh::count("dealloc");
    vh::check_flags();
    // A released address is unknown unless another tracked allocation covers it.
    if (n.tracked) {
      bool covered = false;
      for (auto& m : nodes)
        for (auto o = m->live.upper_bound(a); o != m->live.begin() && !covered;) {  // allocations of one strategy are disjoint
          --o;
          if (o->second.user && a < o->first + std::max<size_t>(o->second.size, 1)) covered = true;
          if (!o->second.zero && o->first != a) break;
        }
      if (!covered) VH_CHECK(!rm.hasAllocator(reinterpret_cast<void*>(a)), "introspect:stale", "hasAllocator is still true for freed " << (void*)a);
    }
    if (n.pool()) check_coalesced(n);
    check_growth(n, most);
  }
  // Giving memory back or coalescing replaces free blocks; it never makes the pool bigger than it was
  // (or than the high watermark a *_hwm heuristic asks for), up to one minimum block.
  size_t growth_bound(Node& n)
  {
    if (!n.pool()) return 0;
    size_t hw = n.heur == 1 || n.heur == 3 ? (n.kind == QUICK ? static_cast<umpire::strategy::QuickPool&>(*n.s).getAlignedHighwaterMark()
                                                              : static_cast<umpire::strategy::DynamicPoolList&>(*n.s).getAlignedHighwaterMark())
                                           : 0;
    return std::max(n.alloc.getActualSize(), hw) + std::max(n.first, n.next) + n.align;
  }
  void check_growth(Node& n, size_t most)
  {
    if (!n.pool()) return;
    size_t now = n.alloc.getActualSize();
    VH_CHECK(now <= most, std::string("coalesce:") + kname(n.kind) + "-grows", kname(n.kind) << "[" << n.cfg << "] holds " << now << " bytes after memory was given back or coalesced, at most " << most << " were expected");
  }
  // Heuristic postconditions after a deallocate or coalesce().
  void check_coalesced(Node& n)
  {
    if (n.heur < 0 || n.live.size() > 20000) return;
    Space sp = space(n);
    const std::string k = std::string("coalesce:") + kname(n.kind);
    if (n.heur == 0 || n.heur == 1) {  // blocks_releasable[_hwm](k)
      size_t lim = std::max<size_t>(n.heur_arg, 2);
      VH_CHECK(sp.rel_blocks < lim, k + "-blocks", kname(n.kind) << "[" << n.cfg << "] still has " << sp.rel_blocks << " completely free blocks after a deallocate with a blocks_releasable(" << n.heur_arg << ") heuristic");
    } else if (n.heur_arg == 0) {
    } else if (n.heur_arg == 100) {
      if (nonzero_live(n) == 0)
        VH_CHECK(sp.blocks <= 1, k + "-percent100", kname(n.kind) << "[" << n.cfg << "] still holds " << sp.blocks << " free blocks after everything was deallocated");
    } else {
      VH_CHECK(sp.rel_blocks <= 1 || double(sp.rel_bytes) < double(n.heur_arg) / 100.0 * double(sp.actual) + 1.0, k + "-percent",
               kname(n.kind) << "[" << n.cfg << "] has " << sp.rel_blocks << " free blocks with " << sp.rel_bytes << " of " << sp.actual << " bytes after a deallocate");
    }
  }
  void user_release(Node& n)
  {
    vh::step("release", n.index);
    vh::tr("release node%d(%s)", n.index, kname(n.kind));
    size_t c0 = n.alloc.getCurrentSize();
    n.alloc.release();
    vh::count("release");
    VH_CHECK(n.alloc.getCurrentSize() == c0, "pool:release-current", kname(n.kind) << " release() changed getCurrentSize " << c0 << " -> " << n.alloc.getCurrentSize());
    if (n.pool()) {
      Space sp = space(n);
      VH_CHECK(sp.rel_blocks == 0, std::string("pool:release-keeps-") + kname(n.kind), kname(n.kind) << "[" << n.cfg << "] release() kept " << sp.rel_blocks << " completely unused blocks");
    }
    if (n.kind == FIXED) {
      for (auto& h : n.tap->held) {
        auto it = n.live.lower_bound(h.first);
        while (it != n.live.end() && it->second.zero) ++it;
        VH_CHECK(it != n.live.end() && it->first < h.first + h.second, "pool:release-keeps-FixedPool", "FixedPool[" << n.cfg << "] release() kept an unused block");
      }
    }
    vh::check_flags();
    verify_contents();
  }
  void user_coalesce(Node& n)
  {
    vh::step("coalesce", n.index);
    vh::tr("coalesce node%d", n.index);
    size_t c0 = n.alloc.getCurrentSize();
    const size_t most = growth_bound(n);
    switch (n.pool() ? rng.below(3) : 1 + rng.below(2)) {
      case 0:
        if (n.kind == QUICK) static_cast<umpire::strategy::QuickPool&>(*n.s).coalesce();
        else static_cast<umpire::strategy::DynamicPoolList&>(*n.s).coalesce();
        break;
      case 1: {
        bool did = umpire::try_coalesce(n.alloc);
        VH_CHECK(did == n.pool(), std::string("coalesce:try-") + kname(n.kind), "try_coalesce of a " << kname(n.kind) << " answers " << did);
        break;
      }
      default: {
        bool threw = false;
        try { umpire::coalesce(n.alloc); } catch (umpire::runtime_error&) { threw = true; }
        VH_CHECK(threw == !n.pool(), std::string("coalesce:call-") + kname(n.kind), "coalesce of a " << kname(n.kind) << (threw ? " is refused" : " is accepted"));
      }
    }
    if (!n.pool()) return;
    vh::count("coalesce");
    VH_CHECK(n.alloc.getCurrentSize() == c0, "coalesce:current", "coalesce() changed getCurrentSize");
    vh::check_flags();
    check_coalesced(n);
    check_growth(n, most);
    verify_contents();
  }

  // ------------------------------------------------ construction
  void make_root(size_t skew)
  {
    auto n = std::unique_ptr<Node>(new Node);
    root.reset(new VRoot("vroot", 1000, skew));
    n->kind = ROOT;
    n->index = 0;
    n->alloc = AllocatorTest::wrap(root.get());
    n->cfg = "skew" + std::to_string(skew);
    nodes.push_back(std::move(n));
    nodes[0]->s = root.get();
  }

  Node& add(Kind k, Node& parent, const std::function<void(Node&)>& set = nullptr)
  {
    using namespace umpire::strategy;
    auto np = std::unique_ptr<Node>(new Node);
    Node& n = *np;
    n.kind = k;
    n.index = int(nodes.size());
    n.parent = &parent;
    static const size_t aligns[] = {1, 2, 4, 8, 16, 16, 32, 64, 128, 256, 4096};
    static const size_t mins[] = {1, 64, 100, 256, 1000, 1024, 4096, 16384};
    n.align = aligns[rng.below(11)];
    n.first = mins[rng.below(8)];
    n.next = mins[rng.below(8)];
    n.obj = rng.chance(1, 3) ? rng.range(1, 40) : rng.range(8, 600);
    n.nobj = rng.chance(1, 4) ? rng.range(1, 4) : rng.range(1, 100);
    n.cap = rng.range(256, 60000);
    n.slots = rng.range(1, 12);
    n.heur = int(rng.below(5)) - 1;
    n.heur_arg = n.heur < 2 ? rng.range(0, 5) : std::vector<size_t>{0, 1, 25, 50, 75, 99, 100}[rng.below(7)];
    n.mix_small = rng.range(1, 64);
    n.mix_large = n.mix_small * rng.range(1, 64);
    n.mix_max = rng.range(64, 8192);
    n.mix_mult = rng.range(2, 8);
    if (k == ALIGN) n.align = size_t(16) << rng.below(9);
    if (k == MIXED) n.align = size_t(1) << rng.below(9);
    if (set) set(n);
    n.tap.reset(new Tap("tap" + std::to_string(n.index), 2000 + n.index, &n, &parent));
    umpire::Allocator pa = AllocatorTest::wrap(n.tap.get());
    std::string name = "node" + std::to_string(n.index);
    int id = 100 + n.index;
    nodes.push_back(std::move(np));
    switch (k) {
      case QUICK: {
        PoolCoalesceHeuristic<QuickPool> h = n.heur == 0   ? QuickPool::blocks_releasable(n.heur_arg)
                                             : n.heur == 1 ? QuickPool::blocks_releasable_hwm(n.heur_arg)
                                             : n.heur == 2 ? QuickPool::percent_releasable(int(n.heur_arg))
                                             : n.heur == 3 ? QuickPool::percent_releasable_hwm(int(n.heur_arg))
                                                           : [](const QuickPool&) { return size_t(0); };
        n.own.reset(new QuickPool(name, id, pa, n.first, n.next, n.align, h));
        n.cfg = "f" + std::to_string(n.first) + " n" + std::to_string(n.next) + " a" + std::to_string(n.align) + " h" + std::to_string(n.heur) + ":" + std::to_string(n.heur_arg);
        break;
      }
      case LIST: {
        PoolCoalesceHeuristic<DynamicPoolList> h = n.heur == 0   ? DynamicPoolList::blocks_releasable(n.heur_arg)
                                                   : n.heur == 1 ? DynamicPoolList::blocks_releasable_hwm(n.heur_arg)
                                                   : n.heur == 2 ? DynamicPoolList::percent_releasable(int(n.heur_arg))
                                                   : n.heur == 3 ? DynamicPoolList::percent_releasable_hwm(int(n.heur_arg))
                                                                 : [](const DynamicPoolList&) { return size_t(0); };
        n.own.reset(new DynamicPoolList(name, id, pa, n.first, n.next, n.align, h));
        n.cfg = "f" + std::to_string(n.first) + " n" + std::to_string(n.next) + " a" + std::to_string(n.align) + " h" + std::to_string(n.heur) + ":" + std::to_string(n.heur_arg);
        break;
      }
      case FIXED:
        n.cfg = "o" + std::to_string(n.obj) + " n" + std::to_string(n.nobj);
        n.own.reset(new FixedPool(name, id, pa, n.obj, n.nobj));
        break;
      case SLOT:
        n.cfg = "s" + std::to_string(n.slots);
        n.own.reset(new SlotPool(name, id, pa, n.slots));
        break;
      case MIXED:
        n.cfg = "s" + std::to_string(n.mix_small) + " l" + std::to_string(n.mix_large) + " m" + std::to_string(n.mix_max) + " x" + std::to_string(n.mix_mult) + " a" + std::to_string(n.align);
        n.own.reset(new MixedPool(name, id, pa, n.mix_small, n.mix_large, n.mix_max, n.mix_mult, n.first, n.next, n.align));
        break;
      case MONO:
        n.cfg = "c" + std::to_string(n.cap);
        n.own.reset(new MonotonicAllocationStrategy(name, id, pa, n.cap));
        break;
      case LIMIT:
        n.cfg = "c" + std::to_string(n.cap);
        n.own.reset(new SizeLimiter(name, id, pa, n.cap));
        break;
      case ALIGN:
        n.cfg = "a" + std::to_string(n.align);
        n.own.reset(new AlignedAllocator(name, id, pa, n.align));
        break;
      case TSAFE: n.own.reset(new ThreadSafeAllocator(name, id, pa)); break;
      case SHIM: n.own.reset(new NamingShim(name, id, pa)); break;
      case NAMED: n.own.reset(new NamedAllocationStrategy(name, id, pa)); break;
      default: std::abort();
    }
    n.s = n.own.get();
    n.alloc = AllocatorTest::wrap(n.s);
    return n;
  }

  // Construct a strategy while the resource is failing: the constructor either
  // succeeds or throws, and when it throws it keeps nothing.
  Node* try_add(Kind k, Node& parent)
  {
    root->fail_in = long(rng.below(5));
    root->fail_len = int(rng.range(1, 4));
    std::uint64_t fails0 = root->n_fail;
    size_t n0 = nodes.size();
    try {
      Node& n = add(k, parent);
      root->fail_in = -1;
      vh::step("ctor", k);
      return &n;
    } catch (umpire::runtime_error& e) {
      root->fail_in = -1;
      vh::step("ctor-refused", k);
      vh::count("ctor_refused");
      VH_CHECK(root->n_fail != fails0, std::string("fault:ctor-spurious-") + kname(k), kname(k) << " constructor failed (" << e.what() << ") although the resource did not");
      VH_CHECK(nodes.size() == n0 + 1 && nodes.back()->tap->held.empty(), std::string("fault:ctor-held-") + kname(k), kname(k) << " constructor threw but kept " << nodes.back()->tap->held.size() << " blocks of its parent");
      nodes.pop_back();
      vh::check_flags();
      return nullptr;
    }
  }

  // Free everything the user still holds and destroy top-down; every strategy
  // must then have handed back every block it took.
  void destroy()
  {
    for (auto& n : nodes) {
      std::vector<std::uintptr_t> u;
      for (auto& l : n->live) if (l.second.user) u.push_back(l.first);
      for (size_t i = u.size(); i > 1; --i) std::swap(u[i - 1], u[rng.below(i)]);
      for (auto a : u) user_dealloc(*n, a, false);
    }
    check_all();
    for (size_t i = nodes.size(); i-- > 1;) {
      Node& n = *nodes[i];
      vh::tr("destroy node%d(%s)", n.index, kname(n.kind));
      n.s = nullptr;
      n.own.reset();
      VH_CHECK(n.tap->held.empty(), std::string("conserve:destroy-") + kname(n.kind), kname(n.kind) << "[" << n.cfg << "] destroyed without live allocations but kept " << n.tap->held.size() << " blocks (" << n.tap->held_bytes << " bytes) of its parent");
      vh::check_flags();
      check_all();
    }
    VH_CHECK(root->live.empty(), "conserve:root", "resource still has " << root->live.size() << " blocks outstanding");
    abandon();
  }
  void abandon()
  {
    for (size_t i = nodes.size(); i-- > 1;) { nodes[i]->s = nullptr; nodes[i]->own.reset(); }
    clean = true;
  }
};

// ---------------------------------------------------------------- Tap impl
inline Tap::Tap(const std::string& name, int id, Node* up, Node* down)
    : AllocationStrategy{name, id, down->s, "Tap"}, m_up{up}, m_down{down}
{
}
inline Platform Tap::getPlatform() noexcept { return m_down->s->getPlatform(); }
inline umpire::MemoryResourceTraits Tap::getTraits() const noexcept { return m_down->s->getTraits(); }
inline void* Tap::do_alloc(const std::string* name, size_t bytes)
{
  World& w = *W();
  std::uint64_t nf0 = m_down->tap ? m_down->tap->n_fail : 0;
  w.root->failing_called = false;
  void* p = nullptr;
  try {
    p = name ? m_down->s->allocate_named_internal(*name, bytes) : m_down->s->allocate_internal(bytes);
  } catch (...) {
    n_fail++;
    bool below = m_down->kind == ROOT ? w.root->failing_called : m_down->tap->n_fail != nf0;
    w.model_refused(*m_down, bytes, below);
    throw;
  }
  vh::tr("    block %s -> %s %zu = %p", kname(m_up->kind), kname(m_down->kind), bytes, p);
  VH_FLAG(p != nullptr, std::string("disjoint:null-") + kname(m_down->kind), kname(m_down->kind) << " handed nullptr to a strategy built on it");
  if (!p) {
    n_fail++;
    UMPIRE_ERROR(umpire::out_of_memory_error, "tap: parent returned nullptr");
  }
  if (bytes > (size_t(1) << 40))
    vh::flag(std::string("oversize:accepted-") + kname(m_down->kind), std::string(kname(m_down->kind)) + " accepted an oversize block");
  w.model_alloc(*m_down, p, bytes, false, false, 0, "");
  held[reinterpret_cast<std::uintptr_t>(p)] = bytes;
  held_bytes += bytes;
  n_alloc++;
  if (m_up->pool()) m_up->actual_hwm = std::max(m_up->actual_hwm, held_bytes - held.size() * m_up->align);
  return p;
}
inline void Tap::deallocate(void* ptr, size_t size)
{
  World& w = *W();
  auto a = reinterpret_cast<std::uintptr_t>(ptr);
  auto it = held.find(a);
  const std::string k = kname(m_up->kind);
  vh::tr("    return %s -> %s %p size %zu", kname(m_up->kind), kname(m_down->kind), ptr, size);
  VH_FLAG(it != held.end(), "conserve:foreign-" + k, k << "[" << m_up->cfg << "] returned " << ptr << " to its parent, which it does not hold");
  if (it == held.end()) return;
  VH_FLAG(size == it->second, "conserve:size-" + k, k << "[" << m_up->cfg << "] returned a block of " << it->second << " bytes as " << size << " bytes");
  // No live allocation of the strategy may still lie in the returned block.
  auto l = m_up->live.lower_bound(a);
  bool inuse = l != m_up->live.end() && l->first < a + it->second && !l->second.zero;
  if (m_up->kind == MONO) inuse = false;
  VH_FLAG(!inuse, "conserve:inuse-" + k, k << "[" << m_up->cfg << "] returned block " << ptr << "+" << it->second << " to its parent while " << (void*)(inuse ? l->first : 0) << " inside it is live");
  size_t real = it->second;
  held_bytes -= real;
  held.erase(it);
  n_dealloc++;
  w.model_dealloc(*m_down, ptr);
  m_down->s->deallocate_internal(ptr, size == real ? size : real);
}

}  // namespace world
#endif
