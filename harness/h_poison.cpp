// Built with Umpire's sanitizer support: which bytes may be touched, after every operation.
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"
#ifndef VH_ASAN
#error this monitor needs the address sanitizer
#endif

class AllocatorTest {
 public:
  static umpire::Allocator wrap(umpire::strategy::AllocationStrategy* s) { return umpire::Allocator(s); }
};
using U = std::uint64_t;
using std::size_t;
using umpire::strategy::AllocationStrategy;
namespace st = umpire::strategy;

// A resource that reuses its addresses itself, so that nothing but the library
// changes what may be touched.
class Slab : public AllocationStrategy {
 public:
  static constexpr size_t N = size_t(1) << 20;
  Slab(int id, size_t skew) : AllocationStrategy{"slab" + std::to_string(id), id, nullptr, "Slab"}, skew{skew}
  {
    if (posix_memalign(reinterpret_cast<void**>(&mem), 4096, N)) std::abort();
    gaps[mem] = N;
  }
  ~Slab() override { ASAN_UNPOISON_MEMORY_REGION(mem, N); std::free(mem); }
  umpire::Platform getPlatform() noexcept override { return plat; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return {}; }
  std::map<char*, size_t> live;
  umpire::Platform plat{umpire::Platform::host};
  bool refuse{false};

 private:
  char* mem;
  size_t skew;
  std::map<char*, size_t> gaps;
  void* allocate(size_t b) override
  {
    if (refuse) UMPIRE_ERROR(umpire::out_of_memory_error, "slab: refused");
    size_t n = (b + skew + 63) / 64 * 64;
    for (auto it = gaps.begin(); it != gaps.end(); ++it) {
      if (it->second < n) continue;
      char* g = it->first;
      size_t k = it->second;
      gaps.erase(it);
      if (k > n) gaps[g + n] = k - n;
      live[g + skew] = b;
      size[g + skew] = n;
      return g + skew;
    }
    UMPIRE_ERROR(umpire::out_of_memory_error, "slab: full");
  }
  std::map<char*, size_t> size;
  void deallocate(void* p, size_t) override
  {
    char* c = static_cast<char*>(p);
    char* g = c - skew;
    size_t n = size[c];
    live.erase(c);
    size.erase(c);
    auto it = gaps.emplace(g, n).first;
    auto nx = std::next(it);
    if (nx != gaps.end() && it->first + it->second == nx->first) { it->second += nx->second; gaps.erase(nx); }
    if (it != gaps.begin()) {
      auto pv = std::prev(it);
      if (pv->first + pv->second == it->first) { pv->second += it->second; gaps.erase(it); }
    }
  }
};

struct Live {
  char* p;
  size_t n;
  int a;  // 0: the stack's top, 1: straight from the resource
};
static int next_id = 7000000;

static void one_case(vh::Rng& r, U)
{
  Slab slab(next_id++, r.chance(1, 2) ? 0 : r.range(1, 7) * 8);
  const bool foreign = r.chance(1, 10);
  if (foreign) slab.plat = umpire::Platform::undefined;
  umpire::Allocator root = AllocatorTest::wrap(&slab);
  std::vector<std::unique_ptr<AllocationStrategy>> own;
  AllocationStrategy* cur = &slab;
  std::string shape = foreign ? "foreign/" : "";
  size_t align = 16, fixed = 0;
  bool pool = false, named = false;
  auto nm = [&](const char* k) { return std::string(k) + std::to_string(next_id); };
  const int depth = int(r.range(1, 3));
  std::string topk;
  for (int i = 0; i < depth; ++i) {
    umpire::Allocator par = AllocatorTest::wrap(cur);
    AllocationStrategy* n = nullptr;
    size_t al = size_t(8) << r.below(4);
    switch (r.below(fixed ? 2 : 8)) {
      case 0: n = new st::NamedAllocationStrategy(nm("n"), next_id++, par); topk = "named"; break;
      case 1: n = new st::ThreadSafeAllocator(nm("t"), next_id++, par); topk = "ts"; break;
      case 2: case 3: {
        auto h = r.chance(1, 2) ? st::QuickPool::percent_releasable(int(r.range(0, 100))) : st::QuickPool::blocks_releasable(r.range(2, 4));
        n = new st::QuickPool(nm("q"), next_id++, par, r.range(64, 4096), r.range(64, 2048), al, h); topk = "quick"; align = al; break; }
      case 4: case 5: {
        auto h = r.chance(1, 2) ? st::DynamicPoolList::percent_releasable(int(r.range(0, 100))) : st::DynamicPoolList::blocks_releasable(r.range(2, 4));
        n = new st::DynamicPoolList(nm("l"), next_id++, par, r.range(64, 4096), r.range(64, 2048), al, h); topk = "list"; align = al; break; }
      case 6:
        if (foreign) { n = new st::ThreadSafeAllocator(nm("t"), next_id++, par); topk = "ts"; break; }
        al = std::max(al, size_t(16));
        n = new st::AlignedAllocator(nm("a"), next_id++, par, al); topk = "aligned"; align = al; break;
      default: fixed = r.range(1, 16) * 8; n = new st::FixedPool(nm("f"), next_id++, par, fixed, r.range(1, 70)); topk = "fixed"; break;
    }
    own.emplace_back(n);
    cur = n;
    shape += topk + "/";
  }
  (void)named;
  pool = (topk == "quick" || topk == "list") && !foreign;
  umpire::Allocator top = AllocatorTest::wrap(cur);
  std::vector<Live> v;
  auto judge = [&](const char* w) {
    for (auto& l : v) {
      if (!l.n) continue;
      void* bad = __asan_region_is_poisoned(l.p, l.n);
      VH_CHECK(bad == nullptr, "poison:live", shape << " after " << w << ": byte " << static_cast<char*>(bad) - l.p << " of a live allocation of " << l.n << " must not be touched according to the sanitizer");
    }
    if (!pool) return;
    // everything the top pool holds beyond its live allocations is off limits, as far as whole granules go
    std::map<char*, size_t> mine;
    for (auto& l : v) if (l.a == 0 && l.n) mine[l.p] = l.n;
    std::map<char*, size_t> direct;
    for (auto& l : v) if (l.a == 1) direct[l.p] = l.n;
    if (depth > 1) {
      // only bytes right behind and freed allocations are surely the pool's
      for (auto& m : mine) if (m.second % 8) VH_CHECK(__asan_address_is_poisoned(m.first + m.second), "poison:behind", shape << " after " << w << ": the byte behind an allocation of " << m.second << " may be touched");
      return;
    }
    for (auto& b : slab.live) {
      if (direct.count(b.first)) continue;
      char* e = b.first + b.second;
      for (char* g = b.first; g + 8 <= e; g += 8) {
        auto it = mine.upper_bound(g);
        bool used = false;
        size_t inside = 0;
        if (it != mine.begin()) { auto pv = std::prev(it); if (pv->first + pv->second > g) { used = true; inside = size_t(pv->first + pv->second - g); } }
        if (it != mine.end() && it->first < g + 8) { used = true; inside = 8; }
        vh::evals();
        if (!used && !__asan_address_is_poisoned(g)) { VH_CHECK(false, "poison:free", shape << " after " << w << ": memory the pool holds, which is not allocated, may be touched"); }
        if (used && inside < 8 && !__asan_address_is_poisoned(g + inside)) { VH_CHECK(false, "poison:behind", shape << " after " << w << ": the byte behind an allocation may be touched"); }
      }
    }
  };
  const size_t ops = r.range(20, 120);
  int bias = 12;
  for (size_t i = 0; i < ops; ++i) {
    if (r.chance(1, 15)) bias = int(r.range(5, 16));
    U k = r.below(24);
    const char* w = "";
    if (int(k) < bias || v.empty()) {
      int a = r.chance(1, 6) ? 1 : 0;
      size_t n = a == 0 && fixed ? fixed : r.chance(1, 6) ? r.range(1, 5000) : r.range(1, 200);
      w = a ? "an allocation from the resource" : "allocate";
      try {
        if (r.chance(1, 20)) slab.refuse = true;
        void* p = (a ? root : top).allocate(n);
        v.push_back({static_cast<char*>(p), n, a});
        vh::step(w, n);
      } catch (umpire::runtime_error&) { vh::step("refused", n); vh::count("refused"); }
      slab.refuse = false;
      if (!v.empty() && v.back().n && !__asan_region_is_poisoned(v.back().p, v.back().n)) std::memset(v.back().p, 0x33, v.back().n);
    } else if (k < 20) {
      size_t x = r.below(v.size());
      Live l = v[x];
      v[x] = v.back();
      v.pop_back();
      (l.a ? root : top).deallocate(l.p);
      w = "deallocate";
      vh::step(w, l.n);
    } else if (k < 22) {
      top.release();
      w = "release";
      vh::step(w);
    } else {
      umpire::try_coalesce(top);
      w = "coalesce";
      vh::step(w);
    }
    judge(w);
  }
  for (auto& l : v) (l.a ? root : top).deallocate(l.p);
  v.clear();
  top.release();
  while (!own.empty()) own.pop_back();
  // everything is back at the resource: what it hands out now may be used
  if (slab.live.empty()) {
    size_t n = r.range(1, 5000);
    for (int i = 0; i < 40; ++i) {
      void* p = nullptr;
      try { p = root.allocate(n); } catch (umpire::runtime_error&) { break; }
      v.push_back({static_cast<char*>(p), n, 1});
    }
    for (auto& l : v) VH_CHECK(!__asan_region_is_poisoned(l.p, l.n), "poison:returned", shape << ": memory that went back to the resource stays off limits when it is handed out again");
    for (auto& l : v) root.deallocate(l.p);
    vh::count("slabs_checked_after_return");
  }
  vh::sig(shape);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "poison", one_case); }
