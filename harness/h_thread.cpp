// Threads sharing thread-safe allocators, the pointer map and the registry.
#include <atomic>
#include <deque>
#include <memory>
#include <thread>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

class AllocatorTest {
 public:
  static umpire::Allocator wrap(umpire::strategy::AllocationStrategy* s) { return umpire::Allocator(s); }
};

using U = std::uint64_t;
using umpire::strategy::AllocationStrategy;
using std::size_t;
namespace st = umpire::strategy;

// Per-thread judge: nothing here synchronises threads unless something is wrong.
struct Judge {
  U evals{0};
  std::string key, msg;
  std::map<std::string, U> counts;
  bool bad() const { return !key.empty(); }
};
#define TC(cond, k, m)                                                      \
  do {                                                                      \
    ++j.evals;                                                              \
    if (!(cond) && j.key.empty()) {                                         \
      std::ostringstream o_;                                                \
      o_ << m << "  [" #cond "]";                                           \
      j.key = k;                                                            \
      j.msg = o_.str();                                                     \
    }                                                                       \
  } while (0)

static void jitter(vh::Rng& r)
{
  U k = r.below(24);
  if (k == 0) std::this_thread::yield();
  else if (k < 4) { volatile int x = 0; for (U i = r.below(400); i; --i) x = x + 1; }
  else if (k == 4) ::usleep(useconds_t(r.below(60)));
}

static thread_local int tl_id = -1;

// The resource under a stack.  It is not thread safe itself: calls into it that
// overlap in time mean that the stack above did not synchronise.
class Root : public AllocationStrategy {
 public:
  explicit Root(const std::string& n, int id, U seed) : AllocationStrategy{n, id, nullptr, "Root"}, r{seed} {}
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return {}; }
  std::map<void*, size_t> live;
  vh::Rng r;
  std::atomic<int> inside{0};
  std::atomic<int> overlapped{0};
  std::string bad;
  U order{1469598103934665603ull};
  U calls{0}, switches{0};
  int last{-1};
  long fail_every{0};

 private:
  void enter()
  {
    if (inside.fetch_add(1, std::memory_order_relaxed) != 0) overlapped.store(1, std::memory_order_relaxed);
    ++calls;
    if (last != tl_id) ++switches;
    last = tl_id;
    order = (order ^ U(tl_id + 1)) * 1099511628211ull;
    jitter(r);
  }
  void leave() { inside.fetch_sub(1, std::memory_order_relaxed); }
  void* allocate(size_t b) override
  {
    enter();
    if (fail_every && long(r.below(U(fail_every))) == 0) {
      leave();
      UMPIRE_ERROR(umpire::out_of_memory_error, "Root: refused");
    }
    void* p = nullptr;
    if (posix_memalign(&p, 64, b ? b : 1)) { leave(); UMPIRE_ERROR(umpire::out_of_memory_error, "Root: out of memory"); }
    live[p] = b;
    leave();
    return p;
  }
  void deallocate(void* p, size_t n) override
  {
    enter();
    auto it = live.find(p);
    if (it == live.end()) bad = "a block was given back to the resource that it does not have";
    else if (n && n != it->second) bad = "a block was given back with another size";
    else { live.erase(it); std::free(p); }
    leave();
  }
};

struct Live {
  unsigned char* p;
  size_t n;
  int a;
  U seed;
};
static unsigned char pat(U s, size_t i) { return (unsigned char)((s + i * 7 + (i >> 8)) | 1); }
static void fill(const Live& l) { for (size_t i = 0; i < l.n; ++i) l.p[i] = pat(l.seed, i); }
static bool intact(const Live& l, size_t n)
{
  for (size_t i = 0; i < n; ++i) if (l.p[i] != pat(l.seed, i)) return false;
  return true;
}

// Claims: address ranges between the return of allocate and the call of deallocate.
struct Claims {
  std::mutex mu;
  std::map<std::uintptr_t, size_t> m;
  bool on{false};
  bool take(void* p, size_t n)
  {
    if (!on) return true;
    std::lock_guard<std::mutex> g(mu);
    auto a = reinterpret_cast<std::uintptr_t>(p);
    size_t k = n ? n : 1;
    auto it = m.lower_bound(a);
    bool ok = it == m.end() || a + k <= it->first;
    if (it != m.begin()) { --it; ok = ok && it->first + it->second <= a; }
    m[a] = k;
    return ok;
  }
  void give(void* p)
  {
    if (!on) return;
    std::lock_guard<std::mutex> g(mu);
    m.erase(reinterpret_cast<std::uintptr_t>(p));
  }
};

struct Stack {
  std::unique_ptr<Root> root;
  std::vector<std::unique_ptr<AllocationStrategy>> owned;
  std::unique_ptr<AllocationStrategy> top;
  std::unique_ptr<umpire::Allocator> a;
  std::string shape;
  size_t fixed{0}, limit{0};
  std::atomic<size_t> claimed{0};
};
static int next_id = 5000000;

static void build(Stack& s, vh::Rng& r, bool faults)
{
  static int uniq = 0;
  auto nm = [&](const char* k) { return std::string(k) + "_" + std::to_string(uniq++); };
  s.root.reset(new Root(nm("root"), next_id++, r.next()));
  if (faults) s.root->fail_every = long(r.range(3, 20));
  AllocationStrategy* cur = s.root.get();
  s.shape = faults ? "failing" : "";
  int depth = int(r.below(3));
  for (int i = 0; i < depth; ++i) {
    umpire::Allocator par = AllocatorTest::wrap(cur);
    AllocationStrategy* n = nullptr;
    long fe = s.root->fail_every;
    s.root->fail_every = 0;  // constructors are covered elsewhere
    switch (r.below(s.fixed ? 3 : 7)) {
      case 0: { size_t lim = r.range(2000, 60000); n = new st::SizeLimiter(nm("lim"), next_id++, par, lim); s.limit = s.limit ? std::min(s.limit, lim) : lim; s.shape += "limit/"; break; }
      case 1: n = new st::NamedAllocationStrategy(nm("named"), next_id++, par); s.shape += "named/"; break;
      case 2: n = new st::NamedAllocationStrategy(nm("named"), next_id++, par); s.shape += "named/"; break;
      case 3: n = new st::QuickPool(nm("quick"), next_id++, par, r.range(256, 8192), r.range(128, 4096), 16, r.chance(1, 2) ? st::QuickPool::percent_releasable(int(r.range(20, 100))) : st::QuickPool::blocks_releasable(r.range(2, 4))); s.shape += "quick/"; s.limit = 0; break;
      case 4: n = new st::DynamicPoolList(nm("list"), next_id++, par, r.range(256, 8192), r.range(128, 4096), 16, r.chance(1, 2) ? st::DynamicPoolList::percent_releasable(int(r.range(20, 100))) : st::DynamicPoolList::blocks_releasable(r.range(2, 4))); s.shape += "list/"; s.limit = 0; break;
      case 5: { s.fixed = r.range(1, 12) * 8; n = new st::FixedPool(nm("fixed"), next_id++, par, s.fixed, r.range(1, 70)); s.shape += "fixed/"; s.limit = 0; break; }
      default: n = new st::AlignedAllocator(nm("al"), next_id++, par, size_t(16) << r.below(4)); s.shape += "aligned/"; s.limit = 0; break;
    }
    s.root->fail_every = fe;
    s.owned.emplace_back(n);
    cur = n;
  }
  s.top.reset(new st::ThreadSafeAllocator(nm("ts"), next_id++, AllocatorTest::wrap(cur)));
  s.a.reset(new umpire::Allocator(AllocatorTest::wrap(s.top.get())));
}

struct Mail {
  std::mutex mu;
  std::deque<Live> q;
};

static void finish(std::vector<Judge>& js)
{
  for (auto& j : js) {
    vh::evals(j.evals);
    for (auto& c : j.counts) vh::count(c.first.c_str(), c.second);
  }
  for (auto& j : js) if (j.bad()) vh::fail(j.key, j.msg);
}

template <typename F>
static void threads(int n, F f)
{
  std::atomic<int> ready{0};
  std::vector<std::thread> t;
  for (int i = 0; i < n; ++i)
    t.emplace_back([&, i] {
      tl_id = i;
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
      f(i);
    });
  for (auto& x : t) x.join();
}

static void share_case(vh::Rng& r)
{
  auto& rm = umpire::ResourceManager::getInstance();
  (void)rm.getAllocator("HOST");  // resources are made on first use: that is registration, not judged here
  const bool faults = r.chance(1, 6);
  const int nt = int(r.range(2, 8)), na = faults ? 1 : int(r.range(1, 3));
  const int zero_rate = int(r.pick(std::vector<int>{0, 5, 40}));
  std::vector<Stack> s(na);
  std::string shape;
  for (auto& x : s) { build(x, r, faults); shape += x.shape + "ts "; }
  Claims claims;
  claims.on = vh::st().opt["claims"] == "1";
  Mail mail;
  std::vector<Judge> js(nt);
  std::vector<std::vector<Live>> left(nt);
  std::vector<U> seeds;
  for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
  const size_t ops = r.range(30, 200);
  vh::step(shape.c_str(), U(nt), seeds[0]);
  vh::tr("%d threads over %s, %zu operations each, faults %d", nt, shape.c_str(), ops, faults);
  auto body = [&](int t) {
    Judge& j = js[t];
    vh::Rng q(seeds[t]);
    std::vector<Live>& v = left[t];
    auto size_of = [&](int a) -> size_t {
      if (int(q.below(100)) < zero_rate) return 0;
      if (s[a].fixed) return s[a].fixed;
      return q.chance(1, 8) ? q.range(1, 6000) : q.range(1, 300);
    };
    auto got = [&](Live l, const char* how) {
      TC(l.p != nullptr, "race:null", how << " returned null");
      if (!l.p) return;
      TC(claims.take(l.p, l.n), "race:overlap", how << " returned " << l.n << " bytes that overlap memory another call handed out");
      if (s[l.a].limit) {
        size_t now = s[l.a].claimed.fetch_add(l.n, std::memory_order_relaxed) + l.n;
        TC(now <= s[l.a].limit, "race:limit", now << " bytes are live under a limit of " << s[l.a].limit);
      }
      fill(l);
      v.push_back(l);
    };
    auto drop = [&](const Live& l) {
      if (s[l.a].limit) s[l.a].claimed.fetch_sub(l.n, std::memory_order_relaxed);
      claims.give(l.p);
    };
    for (size_t i = 0; i < ops && !j.bad(); ++i) {
      jitter(q);
      U k = q.below(20);
      if (k < 7 || v.empty()) {
        int a = int(q.below(U(na)));
        size_t n = size_of(a);
        try {
          void* p = q.chance(1, 6) ? s[a].a->allocate("n" + std::to_string(q.below(9)), n) : s[a].a->allocate(n);
          got({static_cast<unsigned char*>(p), n, a, q.next()}, "allocate");
          j.counts[n ? "allocations" : "zero_allocations"]++;
        } catch (umpire::runtime_error& e) {
          TC(faults || s[a].shape.find("limit") != std::string::npos, "race:refused", "a request of " << n << " bytes was refused: " << std::string(e.what()).substr(0, 200));
          j.counts["refused"]++;
        }
      } else if (k < 12) {
        size_t x = q.below(v.size());
        Live l = v[x];
        v[x] = v.back();
        v.pop_back();
        TC(intact(l, l.n), "race:content", "the contents of an allocation changed");
        drop(l);
        try {
          if (q.chance(1, 3)) rm.deallocate(l.p); else s[l.a].a->deallocate(l.p);
        } catch (umpire::runtime_error& e) { TC(false, "race:free", "a live pointer could not be freed: " << std::string(e.what()).substr(0, 200)); }
        j.counts["frees"]++;
      } else if (k < 15) {
        const Live& l = v[q.below(v.size())];
        try {
          void* in = l.p + (l.n ? q.below(l.n) : 0);
          TC(rm.hasAllocator(in), "race:lookup", "a live pointer is not known");
          TC(rm.getAllocator(in).getAllocationStrategy() == s[l.a].top.get(), "race:lookup", "a live pointer is attributed to another allocator");
          TC(rm.getSize(in) == l.n, "race:lookup", "a live pointer of " << l.n << " bytes is reported with size " << rm.getSize(in));
          auto* rec = rm.findAllocationRecord(in);
          TC(rec && rec->ptr == l.p && rec->size == l.n, "race:lookup", "a live pointer has a wrong record");
        } catch (umpire::runtime_error& e) { TC(false, "race:lookup", "a live pointer is not known: " << std::string(e.what()).substr(0, 200)); }
        j.counts["lookups"]++;
      } else if (k == 15) {
        const Live& l = v[q.below(v.size())];
        TC(intact(l, l.n), "race:content", "the contents of an allocation changed");
      } else if (k == 16) {
        Live l = v.back();
        v.pop_back();
        std::lock_guard<std::mutex> g(mail.mu);
        mail.q.push_back(l);
        j.counts["handed_over"]++;
      } else if (k == 17) {
        std::lock_guard<std::mutex> g(mail.mu);
        if (!mail.q.empty()) { v.push_back(mail.q.front()); mail.q.pop_front(); }
      } else if (k == 18) {
        size_t x = q.below(v.size());
        Live l = v[x];
        if (s[l.a].fixed || !l.n) continue;
        size_t n = q.range(1, 400);
        v[x] = v.back();
        v.pop_back();
        drop(l);
        try {
          void* p = rm.reallocate(l.p, n);
          Live m{static_cast<unsigned char*>(p), n, l.a, l.seed};
          TC(intact(m, std::min(l.n, n)), "race:content", "reallocate lost contents");
          got(m, "reallocate");
        } catch (umpire::runtime_error& e) {
          TC(faults || s[l.a].shape.find("limit") != std::string::npos, "race:refused", "a reallocation was refused: " << std::string(e.what()).substr(0, 200));
          if (!claims.take(l.p, l.n)) TC(false, "race:overlap", "memory of a refused reallocation was handed out");
          if (s[l.a].limit) s[l.a].claimed.fetch_add(l.n, std::memory_order_relaxed);
          v.push_back(l);
        }
        j.counts["reallocations"]++;
      } else {
        Live& d = v[q.below(v.size())];
        Live& c = v[q.below(v.size())];
        if (d.p == c.p || !d.n || !c.n) continue;
        size_t n = q.range(1, std::min(d.n, c.n));
        try {
          rm.copy(d.p, c.p, n);
          for (size_t i2 = 0; i2 < n; ++i2) if (d.p[i2] != c.p[i2]) { TC(false, "race:content", "a copy is not exact"); break; }
          rm.memset(d.p, 3, n);
          TC(d.p[0] == 3 && d.p[n - 1] == 3, "race:content", "a fill is not exact");
        } catch (umpire::runtime_error& e) { TC(false, "race:lookup", "a copy between live allocations was refused: " << std::string(e.what()).substr(0, 200)); }
        fill(d);
        j.counts["copies"]++;
      }
    }
  };
  threads(nt, body);
  std::string pend;
  for (auto& x : s) {
    vh::evals();
    if (x.root->overlapped.load()) pend = "race:exclusion";
  }
  finish(js);
  if (!pend.empty()) vh::fail(pend, "two threads were inside the memory resource under one thread-safe allocator at the same time");
  // quiescent: the books agree with what the threads hold
  for (auto& l : mail.q) left[0].push_back(l);
  std::vector<size_t> sz(na, 0), cnt(na, 0);
  for (auto& v : left) for (auto& l : v) {
    sz[l.a] += l.n;
    cnt[l.a]++;
    VH_CHECK(intact(l, l.n), "race:content", "the contents of an allocation changed by the end");
  }
  for (int a = 0; a < na; ++a) {
    VH_CHECK(s[a].a->getCurrentSize() == sz[a], "race:stats", "after the threads ended current size is " << s[a].a->getCurrentSize() << ", live " << sz[a]);
    VH_CHECK(s[a].a->getAllocationCount() == cnt[a], "race:stats", "after the threads ended the count is " << s[a].a->getAllocationCount() << ", live " << cnt[a]);
    VH_CHECK(s[a].a->getHighWatermark() >= sz[a], "race:stats", "the high watermark is below the current size");
    VH_CHECK(umpire::get_allocator_records(*s[a].a).size() == cnt[a], "race:records", "after the threads ended there are " << umpire::get_allocator_records(*s[a].a).size() << " records for " << cnt[a] << " live allocations");
    VH_CHECK(s[a].root->bad.empty(), "race:resource", s[a].root->bad);
  }
  for (auto& v : left) for (auto& l : v) s[l.a].a->deallocate(l.p);
  U order = 0, calls = 0, sw = 0;
  for (auto& x : s) {
    VH_CHECK(x.a->getCurrentSize() == 0 && x.a->getAllocationCount() == 0, "race:stats", "something is still accounted for after freeing everything");
    x.root->fail_every = 0;
    x.a.reset();
    x.top.reset();
    while (!x.owned.empty()) x.owned.pop_back();
    VH_CHECK(x.root->live.empty() && x.root->bad.empty(), "race:leak", x.root->live.size() << " blocks were not given back; " << x.root->bad);
    order ^= x.root->order;
    calls += x.root->calls;
    sw += x.root->switches;
  }
  vh::count("resource_calls", calls);
  vh::count("thread_switches_at_resource", sw);
  vh::sig(shape + "|interleaving " + std::to_string(order));
}

static void map_case(vh::Rng& r)
{
  using umpire::util::AllocationMap;
  using umpire::util::AllocationRecord;
  AllocationMap m;
  const int nt = int(r.range(2, 8));
  const size_t ops = r.range(50, 400);
  std::vector<Judge> js(nt);
  std::vector<U> seeds;
  for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
  // some addresses every thread works on: records are tagged by their size
  const int NS = 3;
  std::vector<std::uintptr_t> shared;
  for (int i = 0; i < NS; ++i) shared.push_back((std::uintptr_t(0x700000000000) + (r.next() & 0xffffff) * 0x10000) | 0x8000);
  std::vector<std::vector<size_t>> put(nt), taken(nt);
  std::vector<size_t> fin(nt, 0);
  const unsigned spread = unsigned(r.pick(std::vector<int>{4, 8, 12, 20}));
  vh::step("map", U(nt), seeds[0]);
  vh::tr("%d threads on one AllocationMap, %zu operations each", nt, ops);
  threads(nt, [&](int t) {
    Judge& j = js[t];
    vh::Rng q(seeds[t]);
    std::map<std::uintptr_t, size_t> mine;  // base -> size
    for (size_t i = 0; i < ops && !j.bad(); ++i) {
      jitter(q);
      U k = q.below(10);
      // the thread's own addresses interleave with those of the others
      std::uintptr_t b = 0x100000000ull + ((q.below(200) << spread) * 8 + U(t)) * 4096;
      if (k < 4) {
        if (mine.count(b)) continue;
        size_t n = q.range(1, 4096);
        m.insert(reinterpret_cast<void*>(b), AllocationRecord{reinterpret_cast<void*>(b), n, nullptr});
        mine[b] = n;
        j.counts["map_inserts"]++;
      } else if (k < 6 && !mine.empty()) {
        auto it = mine.lower_bound(b);
        if (it == mine.end()) it = mine.begin();
        auto rec = m.remove(reinterpret_cast<void*>(it->first));
        TC(rec.ptr == reinterpret_cast<void*>(it->first) && rec.size == it->second, "race:map", "removing an address of " << it->second << " bytes yields a record of " << rec.size);
        mine.erase(it);
        j.counts["map_removes"]++;
      } else if (k < 8 && !mine.empty()) {
        auto it = mine.lower_bound(b);
        if (it == mine.end()) it = mine.begin();
        std::uintptr_t in = it->first + q.below(it->second);
        auto* rec = m.findRecord(reinterpret_cast<void*>(in));
        TC(rec != nullptr, "race:map", "an inserted address is not found");
        if (rec) TC(rec->ptr == reinterpret_cast<void*>(it->first) && rec->size == it->second, "race:map", "an inserted address finds a wrong record");
        try {
          auto* r2 = m.find(reinterpret_cast<void*>(it->first));
          TC(r2->size == it->second, "race:map", "find yields a wrong record");
        } catch (umpire::runtime_error&) { TC(false, "race:map", "an inserted address is not found"); }
        if (!mine.count(b)) TC(!m.contains(reinterpret_cast<void*>(b)), "race:map", "an address nobody inserted is found");
        j.counts["map_lookups"]++;
      } else {
        std::uintptr_t sh = shared[q.below(NS)];
        if (q.chance(1, 2)) {
          size_t tag = size_t(t) * 1000000 + put[t].size() + 1;
          m.insert(reinterpret_cast<void*>(sh), AllocationRecord{reinterpret_cast<void*>(sh), tag % 0x4000 + 1, nullptr, std::to_string(tag)});
          put[t].push_back(tag);
        } else {
          try {
            auto rec = m.remove(reinterpret_cast<void*>(sh));
            TC(rec.ptr == reinterpret_cast<void*>(sh), "race:map", "a shared address yields the record of another");
            taken[t].push_back(size_t(std::stoull(rec.name.empty() ? "0" : rec.name)));
          } catch (umpire::runtime_error&) {
            j.counts["shared_empty"]++;
          }
        }
        j.counts["shared_ops"]++;
      }
    }
    fin[t] = mine.size();
  });
  finish(js);
  std::multiset<size_t> P, T;
  size_t own = 0;
  for (auto& v : put) P.insert(v.begin(), v.end());
  for (auto& v : taken) T.insert(v.begin(), v.end());
  for (auto f : fin) own += f;
  for (auto x : T) {
    VH_CHECK(P.count(x), "race:map", "record " << x << " was removed but never inserted");
    VH_CHECK(T.count(x) == 1, "race:map", "record " << x << " was removed " << T.count(x) << " times");
  }
  VH_CHECK(m.size() == own + P.size() - T.size(), "race:map", "the map holds " << m.size() << " records, inserted and not removed: " << own + P.size() - T.size());
  size_t seen = 0;
  std::set<size_t> rest;
  for (auto it = m.begin(); it != m.end(); ++it) {
    ++seen;
    if (!it->name.empty()) rest.insert(size_t(std::stoull(it->name)));
  }
  VH_CHECK(seen == m.size(), "race:map", "iteration shows " << seen << " of " << m.size() << " records");
  for (auto x : P) VH_CHECK((T.count(x) == 0) == (rest.count(x) == 1), "race:map", "record " << x << " was lost or duplicated");
  vh::sig("map|" + std::to_string(nt) + "|" + std::to_string(T.size()) + "/" + std::to_string(P.size()));
}

// clear() among insertions, removals and lookups: what is inserted after the
// last clear() is there, nothing else.
static void clear_case(vh::Rng& r)
{
  using umpire::util::AllocationMap;
  using umpire::util::AllocationRecord;
  AllocationMap m;
  const int nt = int(r.range(2, 6));
  const size_t ops = r.range(50, 300);
  std::vector<Judge> js(nt);
  std::vector<U> seeds;
  for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
  vh::step("clear", U(nt), seeds[0]);
  threads(nt, [&](int t) {
    Judge& j = js[t];
    vh::Rng q(seeds[t]);
    for (size_t i = 0; i < ops && !j.bad(); ++i) {
      jitter(q);
      void* b = reinterpret_cast<void*>(0x100000000ull + (q.below(40) * 8 + U(t)) * 4096);
      U k = q.below(20);
      if (k < 10) m.insert(b, AllocationRecord{b, q.range(1, 4096), nullptr, std::string(q.below(40), 'x')});
      else if (k < 14) {
        try {
          auto rec = m.remove(b);
          TC(rec.ptr == b, "race:map", "remove yields the record of another address");
          j.counts["map_removes"]++;
        } catch (umpire::runtime_error&) {
          j.counts["already_cleared"]++;
        }
      } else if (k < 18) j.counts[m.contains(b) ? "map_hits" : "map_misses"]++;
      else if (t == 0) { m.clear(); j.counts["map_clears"]++; }
    }
  });
  finish(js);
  size_t seen = 0;
  for (auto it = m.begin(); it != m.end(); ++it) ++seen;
  VH_CHECK(seen == m.size(), "race:map", "after concurrent clear() iteration shows " << seen << " of " << m.size() << " records");
  m.clear();
  VH_CHECK(m.size() == 0 && m.begin() == m.end(), "race:map", "the map cannot be cleared");
  vh::sig("clear|" + std::to_string(nt) + "|" + std::to_string(seen / 8));
}

static void create_case(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  static Root* base = new Root("create_root", next_id++, 1);
  umpire::Allocator par = AllocatorTest::wrap(base);
  const int nt = int(r.range(2, 8)), per = int(r.range(1, 6));
  std::vector<Judge> js(nt);
  std::vector<U> seeds;
  for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
  std::vector<std::vector<std::pair<std::string, int>>> made(nt);
  std::atomic<int> winners{0};
  std::string common = "same_" + std::to_string(::getpid()) + "_" + std::to_string(c);
  vh::step("create", U(nt), seeds[0]);
  auto before = rm.getAllocatorIds();
  threads(nt, [&](int t) {
    Judge& j = js[t];
    vh::Rng q(seeds[t]);
    for (int i = 0; i < per; ++i) {
      jitter(q);
      std::string n = "t" + std::to_string(c) + "_" + std::to_string(t) + "_" + std::to_string(i);
      umpire::Allocator a = q.chance(1, 2) ? rm.makeAllocator<st::ThreadSafeAllocator>(n, par) : rm.makeAllocator<st::SizeLimiter>(n, par, size_t(1000));
      TC(a.getName() == n, "race:create", "a new allocator has the name " << a.getName());
      made[t].emplace_back(n, a.getId());
      j.counts["created"]++;
    }
    // one name wanted by all threads: exactly one gets it; errors are logged, so only without a log
    (void)common;
  });
  finish(js);
  std::set<int> ids(before.begin(), before.end());
  for (auto& v : made) for (auto& e : v) {
    VH_CHECK(ids.insert(e.second).second, "race:create", "id " << e.second << " was given twice");
    VH_CHECK(rm.isAllocator(e.first) && rm.getAllocator(e.first).getId() == e.second, "race:create", e.first << " is not registered under its name and id");
    VH_CHECK(rm.getAllocator(e.second).getName() == e.first, "race:create", "an id leads to another allocator");
  }
  VH_CHECK(rm.getAllocatorIds().size() == before.size() + size_t(nt) * per, "race:create", "the registry lists " << rm.getAllocatorIds().size() << " ids");
  vh::sig("create|" + std::to_string(nt) + "|" + std::to_string(per));
}

static void one_case(vh::Rng& r, U c)
{
  const std::string m = vh::st().opt["mode"];
  if (m == "map" && r.chance(1, 6)) clear_case(r);
  else if (m == "map") map_case(r);
  else if (m == "create") create_case(r, c);
  else share_case(r);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "thread", one_case); }
