// Coalescing heuristics: the ready-made ones answer as documented in every
// state of a pool, and a pool does what its heuristic says and nothing else.
#include <climits>

#include "world.hpp"
using namespace world;
using umpire::Allocator;
using umpire::strategy::DynamicPoolList;
using umpire::strategy::MixedPool;
using umpire::strategy::PoolCoalesceHeuristic;
using umpire::strategy::QuickPool;

namespace {

// The parent: remembers what is taken from it.
class Par : public AllocationStrategy {
 public:
  Par(const std::string& n, int id) : AllocationStrategy{n, id, nullptr, "Par"} {}
  ~Par()
  {
    for (auto& h : held) std::free(raw[h.first]);
  }
  Platform getPlatform() noexcept override { return Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }
  std::map<std::uintptr_t, size_t> held;
  std::map<std::uintptr_t, void*> raw;
  size_t acts{0}, refusals{0};

 private:
  void* allocate(size_t n) override
  {
    ++acts;
    if (n > (size_t(1) << 26)) { ++refusals; UMPIRE_ERROR(umpire::out_of_memory_error, "the test has no more"); }
    char* p = static_cast<char*>(std::malloc(n + 64));
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p) + 16 * (n % 4);
    held[a] = n;
    raw[a] = p;
    return reinterpret_cast<void*>(a);
  }
  void deallocate(void* p, size_t n) override
  {
    ++acts;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    auto it = held.find(a);
    VH_FLAG(it != held.end() && it->second == n, "heur:parent", "the pool gives " << n << " bytes back at " << p << ", which were not taken like that");
    if (it == held.end()) return;
    std::free(raw[a]);
    raw.erase(a);
    held.erase(it);
  }
};

struct Sp { size_t blocks{0}, actual{0}, rel_blocks{0}, rel_bytes{0}, part{0}; };

template <typename P> struct Run {
  vh::Rng& r;
  const char* nm;
  Par par;
  std::unique_ptr<P> pool;
  size_t first, next, align;
  int kind{0};        // 0..3 ready-made, 4 the user's own, 5 default
  size_t arg{0};
  struct L { size_t n; unsigned char c; };
  std::map<std::uintptr_t, L> live;
  size_t cur{0}, hwm{0};
  PoolCoalesceHeuristic<P> inner;
  struct Call { size_t n; Sp s; };
  std::vector<Call> calls;
  unsigned char pat{1};
  bool armed{false};

  Run(vh::Rng& g, const char* name) : r(g), nm(name), par("heurpar", 690)
  {
    static const size_t al[] = {16, 16, 8, 32, 64, 128, 256};
    first = r.range(1, r.chance(1, 2) ? 600 : 6000);
    next = r.range(1, r.chance(1, 2) ? 600 : 6000);
    align = al[r.below(7)];
    kind = int(r.below(7));
    if (kind == 6) kind = 4;
    arg = kind < 2 ? r.range(0, 6) : r.below(101);
    if ((kind == 2 || kind == 3) && r.chance(1, 4)) arg = r.chance(1, 2) ? 100 : 0;
    Allocator p = AllocatorTest::wrap(&par);
    if (kind < 4) inner = ready(kind, arg);
    if (kind == 5) pool.reset(new P("heur", 701, p, first, next, align));
    else pool.reset(new P("heur", 701, p, first, next, align, [this](const P& q) { return ask(q); }));
    armed = true;
  }
  ~Run() { armed = false; }
  std::string who() const
  {
    static const char* ks[] = {"blocks_releasable", "blocks_releasable_hwm", "percent_releasable", "percent_releasable_hwm", "own", "default"};
    return std::string(nm) + "[f" + std::to_string(first) + " n" + std::to_string(next) + " a" + std::to_string(align) + " " + ks[kind] + (kind < 4 ? "(" + std::to_string(arg) + ")" : "") + "]";
  }
  static PoolCoalesceHeuristic<P> ready(int k, size_t a)
  {
    switch (k) {
      case 0: return P::blocks_releasable(a);
      case 1: return P::blocks_releasable_hwm(a);
      case 2: return P::percent_releasable(int(a));
      default: return P::percent_releasable_hwm(int(a));
    }
  }
  size_t up(size_t n) const { return (n + align - 1) / align * align; }
  Sp space() const
  {
    Sp s;
    for (auto& h : par.held) {
      std::uintptr_t b = (h.first + align - 1) & ~(std::uintptr_t(align) - 1), pos = b;
      size_t sz = h.second - align, used = 0, part = 0;
      for (auto it = live.lower_bound(h.first); it != live.end() && it->first < b + sz; ++it, ++used) {
        if (it->first > pos) part = std::max(part, size_t(it->first - pos));
        pos = it->first + up(it->second.n);
      }
      if (pos < b + sz) part = std::max(part, size_t(b + sz - pos));
      s.blocks++;
      s.actual += sz;
      if (!used) { s.rel_blocks++; s.rel_bytes += sz; }
      else s.part = std::max(s.part, part);
    }
    return s;
  }
  // what a ready-made heuristic has to answer in this state: -1 no, 1 yes, 0 too close to the limit to say
  static int due(int k, size_t a, const Sp& s)
  {
    if (k < 2) return s.rel_blocks >= a ? 1 : -1;
    if (a == 0) return -1;
    if (a == 100) return s.rel_bytes == s.actual ? 1 : -1;
    double lim = double(a) / 100.0 * double(s.actual), d = double(s.rel_bytes) - lim;
    double eps = 1.0 + lim * 1e-6;
    if (s.actual == 0) return 1;
    if (d > -eps && d < eps && d != 0) return 0;
    return d >= 0 ? 1 : -1;
  }
  void judge(int k, size_t a, const P& q, const Sp& s, size_t got)
  {
    int d = due(k, a, s);
    vh::evals(1);
    size_t want = k == 0 || k == 2 ? s.actual : q.getAlignedHighwaterMark();
    static const char* ks[] = {"blocks_releasable", "blocks_releasable_hwm", "percent_releasable", "percent_releasable_hwm"};
    auto say = [&] {
      std::ostringstream o;
      o << nm << ": " << ks[k] << "(" << a << ") answers " << got << " with " << s.rel_blocks << " of " << s.blocks << " blocks and " << s.rel_bytes << " of " << s.actual << " bytes free, watermark " << q.getAlignedHighwaterMark();
      return o.str();
    };
    if (d < 0) VH_FLAG(got == 0, "heur:early", say());
    else if (d > 0) VH_FLAG(got == want, "heur:answer", say());
    else VH_FLAG(got == want || got == 0, "heur:answer", say());
  }
  size_t ask(const P& q)
  {
    Sp s = space();
    if (armed && pool) VH_FLAG(&q == pool.get(), "heur:who", who() << " is asked about another pool");
    for (int i = 0; i < 3; ++i) {  // any ready-made one answers right here, whichever the pool uses
      int k = int(r.below(4));
      size_t a = k < 2 ? r.range(0, 8) : r.below(101);
      judge(k, a, q, s, ready(k, a)(q));
      vh::sig(std::string(nm) + "|" + std::to_string(k) + "|" + std::to_string(due(k, a, s)) + "|" + std::to_string(std::min<size_t>(s.rel_blocks, 9)) + "|" + std::to_string(std::min<size_t>(s.blocks, 9)));
    }
    size_t n = 0;
    if (kind < 4) {
      n = inner(q);
      judge(kind, arg, q, s, n);
    } else {
      switch (r.below(7)) {
        case 0: n = s.actual; break;
        case 1: n = q.getAlignedHighwaterMark(); break;
        case 2: n = r.range(1, 3 * s.actual + 1); break;
        case 3: n = r.chance(1, 6) ? std::numeric_limits<size_t>::max() - r.below(5000) : 1; break;
        default: n = 0;
      }
    }
    calls.push_back({n, s});
    vh::count("heuristic_calls");
    return n;
  }
  // what the pool may hold after it was told to coalesce to n in state s
  std::set<size_t> after(const Sp& s, size_t n) const
  {
    size_t l = s.actual - s.rel_bytes;
    if (n <= l) return {l};
    size_t need = n - l;
    if (need > std::numeric_limits<size_t>::max() - 2 * align) return {l};
    size_t rd = up(need);
    if (s.part >= rd) return {l};
    size_t blk = std::max(rd, l == 0 ? first : next);
    if (blk + align < blk || blk + align > (size_t(1) << 26)) return {l};
    return {l + blk};
  }
  void judge_effect(const Sp& before, size_t acts0, const char* what)
  {
    Sp now = space();
    std::set<size_t> ok;
    bool may_stay = false;
    Sp s0 = before;
    size_t n = 0;
    if (kind == 5) {
      bool none = live.empty();
      n = none ? pool->getAlignedHighwaterMark() : 0;
      if (none && before.rel_blocks >= 2) {
        ok = after(before, n);
        for (size_t x : after(before, before.actual)) ok.insert(x);
      }
      if (none && before.rel_blocks < 2) {
        may_stay = true;
        ok = after(before, n);
        for (size_t x : after(before, before.actual)) ok.insert(x);
      }
    } else {
      VH_CHECK(!calls.empty(), "heur:asked", who() << " did not ask its heuristic on " << what);
      if (calls.empty()) return;
      n = calls[0].n;
      s0 = calls[0].s;
      if (n) {
        ok = after(s0, n);
        may_stay = s0.rel_blocks < 2;
      }
    }
    if (!n) {
      VH_CHECK(par.acts == acts0, "heur:uncalled", who() << " went to its parent " << par.acts - acts0 << " times on " << what << " although its heuristic said no (" << s0.rel_blocks << " of " << s0.blocks << " blocks free)");
    } else {
      if (may_stay) ok.insert(s0.actual);
      VH_CHECK(ok.count(now.actual), "heur:size", who() << " was told to coalesce to " << n << " with " << s0.rel_bytes << " of " << s0.actual << " bytes free and now holds " << now.actual << ", not " << (ok.empty() ? 0 : *ok.begin()));
      VH_CHECK(now.rel_blocks <= 1, "heur:left", who() << " was told to coalesce and still has " << now.rel_blocks << " wholly free blocks, " << s0.rel_blocks << " before");
      vh::count(s0.rel_blocks >= 2 ? "coalesced" : "coalesced_single");
    }
    VH_CHECK(pool->getActualSize() == now.actual, "heur:actual", who() << " says it holds " << pool->getActualSize() << " bytes and holds " << now.actual);
  }
  void intact()
  {
    for (auto& l : live) {
      auto* p = reinterpret_cast<unsigned char*>(l.first);
      bool ok = true;
      for (size_t i = 0; i < l.second.n; ++i) ok &= p[i] == l.second.c;
      VH_CHECK(ok, "heur:content", who() << ": the bytes of a live allocation changed");
    }
  }
  void run()
  {
    Allocator a = AllocatorTest::wrap(pool.get());
    size_t ops = r.range(40, 160), maxs = std::vector<size_t>{80, 700, 5000}[r.below(3)];
    unsigned pa = 60;
    vh::tr("%s", who().c_str());
    for (size_t i = 0; i < ops; ++i) {
      if (r.chance(1, 20)) pa = unsigned(r.range(10, 90));
      unsigned roll = unsigned(r.below(100));
      calls.clear();
      Sp b = space();
      if (roll < pa) {
        size_t n = r.range(1, maxs);
        vh::step("alloc", n);
        void* p = a.allocate(n);
        VH_CHECK(calls.empty(), "heur:onalloc", who() << " asks its heuristic when memory is taken");
        std::memset(p, pat, n);
        live[reinterpret_cast<std::uintptr_t>(p)] = {n, pat};
        pat = static_cast<unsigned char>(pat % 250 + 1);
        cur += up(n);
        hwm = std::max(hwm, cur);
      } else if (roll < 95) {
        if (live.empty()) continue;
        auto it = live.begin();
        std::advance(it, long(r.below(live.size())));
        void* p = reinterpret_cast<void*>(it->first);
        vh::step("free", it->second.n);
        cur -= up(it->second.n);
        live.erase(it);
        b = space();
        size_t acts = par.acts;
        a.deallocate(p);
        vh::check_flags();
        judge_effect(b, acts, "a deallocation");
        intact();
      } else if (roll < 98) {
        vh::step("coalesce");
        size_t acts = par.acts;
        if (r.chance(1, 2)) pool->coalesce();
        else umpire::coalesce(a);
        vh::check_flags();
        judge_effect(b, acts, "coalesce()");
        intact();
      } else if (r.chance(1, 2)) {
        vh::step("release");
        a.release();
        VH_CHECK(calls.empty(), "heur:onrelease", who() << " asks its heuristic on release()");
        intact();
      } else {
        // outside any call, too
        Sp s = space();
        int k = int(r.below(4));
        size_t g = k < 2 ? r.range(0, 8) : r.below(101);
        judge(k, g, *pool, s, ready(k, g)(*pool));
        bad();
      }
      vh::check_flags();
      VH_CHECK(pool->getAlignedHighwaterMark() >= hwm, "heur:hwm", who() << " has the watermark " << pool->getAlignedHighwaterMark() << ", " << hwm << " bytes were live");
    }
    while (!live.empty()) {
      auto it = r.chance(1, 2) ? live.begin() : std::prev(live.end());
      void* p = reinterpret_cast<void*>(it->first);
      cur -= up(it->second.n);
      live.erase(it);
      calls.clear();
      Sp b = space();
      size_t acts = par.acts;
      a.deallocate(p);
      vh::check_flags();
      judge_effect(b, acts, "a deallocation");
    }
    calls.clear();
    vh::sig(std::string("heur|") + nm + "|" + std::to_string(kind) + "|" + std::to_string(arg));
  }
  void bad()
  {
    static const long bads[] = {-1, 101, -100, 1000, INT_MIN, INT_MAX, 200, -99};
    long p = r.chance(1, 2) ? bads[r.below(8)] : long(r.below(400)) - 150;
    bool h = r.chance(1, 2), threw = false;
    try {
      PoolCoalesceHeuristic<P> x = h ? P::percent_releasable_hwm(int(p)) : P::percent_releasable(int(p));
      (void)x;
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    VH_CHECK(threw == (p < 0 || p > 100), "heur:percentage", nm << "::percent_releasable" << (h ? "_hwm" : "") << "(" << p << ") is " << (threw ? "refused" : "accepted"));
  }
};

// The mixed pool passes the heuristic on to the pool behind its larger sizes.
void mixed(vh::Rng& r)
{
  Par par("heurpar", 690);
  std::vector<size_t> said;
  std::unique_ptr<MixedPool> m;
  size_t f = r.range(1, 3000), n = r.range(1, 3000), big = r.range(32, 300);
  int mode = int(r.below(4));
  m.reset(new MixedPool("heurmix", 701, AllocatorTest::wrap(&par), 16, big, 4096, 4, f, n, 16, [&](const QuickPool& q) {
    size_t x = mode == 0 ? 0 : mode == 1 ? q.getActualSize() : mode == 2 ? QuickPool::blocks_releasable(2)(q) : QuickPool::percent_releasable_hwm(50)(q);
    said.push_back(x);
    vh::count("heuristic_calls");
    return x;
  }));
  Allocator a = AllocatorTest::wrap(m.get());
  std::vector<std::pair<void*, size_t>> live;
  size_t ops = r.range(40, 150);
  for (size_t i = 0; i < ops; ++i) {
    if (r.chance(1, 2) || live.empty()) {
      size_t s = r.range(1, 4 * big);
      said.clear();
      void* p = a.allocate(s);
      VH_CHECK(said.empty(), "heur:onalloc", "MixedPool asks its heuristic when memory is taken");
      std::memset(p, 7, s);
      live.push_back({p, s});
    } else {
      size_t k = r.below(live.size());
      auto l = live[k];
      live.erase(live.begin() + long(k));
      said.clear();
      size_t acts = par.acts;
      a.deallocate(l.first);
      if (l.second > big) VH_CHECK(!said.empty(), "heur:asked", "MixedPool (fixed sizes to " << big << ") did not ask its heuristic on freeing " << l.second << " bytes");
      bool yes = false;
      for (size_t x : said) yes |= x != 0;
      VH_CHECK(yes || par.acts == acts, "heur:uncalled", "MixedPool went to its parent on freeing " << l.second << " bytes although its heuristic said no");
    }
  }
  for (auto& l : live) a.deallocate(l.first);
  vh::sig("heur|MixedPool|" + std::to_string(mode) + "|" + std::to_string(big));
}

void one(vh::Rng& r, std::uint64_t)
{
  switch (r.below(9)) {
    case 0: mixed(r); break;
    case 1: case 2: case 3: case 4: { Run<QuickPool> x(r, "QuickPool"); x.run(); break; }
    default: { Run<DynamicPoolList> x(r, "DynamicPoolList"); x.run(); }
  }
  vh::check_flags();
}
} // namespace
int main(int argc, char** argv) { return vh::run(argc, argv, "heur", one); }
