// Copy, fill, reallocate and move of allocations beyond 2 and 4 GiB.
// The memory is address space most of which shows the same 32 MiB again and
// again; pages at the start, the end and around multiples of 2 GiB are its
// own, and a model of exactly those bytes decides.  --opt mode=copy|realloc
#include <sys/mman.h>
#include <unistd.h>

#include "world.hpp"
using namespace world;
using umpire::Allocator;
using umpire::ResourceManager;
using U = std::uintptr_t;

namespace {
constexpr size_t G = size_t(1) << 30, PG = 4096, SLICE = size_t(32) << 20;

int backing()
{
  static int fd = [] {
    int f = ::memfd_create("vh-vast", 0);
    if (f < 0 || ::ftruncate(f, off_t(SLICE)) != 0) std::abort();
    return f;
  }();
  return fd;
}

std::vector<std::pair<size_t, size_t>> windows(size_t size)  // [from, to), page aligned, last one open ended
{
  std::vector<std::pair<size_t, size_t>> w{{0, PG}};
  size_t tail = size > 2 * PG ? (size - PG) / PG * PG : 0;
  for (size_t m = 2 * G; m < size + PG; m += 2 * G)
    if (m + PG < tail) w.push_back({m - PG, m + PG});
  if (w.back().second < tail) w.push_back({tail, (size + PG - 1) / PG * PG});
  else w.back().second = (size + PG - 1) / PG * PG;
  return w;
}

class Alias : public AllocationStrategy {
 public:
  Alias(const std::string& n, int id) : AllocationStrategy{n, id, nullptr, "Alias"} {}
  ~Alias() override { for (auto& m : maps) ::munmap((void*)m.first, m.second); }
  Platform getPlatform() noexcept override { return Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }
  std::map<U, size_t> maps, sizes;
  // forget the page table entries of the shared part
  void relax()
  {
    for (auto& m : sizes) {
      auto w = windows(m.second);
      for (size_t i = 0; i + 1 < w.size(); ++i) ::madvise((char*)m.first + w[i].second, w[i + 1].first - w[i].second, MADV_DONTNEED);
    }
  }

 private:
  void* allocate(size_t bytes) override
  {
    size_t total = (bytes + PG - 1) / PG * PG;
    if (!total) total = PG;
    if (bytes > 64 * G) UMPIRE_ERROR(umpire::out_of_memory_error, "Alias: out of memory");
    char* p = static_cast<char*>(::mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) UMPIRE_ERROR(umpire::out_of_memory_error, "Alias: no address space");
    auto w = windows(bytes);
    for (size_t i = 0; i + 1 < w.size(); ++i)
      for (size_t o = w[i].second; o < w[i + 1].first; o += SLICE)
        if (::mmap(p + o, std::min(SLICE, w[i + 1].first - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, backing(), 0) == MAP_FAILED) std::abort();
    maps[U(p)] = total;
    sizes[U(p)] = bytes;
    return p;
  }
  void deallocate(void* p, size_t) override
  {
    auto it = maps.find(U(p));
    if (it == maps.end()) { vh::flag("copy:vast-foreign", "a block is returned that is not outstanding"); return; }
    ::munmap(p, it->second);
    maps.erase(it);
    sizes.erase(U(p));
  }
};

struct Blk {
  Allocator* a;
  size_t size;
  std::map<size_t, std::vector<short>> win;  // offset -> bytes, -1: unknown
  short* at(size_t o)
  {
    auto it = win.upper_bound(o);
    if (it == win.begin()) return nullptr;
    --it;
    return o - it->first < it->second.size() ? &it->second[o - it->first] : nullptr;
  }
};

struct Case {
  vh::Rng& r;
  std::string mode;
  ResourceManager& rm{ResourceManager::getInstance()};
  Alias res{"vast", 700};
  std::unique_ptr<AllocationStrategy> named, safe;
  std::vector<Allocator> as;
  std::map<U, Blk> live;
  camp::resources::Resource ctx{camp::resources::Host()};
  std::string k(const char* s) { return mode + ":vast-" + s; }
  explicit Case(vh::Rng& rng) : r(rng), mode(vh::st().opt.count("mode") ? vh::st().opt["mode"] : "copy")
  {
    as.push_back(AllocatorTest::wrap(&res));
    named.reset(new umpire::strategy::NamedAllocationStrategy("vastnamed", 701, as[0]));
    as.push_back(AllocatorTest::wrap(named.get()));
    safe.reset(new umpire::strategy::ThreadSafeAllocator("vastsafe", 702, as[0]));
    as.push_back(AllocatorTest::wrap(safe.get()));
  }
  size_t size()
  {
    switch (r.below(7)) {
      case 0: return r.range(1, 20000);
      case 1: return 2 * G + r.below(64) - 32;
      case 2: return 4 * G + r.below(64) - 32;
      case 3: return 4 * G + r.range(1, 9000);
      case 4: return 4 * G + r.range(1, 200000);
      case 5: return r.range(1, 4 * G);
      default: return 4 * G + r.range(1, G / 4);
    }
  }
  void write(U p, Blk& b)
  {
    for (auto& w : b.win)
      for (size_t i = 0; i < w.second.size(); ++i) {
        unsigned char c = static_cast<unsigned char>(r.next());
        reinterpret_cast<unsigned char*>(p)[w.first + i] = c;
        w.second[i] = c;
      }
  }
  Blk shape(Allocator* a, size_t n)
  {
    Blk b{a, n, {}};
    for (auto& w : windows(n)) b.win[w.first] = std::vector<short>(std::min(w.second, n) - w.first, -1);
    return b;
  }
  void check(U p, Blk& b, const char* what)
  {
    for (auto& w : b.win)
      for (size_t i = 0; i < w.second.size(); ++i) {
        if (w.second[i] < 0) continue;
        unsigned char c = reinterpret_cast<unsigned char*>(p)[w.first + i];
        if (c != w.second[i]) { VH_CHECK(false, k("content"), what << ": byte " << w.first + i << " of a " << b.size << "-byte allocation is " << int(c) << ", expected " << w.second[i]); return; }
      }
    vh::evals();
  }
  void check_all(const char* what)
  {
    res.relax();
    for (auto& e : live) check(e.first, e.second, what);
    size_t sum[3] = {0, 0, 0};
    for (auto& e : live) sum[e.second.a - as.data()] += e.second.size;
    for (int i = 1; i < 3; ++i) VH_CHECK(as[i].getCurrentSize() == sum[i], k("stats"), what << ": " << as[i].getName() << " reports " << as[i].getCurrentSize() << " bytes, " << sum[i] << " are live");
    for (auto& e : live) VH_CHECK(rm.getSize((void*)e.first) == e.second.size, k("size"), what << ": getSize is " << rm.getSize((void*)e.first) << ", expected " << e.second.size);
  }
  void alloc()
  {
    Allocator* a = &as[r.below(3)];
    size_t n = size();
    U p = U(a->allocate(n));
    vh::step("alloc", n);
    live[p] = shape(a, n);
    write(p, live[p]);
  }
  U pick() { auto it = live.begin(); std::advance(it, long(r.below(live.size()))); return it->first; }
  size_t offset(size_t n)
  {
    switch (r.below(4)) {
      case 0: return 0;
      case 1: return r.below(std::min<size_t>(n, 2000));
      case 2: return n > 2 * G + 9 ? 2 * G - r.below(8) : 0;
      default: return n > 4 * G + 9 ? 4 * G - r.below(8) : r.below(std::min<size_t>(n, 100));
    }
  }
  // a length that fits (or not), interesting to code that holds lengths in fewer bits
  size_t length(size_t room)
  {
    switch (r.below(8)) {
      case 0: return room + 1;
      case 1: return room + 4 * G;
      case 2: return room > 4 * G ? 4 * G + r.below(room - 4 * G + 1) : room;
      case 3: return room > 4 * G ? 4 * G : room;
      case 4: return room > 2 * G ? 2 * G : room;
      case 5: return room ? r.range(1, std::min<size_t>(room, 5000)) : 1;
      default: return room;
    }
  }
  void copy()
  {
    if (live.size() < 2) return;
    U d = pick(), s = pick();
    if (d == s) return;
    Blk &D = live[d], &S = live[s];
    size_t od = offset(D.size), os = offset(S.size), rd = D.size - od, rs = S.size - os;
    size_t n = length(std::min(rd, rs)), real = n;
    if (r.chance(1, 6)) { n = 0; real = rs; }
    bool ok = real <= rd && real <= rs, async = r.chance(1, 4), threw = false;
    vh::step("copy", od * 31 + os, n);
    vh::tr("copy dst %zu+%zu src %zu+%zu n %zu%s", D.size, od, S.size, os, n, async ? " async" : "");
    vh::count(ok ? "copied" : "copy_refused");
    try {
      if (async) rm.copy((void*)(d + od), (void*)(s + os), ctx, n);
      else rm.copy((void*)(d + od), (void*)(s + os), n);
    } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw == !ok, k("accept"), "a copy of " << n << " bytes from a source with " << rs << " to a destination with " << rd << (threw ? " is refused" : " is accepted"));
    if (ok)
      for (auto& w : D.win)
        for (size_t i = 0; i < w.second.size(); ++i) {
          size_t o = w.first + i;
          if (o < od || o - od >= real) continue;
          short* v = S.at(o - od + os);
          w.second[i] = v ? *v : short(-1);
        }
    check_all("after a copy");
  }
  void fill()
  {
    if (live.empty()) return;
    U d = pick();
    Blk& D = live[d];
    size_t od = offset(D.size), rd = D.size - od, n = length(rd), real = n;
    if (r.chance(1, 6)) { n = 0; real = rd; }
    bool ok = real <= rd, async = r.chance(1, 4), threw = false;
    int v = int(r.below(256));
    vh::step("memset", od, n);
    vh::tr("memset %zu+%zu n %zu", D.size, od, n);
    vh::count(ok ? "filled" : "fill_refused");
    try {
      if (async) rm.memset((void*)(d + od), v, ctx, n);
      else rm.memset((void*)(d + od), v, n);
    } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw == !ok, k("accept"), "a fill of " << n << " bytes of a destination with " << rd << (threw ? " is refused" : " is accepted"));
    if (ok)
      for (auto& w : D.win)
        for (size_t i = 0; i < w.second.size(); ++i)
          if (w.first + i >= od && w.first + i - od < real) w.second[i] = short(v);
    check_all("after a fill");
  }
  void carry(U from, U to, Allocator* a, size_t n)
  {
    Blk old = live[from], now = shape(a, n);
    live.erase(from);
    for (auto& w : now.win)
      for (size_t i = 0; i < w.second.size(); ++i) {
        short* v = old.at(w.first + i);
        w.second[i] = w.first + i < old.size && v ? *v : short(-1);
      }
    live[to] = now;
  }
  void realloc()
  {
    if (live.empty()) return;
    U p = pick();
    size_t o = live[p].size, n = r.chance(1, 4) ? o + (r.chance(1, 2) && o < 3 * G ? 4 * G : 1) : size();
    Allocator* a = live[p].a;
    vh::step("reallocate", o, n);
    vh::tr("reallocate %zu -> %zu", o, n);
    vh::count("reallocated");
    void* q = r.chance(1, 2) ? rm.reallocate((void*)p, n) : rm.reallocate((void*)p, n, *a);
    carry(p, U(q), a, n);
    write_rest(U(q), std::min(o, n));
    check_all("after reallocate");
  }
  // what lies beyond the old size is unspecified: give it known bytes
  void write_rest(U q, size_t from)
  {
    for (auto& w : live[q].win)
      for (size_t i = 0; i < w.second.size(); ++i)
        if (w.first + i >= from) { reinterpret_cast<unsigned char*>(q)[w.first + i] = 0x5a; w.second[i] = 0x5a; }
  }
  void move()
  {
    if (live.empty()) return;
    U p = pick();
    Allocator* a = &as[r.below(3)];
    size_t n = live[p].size;
    vh::step("move", n, size_t(a - as.data()));
    vh::count("moved");
    void* q = rm.move((void*)p, *a);
    VH_CHECK((U(q) == p) == (a == live[p].a), k("move"), "move to " << (a == live[p].a ? "the same allocator gives another address" : "another allocator gives the same address"));
    if (U(q) != p) carry(p, U(q), a, n);
    check_all("after move");
  }
  void run()
  {
    for (int i = 0; i < 3; ++i) alloc();
    size_t ops = r.range(5, 9);
    for (size_t i = 0; i < ops; ++i) {
      if (mode == "copy") { if (r.chance(3, 5)) copy(); else fill(); }
      else if (r.chance(2, 3)) realloc();
      else move();
      if (r.chance(1, 3) && live.size() < 5) alloc();
    }
    vh::sig("vast|" + mode + "|" + std::to_string(live.size()));
    while (!live.empty()) {
      auto it = live.begin();
      it->second.a->deallocate((void*)it->first);
      live.erase(it);
    }
    VH_CHECK(res.maps.empty(), k("leftover"), res.maps.size() << " blocks are still held after everything was deallocated");
  }
};
}  // namespace

static void one_case(vh::Rng& rng, std::uint64_t)
{
  Case* c = new Case(rng);
  c->run();
  delete c;
}
int main(int argc, char** argv) { return vh::run(argc, argv, "vast", one_case); }
