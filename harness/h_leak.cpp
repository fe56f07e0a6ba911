// Closed pieces of work repeated: the heap the process holds must not keep
// growing.  The work is prepared before, so that between two measurements only
// the library (and what it returns) allocates.
// --opt mode=world|build
#include <ctime>
#include <sstream>

#include "umpire/TypedAllocator.hpp"
#include "world.hpp"
#include "wrapAllocator.h"
#include "wrapResourceManager.h"
#include "wrapUmpire.h"
using namespace world;
using umpire::Allocator;
using umpire::ResourceManager;
using umpire::util::AllocationRecord;

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

namespace {

enum What { ALLOC, ALLOC_NAMED, FREE, REALLOC, MOVE, COPY, SET, LOOKUP, UNKNOWN, BADFREE, REFUSED, RECORDS, ALIAS, EXTERN, C_HANDLE, CONTAINER, RELEASE, COALESCE, NAMES, FAULT, BURST, NWHAT };
const char* const WHAT[] = {"alloc", "alloc-named", "free", "reallocate", "move", "copy", "memset", "lookup", "unknown-pointer", "wrong-deallocate", "refused", "records", "alias", "register", "c-handle", "container", "release", "coalesce", "names", "fault", "burst"};

struct Step { What w; size_t a, b, n; };

// A source of memory under test control: refuses when told to.
class Src : public AllocationStrategy {
 public:
  Src(const std::string& n, int id) : AllocationStrategy{n, id, nullptr, "Src"} {}
  Platform getPlatform() noexcept override { return Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }
  long fail_in{-1};
  std::uint64_t refused{0};

 private:
  void* allocate(size_t n) override
  {
    if (fail_in == 0) { fail_in = -1; ++refused; UMPIRE_ERROR(umpire::out_of_memory_error, "no more"); }
    if (fail_in > 0) --fail_in;
    if (n > (size_t(1) << 34)) { ++refused; UMPIRE_ERROR(umpire::out_of_memory_error, "too much"); }
    void* p = std::malloc(n ? n : 1);
    if (!p) UMPIRE_ERROR(umpire::out_of_memory_error, "malloc");
    return p;
  }
  void deallocate(void* p, size_t) override { std::free(p); }
};

struct Leak {
  vh::Rng& r;
  bool build;
  ResourceManager& rm{ResourceManager::getInstance()};
  std::unique_ptr<Src> src;
  std::vector<std::unique_ptr<AllocationStrategy>> own;
  std::vector<Allocator> as;
  std::vector<Kind> kinds;
  std::vector<size_t> fixed;
  std::vector<Step> steps;
  static const size_t N = 40;
  void* slot[N];
  size_t size[N], owner[N];
  std::vector<unsigned char> ext;
  std::vector<std::string> names;
  umpire_resourcemanager rmc;
  std::uint64_t done{0}, threw{0};
  long build_fail{-1};
  size_t demand{0}, blocks{0};  // what one cycle asks for
  bool keeps{false};  // pools go on with what they hold

  explicit Leak(vh::Rng& rng) : r(rng), build(vh::st().opt.count("mode") && vh::st().opt["mode"] == "build"), ext(4096) { umpire_resourcemanager_get_instance(&rmc); }

  ~Leak() { unmake_all(); }

  struct Shape { Kind k; size_t parent, f, n, al, fx, cnt; };
  std::vector<Shape> shapes;
  void plan()
  {
    size_t n = r.range(1, 5);
    for (size_t i = 0; i < n; ++i) {
      static const Kind ks[] = {QUICK, LIST, FIXED, MIXED, LIMIT, ALIGN, TSAFE, NAMED, SHIM, QUICK, LIST, SLOT};
      static const size_t aligns[] = {1, 4, 8, 16, 64, 256};
      Shape s{ks[r.below(12)], 0, r.range(1, 5000), r.range(1, 5000), aligns[r.below(6)], r.range(8, 200), r.range(1, 40)};
      s.parent = r.chance(1, 2) ? 0 : r.below(i + 1);
      if (s.parent && (shapes[s.parent - 1].k == FIXED || shapes[s.parent - 1].k == SLOT)) s.parent = 0;
      shapes.push_back(s);
    }
  }
  // strategies are made from `shapes`; their names are prepared in `names`
  void make()
  {
    using namespace umpire::strategy;
    for (size_t i = 0; i < shapes.size(); ++i) {
      const Shape& s = shapes[i];
      Allocator p = s.parent ? as[s.parent] : AllocatorTest::wrap(src.get());
      int id = 700 + int(i);
      const std::string& nm = names[i];
      AllocationStrategy* x = nullptr;
      try { switch (s.k) {
        case QUICK: x = new QuickPool(nm, id, p, s.f, s.n, s.al); break;
        case LIST: x = new DynamicPoolList(nm, id, p, s.f, s.n, s.al); break;
        case FIXED: x = new FixedPool(nm, id, p, s.fx, s.cnt); break;
        case MIXED: x = new MixedPool(nm, id, p, 16, 256, 4096, 4, s.f, s.n, 16); break;
        case LIMIT: x = new SizeLimiter(nm, id, p, s.f * 4); break;
        case ALIGN: x = new AlignedAllocator(nm, id, p, s.al < 16 ? 16 : s.al); break;
        case TSAFE: x = new ThreadSafeAllocator(nm, id, p); break;
        case NAMED: x = new NamedAllocationStrategy(nm, id, p); break;
        case SLOT: x = new SlotPool(nm, id, p, s.cnt); break;
        default: x = new NamingShim(nm, id, p); break;
      } } catch (umpire::runtime_error&) {  // no room for what it wants at once
        ++threw;
        x = new NamingShim(nm, id, p);
      }
      own.emplace_back(x);
      as.push_back(AllocatorTest::wrap(x));
    }
  }
  void unmake()
  {
    while (own.size()) { own.pop_back(); as.pop_back(); }
  }
  void finish_cycle()
  {
    for (size_t i = 0; i < N; ++i) if (slot[i]) { as[owner[i]].deallocate(slot[i]); slot[i] = nullptr; }
    if (!keeps) for (size_t i = as.size(); i-- > 1;) as[i].release();
  }
  void put(size_t k, size_t a, void* p, size_t n) { slot[k] = p; size[k] = n; owner[k] = a; if (n) std::memset(p, int(k), n); }
  size_t want(size_t a, size_t n) const { return a && shapes[a - 1].k == FIXED ? shapes[a - 1].fx : n; }
  void once(const Step& s)
  {
    size_t a = s.a % as.size(), k = s.b % N, n = want(a, s.n);
    ++done;
    // a fixed pool asserts that only its own size is asked for
    if (a && shapes[a - 1].k == FIXED && (s.w == REFUSED || s.w == CONTAINER || s.w == MOVE)) return;
    try {
      switch (s.w) {
        case ALLOC: if (!slot[k]) put(k, a, as[a].allocate(n), n); break;
        case ALLOC_NAMED: if (!slot[k]) put(k, a, as[a].allocate("a name that is too long for the string itself to hold", n), n); break;
        case FREE: if (slot[k]) { void* p = slot[k]; slot[k] = nullptr; as[owner[k]].deallocate(p); } break;
        case REALLOC:
          if (slot[k] && owner[k] && shapes[owner[k] - 1].k != FIXED) {
            void* p = rm.reallocate(slot[k], s.n ? s.n : 1);
            put(k, owner[k], p, s.n ? s.n : 1);
          } else if (!slot[k]) {
            void* p = rm.reallocate(nullptr, n, as[a]);
            put(k, a, p, n);
          }
          break;
        case MOVE:
          if (slot[k]) {
            void* p = rm.move(slot[k], as[a]);
            slot[k] = p;
            owner[k] = a;
          }
          break;
        case COPY: { size_t j = (k + 1) % N; if (slot[k] && slot[j]) rm.copy(slot[j], slot[k], s.n % (2 + size[k])); break; }
        case SET: if (slot[k]) rm.memset(slot[k], int(s.n), s.n % (2 + size[k])); break;
        case LOOKUP:
          if (slot[k]) {
            (void)rm.getAllocator(slot[k]).getName();
            (void)rm.findAllocationRecord(slot[k]);
            (void)as[a].getHighWatermark();
          }
          break;
        case UNKNOWN: if (s.n & 1) rm.getAllocator(static_cast<void*>(&ext[1])); else rm.getAllocator("no such allocator of a certain length"); break;
        case BADFREE: if (slot[k]) as[a == owner[k] ? (a + 1) % as.size() : a].deallocate(s.n & 1 || size[k] < 2 /* the next byte may be another's */ ? slot[k] : static_cast<void*>(static_cast<char*>(slot[k]) + 1)); break;
        case REFUSED: { void* p = as[a].allocate((size_t(1) << 40) + s.n); as[a].deallocate(p); break; }
        case RECORDS: {
          auto v = umpire::get_allocator_records(as[a]);
          std::ostringstream os;
          umpire::print_allocator_records(as[a], os);
          (void)umpire::get_leaked_allocations(as[a]);
          break;
        }
        case ALIAS: {
          Allocator h = rm.getAllocator("HOST");
          rm.addAlias("an alias for the length of one step", h);
          rm.removeAlias("an alias for the length of one step", h);
          break;
        }
        case EXTERN: {
          void* p = ext.data() + s.n % 100;
          umpire::register_external_allocation(p, AllocationRecord{p, 100, as[a].getAllocationStrategy(), std::string("external memory with a long name")});
          if (s.n & 1) (void)rm.getSize(p);
          umpire::deregister_external_allocation(p);
          break;
        }
        case C_HANDLE: {
          umpire_allocator h;
          umpire_resourcemanager_get_allocator_by_name(&rmc, "HOST", &h);
          void* p = umpire_allocator_allocate(&h, n);
          umpire_allocator h2;
          umpire_resourcemanager_get_allocator_for_ptr(&rmc, p, &h2);
          umpire_allocator_deallocate(&h2, p);
          umpire_allocator_delete(&h);
          umpire_allocator_delete(&h2);
          break;
        }
        case CONTAINER: {
          umpire::TypedAllocator<unsigned char> t(as[a]);
          std::vector<unsigned char, umpire::TypedAllocator<unsigned char>> v(t);
          for (size_t i = 0; i < s.n % 60; ++i) v.push_back((unsigned char)i);
          auto w = v;
          v.clear();
          v.shrink_to_fit();
          break;
        }
        case RELEASE: as[a].release(); break;
        case COALESCE:
          if (a) {
            auto* st = as[a].getAllocationStrategy();
            if (auto* q = dynamic_cast<umpire::strategy::QuickPool*>(st)) q->coalesce();
            if (auto* l = dynamic_cast<umpire::strategy::DynamicPoolList*>(st)) l->coalesce();
          }
          break;
        case NAMES: {
          auto v = rm.getAllocatorNames();
          auto ids = rm.getAllocatorIds();
          auto rn = rm.getResourceNames();
          break;
        }
        case BURST: {  // many blocks at once
          static void* many[600];
          size_t cnt = 1 + s.b % 600, got = 0;
          try { for (; got < cnt; ++got) many[got] = as[a].allocate(n); } catch (umpire::runtime_error&) { ++threw; }
          for (size_t i = 0; i < got; ++i) {
            size_t j = s.a & 1 ? i : s.a & 2 ? got - 1 - i : 0;
            if ((s.a & 3) == 0) { j = (i * 7919 + s.n) % got; while (!many[j]) j = (j + 1) % got; }
            void* p = many[j];
            many[j] = nullptr;
            as[a].deallocate(p);
          }
          break;
        }
        case FAULT: src->fail_in = long(s.n % 3); break;
        default: break;
      }
    } catch (umpire::runtime_error&) {
      ++threw;
    }
  }
  void cycle()
  {
    if (build) { src->fail_in = build_fail; make(); }
    demand = blocks = 0;
    for (auto& s : steps) {
      size_t n = 1 + (s.w == BURST ? s.b % 600 : 0);
      demand += n * std::max<size_t>(s.n, 256) * 2;
      blocks += n;
      once(s);
    }
    src->fail_in = -1;
    finish_cycle();
    if (build) unmake();
  }
  bool grows(int n, long* by, int* ups)
  {
    static long held[64];
    for (int i = 0; i < n; ++i) {
      cycle();
      held[i] = long(__sanitizer_get_current_allocated_bytes());
    }
    *ups = 0;
    for (int i = n - 10; i < n; ++i) *ups += held[i] > held[i - 1];
    *by = held[n - 1] - held[n - 11];
    return *ups >= 8 && *by > 0;
  }
  void run()
  {
    for (size_t i = 0; i < N; ++i) slot[i] = nullptr;
    src.reset(new Src("leaksrc", 690));
    plan();
    for (size_t i = 0; i < shapes.size(); ++i) names.push_back("an allocator with a name that is long " + std::to_string(i));
    own.reserve(16);
    as.reserve(16);
    as.push_back(AllocatorTest::wrap(src.get()));
    keeps = r.chance(1, 2);
    if (r.chance(1, 3)) build_fail = long(r.below(4));
    if (!build) make();
    size_t n = r.range(3, 60);
    unsigned only = r.chance(1, 3) ? unsigned(r.below(NWHAT)) : NWHAT;  // now and then mostly one kind
    std::string mix;
    for (size_t i = 0; i < n; ++i) {
      unsigned w;
      if (only < NWHAT && r.chance(1, 2)) w = only;
      else if (r.chance(1, 2)) w = r.chance(2, 3) ? ALLOC : FREE;
      else w = unsigned(r.below(NWHAT));
      steps.push_back(Step{What(w), r.below(64), r.below(1000), r.chance(1, 12) ? 0 : r.chance(1, 6) ? r.range(1000, 20000) : r.range(1, 600)});
      vh::step(WHAT[w], steps.back().a, steps.back().n);
    }
    if (vh::st().opt.count("keep")) {  // for shrinking by hand: only these steps
      std::vector<Step> k;
      for (auto& t : vh::split(vh::st().opt["keep"], ',')) if (size_t(std::atol(t.c_str())) < steps.size()) k.push_back(steps[size_t(std::atol(t.c_str()))]);
      steps = k;
    }
    for (auto& s : shapes) mix += std::string(kname(s.k)) + (s.parent ? "/" : " ");
    vh::tr("%s", mix.c_str());
    for (auto& s : steps) vh::tr("%s %zu %zu %zu", WHAT[s.w], s.a, s.b, s.n);
    vh::count("cycles", 24);
    vh::evals(24);
    vh::count("steps_run", 24 * steps.size());
    if (__sanitizer_get_current_allocated_bytes) {
      long by = 0;
      int ups = 0;
      bool g = grows(24, &by, &ups);
      if (g) g = grows(40, &by, &ups);  // it has to go on
      for (auto& x : shapes) keeps |= x.k == MIXED;  // whose release does nothing
      if (g && keeps) {
        // What pools cache may grow from cycle to cycle until it serves the whole piece of work from
        // whatever state it is found in: a leak goes beyond several times all that is asked for.
        const long start = long(__sanitizer_get_current_allocated_bytes());
        const long most = long(3 * (demand + blocks * 8300) + (1 << 20));
        long t0 = long(std::time(nullptr));
        while (g && long(__sanitizer_get_current_allocated_bytes()) - start <= most && std::time(nullptr) - t0 < 60) g = grows(40, &by, &ups);
        g = g && long(__sanitizer_get_current_allocated_bytes()) - start > most;
        vh::count("grown_on");
      }
      VH_CHECK(!g, "leak:growth", "a closed piece of work of " << steps.size() << " steps on " << mix << "leaves about " << by / 10 << " more bytes of heap each time it is repeated");
    }
    vh::count("steps_refused", threw);
    unmake_all();
    vh::sig(mix + "|" + (only < NWHAT ? WHAT[only] : "mixed"));
  }
  void unmake_all()
  {
    while (own.size()) own.pop_back();
    as.clear();
  }
};

// Internal records come from arenas of a million objects: a record lost per
// operation shows only after millions of them.
struct Mass {
  enum Pat { SINGLE, INORDER, REVERSE, MIDDLE, GROW, STACKED, EXTERNAL, RELEASE_EACH, REALLOCATE, ZERO, ZERO_GROWN, NPAT };
  static const char* pat(int p)
  {
    static const char* n[] = {"one block", "two blocks freed in order", "two blocks freed in reverse", "three blocks, the middle one last", "sizes that change", "several records at one address", "registered memory", "released every time", "reallocated", "no bytes", "no bytes, then some, then none"};
    return n[p];
  }
  static void run(vh::Rng& r, std::uint64_t c)
  {
    using namespace umpire::strategy;
    auto& rm = ResourceManager::getInstance();
    std::unique_ptr<Src> src(new Src("masssrc", 690));
    Allocator base = AllocatorTest::wrap(src.get());
    static const Kind ks[] = {QUICK, QUICK, QUICK, LIST, QUICK, MIXED, QUICK, LIST, QUICK, FIXED, TSAFE, QUICK, ALIGN, NAMED, LIST, LIMIT, QUICK, TSAFE, LIMIT, LIST};
    static const int ps[] = {SINGLE, INORDER, REVERSE, INORDER, MIDDLE, GROW, RELEASE_EACH, MIDDLE, REALLOCATE, REVERSE, STACKED, GROW, EXTERNAL, STACKED, RELEASE_EACH, INORDER, ZERO, ZERO, ZERO_GROWN, ZERO_GROWN};
    Kind k = ks[c % 20];
    int p = c < 20 ? ps[c] : int(r.below(NPAT));
    if (k == FIXED && (p == GROW || p >= REALLOCATE)) p = INORDER;
    std::unique_ptr<AllocationStrategy> inner, own;
    size_t f = r.range(600, 4000), n = r.range(600, 4000);
    switch (k) {
      case QUICK: own.reset(new QuickPool("mass", 701, base, f, n, 16)); break;
      case LIST: own.reset(new DynamicPoolList("mass", 701, base, f, n, 16)); break;
      case MIXED: own.reset(new MixedPool("mass", 701, base, 16, 256, 4096, 4, f, n, 16)); break;
      case FIXED: own.reset(new FixedPool("mass", 701, base, 64, 4)); break;
      case ALIGN: own.reset(new AlignedAllocator("mass", 701, base, 64)); break;
      case NAMED: own.reset(new NamedAllocationStrategy("mass", 701, base)); break;
      case LIMIT: own.reset(new SizeLimiter("mass", 701, base, 1 << 20)); break;
      default:
        inner.reset(new QuickPool("massin", 700, base, f, n, 16));
        own.reset(new ThreadSafeAllocator("mass", 701, AllocatorTest::wrap(inner.get())));
        break;
    }
    Allocator a = AllocatorTest::wrap(own.get());
    vh::step("mass", size_t(k), size_t(p));
    vh::tr("%s: %s", kname(k), pat(p));
    const size_t W = 1060000;  // a little more than one arena holds
    long held[4] = {0, 0, 0, 0};
    static char mem[4096];
    std::uint64_t x = r.next() | 1;
    for (int w = 0; w < 4; ++w) {
      for (size_t i = 0; i < (w ? W : 1000); ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        size_t s = k == FIXED ? 64 : p == GROW ? 1 + size_t(x >> 40) % 500 : 96;
        switch (p) {
          case SINGLE: a.deallocate(a.allocate(s)); break;
          case INORDER: { void *u = a.allocate(s), *v = a.allocate(s); a.deallocate(u); a.deallocate(v); break; }
          case REVERSE: { void *u = a.allocate(s), *v = a.allocate(s); a.deallocate(v); a.deallocate(u); break; }
          case MIDDLE: { void *u = a.allocate(s), *v = a.allocate(s), *t = a.allocate(s); a.deallocate(u); a.deallocate(t); a.deallocate(v); break; }
          case GROW: { void *u = a.allocate(s), *v = a.allocate(k == FIXED ? 64 : 600 - s); a.deallocate(u); a.deallocate(v); break; }
          case STACKED:
          case EXTERNAL: {
            void* m = mem + (p == STACKED ? 0 : size_t(x >> 40) % 2000);
            int d = p == STACKED ? 3 : 1;
            for (int j = 0; j < d; ++j) umpire::register_external_allocation(m, AllocationRecord{m, 64, own.get()});
            for (int j = 0; j < d; ++j) umpire::deregister_external_allocation(m);
            if (p == EXTERNAL) a.deallocate(a.allocate(s));
            break;
          }
          case ZERO: a.deallocate(a.allocate(0)); break;
          case ZERO_GROWN: { void* u = a.allocate(0); u = rm.reallocate(u, s); a.deallocate(u); u = a.allocate(s); u = rm.reallocate(u, 0); a.deallocate(u); break; }
          case RELEASE_EACH: a.deallocate(a.allocate(s)); a.release(); break;
          default: { void* u = a.allocate(s); u = rm.reallocate(u, s + 64); a.deallocate(u); break; }
        }
      }
      held[w] = __sanitizer_get_current_allocated_bytes ? long(__sanitizer_get_current_allocated_bytes()) : 0;
    }
    vh::count("mass_repetitions", 3 * W);
    vh::evals(3);
    VH_CHECK(!(held[2] > held[1] && held[3] > held[2]), "leak:mass", kname(k) << ", " << pat(p) << ": a million repetitions leave " << held[2] - held[1] << " bytes of heap behind, another million " << held[3] - held[2]);
    own.reset();
    inner.reset();
    vh::sig(std::string("mass|") + kname(k) + "|" + pat(p));
  }
};

void one(vh::Rng& r, std::uint64_t c)
{
  if (vh::st().opt.count("mode") && vh::st().opt["mode"] == "mass") { Mass::run(r, c); return; }
  Leak l(r);
  l.run();
}
} // namespace
int main(int argc, char** argv) { return vh::run(argc, argv, "leak", one); }
