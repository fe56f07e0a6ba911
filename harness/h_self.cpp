// Allocators, resources and the process describe themselves truthfully,
// whatever they are stacked on and whatever happened before.
#include <sys/mman.h>
#include <unistd.h>

#include <fstream>
#include <sstream>

#include "umpire/resource/MemoryResourceTypes.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/util/Platform.hpp"
#include "umpire/util/wrap_allocator.hpp"
#include "world.hpp"
using namespace world;
using umpire::Allocator;
using umpire::MemoryResourceTraits;
using umpire::ResourceManager;

namespace {
using T = MemoryResourceTraits;
const Platform PLAT[] = {Platform::undefined, Platform::host, Platform::cuda, Platform::omp_target, Platform::hip, Platform::sycl};

struct A {
  Allocator a;
  AllocationStrategy* s;
  AllocationStrategy* parent;
  std::string name, type;
  bool tracked;
  size_t root;     // index in v
  Kind kind;
  size_t fixed;
};
struct Self {
  vh::Rng& r;
  ResourceManager& rm{ResourceManager::getInstance()};
  std::vector<A> v;
  std::map<size_t, T> given;  // traits a resource was made with
  std::map<size_t, bool> id_set;
  std::map<size_t, char> what;  // 'h' host memory, 'f' file, 'n' no-op
  struct Live { void* p; size_t n, owner; };
  std::vector<Live> live;
  static int& serial() { static int n = 0; return n; }
  std::string uniq(const char* base) { return std::string(base) + std::to_string(++serial()); }

  explicit Self(vh::Rng& g) : r(g) {}

  T random_traits()
  {
    T t;
    t.id = int(r.below(100));
    t.unified = r.chance(1, 2);
    t.ipc = r.chance(1, 2);
    t.size = r.chance(1, 3) ? size_t(r.next()) : r.below(1 << 20);
    t.vendor = T::vendor_type(r.below(5));
    t.kind = T::memory_type(r.below(5));
    t.used_for = T::optimized_for(r.below(4));
    t.resource = T::resource_type(r.below(8));
    t.scope = T::shared_scope(r.below(3));
    t.granularity = T::granularity_type(r.below(3));
    t.tracking = r.chance(3, 4);
    return t;
  }
  static bool same(const T& a, const T& b, bool ids)
  {
    return (!ids || a.id == b.id) && a.unified == b.unified && a.ipc == b.ipc && a.size == b.size && a.vendor == b.vendor && a.kind == b.kind && a.used_for == b.used_for && a.resource == b.resource && a.scope == b.scope && a.granularity == b.granularity && a.tracking == b.tracking;
  }
  void roots()
  {
    auto add = [&](Allocator a, const std::string& name, const char* type, bool tracked, char w) {
      v.push_back({a, a.getAllocationStrategy(), nullptr, name, type, tracked, v.size(), ROOT, 0});
      what[v.size() - 1] = w;
    };
    add(rm.getAllocator("HOST"), "HOST", "MemoryResource", true, 'h');
    given[0] = umpire::get_default_resource_traits("HOST");
    size_t n = r.range(0, 2);
    for (size_t i = 0; i < n; ++i) {
      std::string nm = uniq(r.chance(1, 2) ? "HOST::self" : "selfHOST::");
      if (r.chance(2, 3)) {
        T t = random_traits();
        Allocator a = rm.makeResource(nm, t);
        add(a, nm, "MemoryResource", t.tracking, 'h');
        given[v.size() - 1] = t;
        id_set[v.size() - 1] = true;
      } else {
        Allocator a = rm.makeResource(nm);
        add(a, nm, "MemoryResource", true, 'h');
        given[v.size() - 1] = umpire::get_default_resource_traits(nm);
      }
    }
    auto names = rm.getResourceNames();
    for (auto& x : names) {
      if (x == "FILE" && r.chance(1, 3)) {
        add(rm.getAllocator("FILE"), "FILE", "MemoryResource", true, 'f');
        given[v.size() - 1] = umpire::get_default_resource_traits("FILE");
      }
      if (x == "NO_OP" && r.chance(1, 3)) add(rm.getAllocator("NO_OP"), "NO_OP", "MemoryResource", true, 'n');
    }
  }
  void make()
  {
    using namespace umpire::strategy;
    size_t pi = r.chance(1, 2) ? v.size() - 1 : r.below(v.size());
    bool can = v[pi].kind != FIXED && v[pi].kind != SLOT && v[pi].kind != MONO && what[v[pi].root] == 'h';
    for (size_t q = pi; can; ) {  // constructors that allocate want a parent that can serve
      if (v[q].kind == FIXED || v[q].kind == SLOT || v[q].kind == MONO || v[q].kind == LIMIT) can = false;
      if (!v[q].parent) break;
      for (size_t i = 0; i < v.size(); ++i) if (v[i].s == v[q].parent) { q = i; break; }
    }
    static const Kind ks[] = {QUICK, LIST, FIXED, SLOT, MIXED, MONO, LIMIT, ALIGN, TSAFE, SHIM, NAMED};
    Kind k = ks[r.below(11)];
    if (!can && (k == FIXED || k == MIXED || k == MONO || k == SLOT)) k = r.chance(1, 2) ? QUICK : NAMED;
    if (k == ALIGN && what[v[pi].root] != 'h') k = SHIM;  // refused over anything but host memory
    bool tr = r.chance(3, 4);
    auto t = tr ? umpire::Tracking::Tracked : umpire::Tracking::Untracked;
    Allocator p = v[pi].a;
    std::string nm = uniq("self_");
    if (r.chance(1, 8)) nm += std::string(r.range(1, 200), 'x');
    Allocator a;
    size_t fx = r.range(8, 200);
    const char* ty = "";
    int form = int(r.below(3));
#define MK(S, ...)                                                                            \
  (ty = #S, form == 0   ? rm.makeAllocator<S>(nm, t __VA_OPT__(, ) __VA_ARGS__)               \
            : tr        ? (form == 1 ? rm.makeAllocator<S>(nm __VA_OPT__(, ) __VA_ARGS__) : rm.makeAllocator<S, true>(nm __VA_OPT__(, ) __VA_ARGS__)) \
                        : rm.makeAllocator<S, false>(nm __VA_OPT__(, ) __VA_ARGS__))
    switch (k) {
      case QUICK: a = MK(QuickPool, p, size_t(512), size_t(256)); break;
      case LIST: a = MK(DynamicPoolList, p, size_t(512), size_t(256)); break;
      case FIXED: a = MK(FixedPool, p, fx, size_t(8)); break;
      case SLOT: a = MK(SlotPool, p, size_t(16)); break;
      case MIXED: a = MK(MixedPool, p); break;
      case MONO: a = MK(MonotonicAllocationStrategy, p, size_t(4096)); break;
      case LIMIT: a = MK(SizeLimiter, p, size_t(100000)); break;
      case ALIGN: a = MK(AlignedAllocator, p, size_t(64)); break;
      case TSAFE: a = MK(ThreadSafeAllocator, p); break;
      case SHIM: a = MK(NamingShim, p); break;
      default: a = MK(NamedAllocationStrategy, p); break;
    }
    vh::tr("make %s over %s", ty, v[pi].name.substr(0, 40).c_str());
    vh::step("make", size_t(k), pi);
    v.push_back({a, a.getAllocationStrategy(), v[pi].s, nm, ty, tr, v[pi].root, k, k == FIXED ? fx : 0});
    vh::sig(std::string(ty) + "<" + v[pi].type + "|" + what[v[pi].root] + (tr ? "t" : "u"));
  }
  // strategies that need operations this build has none of: refused, nothing registered
  void refused()
  {
    using namespace umpire::strategy;
    std::string nm = uniq("selfno_");
    size_t n0 = rm.getAllocatorNames().size(), i0 = rm.getAllocatorIds().size();
    bool threw = false;
    static const char* adv[] = {"READ_MOSTLY", "PREFERRED_LOCATION", "ACCESSED_BY", "nonsense", ""};
    try {
      if (r.chance(2, 3)) rm.makeAllocator<AllocationAdvisor>(nm, v[0].a, adv[r.below(5)]);
      else rm.makeAllocator<AllocationPrefetcher>(nm, v[0].a);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    if (threw) {
      VH_CHECK(!rm.isAllocator(nm), "self:refused", "an allocator that could not be made is registered");
      VH_CHECK(rm.getAllocatorNames().size() == n0 && rm.getAllocatorIds().size() == i0, "self:refused", "the lists changed with an allocator that could not be made");
      vh::count("refused_strategies");
    } else {
      VH_CHECK(rm.isAllocator(nm), "self:refused", "an allocator that was made is not registered");
    }
  }
  void describe(size_t i, Allocator a, const char* how)
  {
    A& x = v[i];
    const std::string w = x.type + " \"" + x.name.substr(0, 40) + "\" (" + how + ")";
    VH_CHECK(a.getName() == x.name, "self:name", w << " is called \"" << a.getName() << "\"");
    VH_CHECK(a.getId() == x.s->getId() && a.getId() >= 0, "self:id", w << " has the id " << a.getId());
    VH_CHECK(a.getAllocationStrategy() == x.s, "self:strategy", w << " denotes another strategy");
    VH_CHECK(x.type == "MemoryResource" || a.getStrategyName() == x.type, "self:type", w << " says it is a " << a.getStrategyName());
    VH_CHECK(a.getParent() == x.parent, "self:parent", w << " names another parent");
    VH_CHECK(a.isTracked() == x.tracked, "self:tracked", w << " says tracked " << a.isTracked());
    std::ostringstream o, e;
    o << a;
    e << "[" << x.name << "," << x.s->getId() << "]";
    VH_CHECK(o.str() == e.str(), "self:print", w << " prints as " << o.str());
    VH_CHECK(umpire::to_string(a) == x.name, "self:print", w << " to_string is " << umpire::to_string(a));
    A& root = v[x.root];
    char k = what[x.root];
    VH_CHECK(a.getPlatform() == root.s->getPlatform(), "self:platform", w << " and its resource give different platforms");
    if (k == 'h') VH_CHECK(a.getPlatform() == Platform::host, "self:platform", w << " on host memory has the platform " << umpire::platform_to_string(a.getPlatform()));
    T t = x.s->getTraits();
    if (given.count(x.root)) VH_CHECK(same(t, given[x.root], id_set.count(x.root)), "self:traits", w << " does not give the traits of its resource");
    if (given.count(x.root) && x.root == 0) VH_CHECK(t.resource == T::resource_type::host, "self:traits", w << " is host memory and does not say so");
    if (k == 'f') VH_CHECK(t.resource == T::resource_type::file, "self:traits", w << " is file memory and does not say so");
    for (Platform p : PLAT) {
      bool acc = umpire::is_accessible(p, a);
      if (p == Platform::host && k != 'n') VH_CHECK(acc, "self:accessible", w << " is said not to be accessible from the host");
      if (k == 'n' || p == Platform::undefined || p == Platform::hip || p == Platform::sycl || p == Platform::cuda) VH_CHECK(!acc, "self:accessible", w << " is said to be accessible from " << umpire::platform_to_string(p));
      VH_CHECK(acc == umpire::is_accessible(p, root.a), "self:accessible", w << " and its resource differ about " << umpire::platform_to_string(p));
    }
    vh::evals(1);
  }
  void look(size_t i)
  {
    A& x = v[i];
    switch (r.below(5)) {
      case 0: describe(i, x.a, "as made"); break;
      case 1: describe(i, rm.getAllocator(x.name), "by name"); break;
      case 2: describe(i, rm.getAllocator(x.s->getId()), "by id"); break;
      case 3: {
        Allocator c{x.a};
        Allocator d = rm.getAllocator("HOST");
        d = c;
        describe(i, d, "copied");
        break;
      }
      default:
        for (auto& l : live)
          if (l.owner == i && x.tracked) { describe(i, rm.getAllocator(static_cast<void*>(static_cast<char*>(l.p) + r.below(l.n))), "by pointer"); break; }
    }
    unwrap(i);
  }
  template <typename S> void one_unwrap(size_t i, const char* ty)
  {
    bool threw = false;
    S* s = nullptr;
    try { s = umpire::util::unwrap_allocator<S>(v[i].a); } catch (umpire::runtime_error&) { threw = true; }
    bool is = v[i].type == ty;
    VH_CHECK(threw == !is && (!is || static_cast<AllocationStrategy*>(s) == v[i].s), "self:unwrap", "a " << v[i].type << " unwrapped as " << ty << (threw ? " is refused" : " is accepted"));
  }
  void unwrap(size_t i)
  {
    using namespace umpire::strategy;
    switch (r.below(8)) {
      case 0: one_unwrap<QuickPool>(i, "QuickPool"); break;
      case 1: one_unwrap<DynamicPoolList>(i, "DynamicPoolList"); break;
      case 2: one_unwrap<FixedPool>(i, "FixedPool"); break;
      case 3: one_unwrap<SizeLimiter>(i, "SizeLimiter"); break;
      case 4: one_unwrap<ThreadSafeAllocator>(i, "ThreadSafeAllocator"); break;
      case 5: one_unwrap<MixedPool>(i, "MixedPool"); break;
      case 6: one_unwrap<NamingShim>(i, "NamingShim"); break;
      default: one_unwrap<umpire::resource::MemoryResource>(i, "MemoryResource"); break;
    }
  }
  bool usable(size_t i)
  {
    if (what[v[i].root] != 'h') return false;
    // a fixed size below: only the size it serves; keep to stacks without one
    for (size_t q = i;;) {
      if (v[q].kind == FIXED || v[q].kind == SLOT || v[q].kind == MONO) return q == i;
      if (!v[q].parent) return true;
      size_t n = q;
      for (size_t j = 0; j < v.size(); ++j) if (v[j].s == v[q].parent) n = j;
      if (n == q) return false;
      q = n;
    }
  }
  void work()
  {
    if (r.chance(3, 5)) {
      size_t i = r.below(v.size());
      if (!usable(i)) return;
      size_t n = v[i].fixed ? v[i].fixed : r.range(1, 600);
      try {
        void* p = r.chance(1, 4) ? v[i].a.allocate("some name", n) : v[i].a.allocate(n);
        std::memset(p, 1, n);
        live.push_back({p, n, i});
      } catch (umpire::runtime_error&) {
        vh::count("refused_requests");
      }
    } else if (!live.empty()) {
      size_t k = r.below(live.size());
      v[live[k].owner].a.deallocate(live[k].p);
      live.erase(live.begin() + long(k));
    }
  }
  static size_t proc(const char* key)
  {
    std::ifstream f("/proc/self/status");
    std::string l;
    while (std::getline(f, l))
      if (l.compare(0, std::strlen(key), key) == 0) return std::stoull(l.substr(std::strlen(key))) * 1024;
    return 0;
  }
  static size_t rss()
  {
    std::ifstream f("/proc/self/statm");
    size_t a = 0, b = 0;
    f >> a >> b;
    return b * size_t(sysconf(_SC_PAGESIZE));
  }
  void process()
  {
    std::vector<char> big;
    if (r.chance(1, 10)) big.assign(r.range(8, 40) << 20, 1);
    // A high mark far from the present use, and large enough to tell units apart
    if (r.chance(1, 60)) {
      size_t n = size_t(r.range(400, 500)) << 20;
      void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_POPULATE, -1, 0);
      if (m != MAP_FAILED) {
        if (r.chance(1, 2)) usage();
        munmap(m, n);
        vh::count("memory_peaks");
      }
    }
    usage();
  }
  void usage()
  {
    size_t a = rss(), u = umpire::get_process_memory_usage(), b = rss();
    const size_t slack = size_t(4) << 20;
    VH_CHECK(u + slack >= std::min(a, b) && u <= std::max(a, b) + slack, "self:usage", "get_process_memory_usage is " << u << ", the system says " << a << " before and " << b << " after");
    size_t h0 = proc("VmHWM:"), h = umpire::get_process_memory_usage_hwm(), h1 = proc("VmHWM:");
    VH_CHECK(h + slack >= h0 && h <= h1 + slack, "self:usage-hwm", "get_process_memory_usage_hwm is " << h << ", the system says " << h0 << " before and " << h1 << " after");
    VH_CHECK(umpire::get_device_memory_usage(int(r.below(4))) == 0, "self:device", "memory is in use on a device there is none of");
    VH_CHECK(rm.getNumDevices() == 0 || rm.getNumDevices() == 1, "self:device", "there are " << rm.getNumDevices() << " devices");
  }
  void resources()
  {
    using namespace umpire::resource;
    auto names = rm.getResourceNames();
    std::set<std::string> s(names.begin(), names.end());
    VH_CHECK(s.size() == names.size() && s.count("HOST"), "self:resources", "getResourceNames gives " << names.size() << " names, " << s.size() << " different");
    static const char* all[] = {"HOST", "DEVICE", "UM", "PINNED", "DEVICE_CONST", "FILE", "NO_OP", "SHARED"};
    static const MemoryResourceType ty[] = {Host, Device, Unified, Pinned, Constant, File, NoOp, Shared};
    size_t k = r.below(8);
    VH_CHECK(resource_to_string(ty[k]) == all[k] && string_to_resource(all[k]) == ty[k], "self:resource-name", "resource " << all[k] << " and its number do not match");
    std::string bad = r.chance(1, 2) ? std::string(all[k]) + char('A' + r.below(26)) : std::string(all[k]).substr(1);
    bool threw = false;
    try { string_to_resource(bad); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw, "self:resource-name", "\"" << bad << "\" is taken for a resource");
    threw = false;
    try { resource_to_string(MemoryResourceType(8 + r.below(8))); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw, "self:resource-name", "an unknown resource type has a name");
    if (s.count(all[k]) && ty[k] != Shared) {
      VH_CHECK(rm.getAllocator(ty[k]).getName() == all[k], "self:resource-type", "getAllocator(type) of " << all[k] << " is " << rm.getAllocator(ty[k]).getName());
      VH_CHECK(rm.getAllocator(ty[k]).getId() == rm.getAllocator(all[k]).getId(), "self:resource-type", all[k] << " by type and by name differ");
    } else if (!s.count(all[k])) {
      threw = false;
      try { rm.getAllocator(ty[k]); } catch (umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw, "self:resource-type", "getAllocator(type) gives a " << all[k] << " this build does not have");
    }
    static const std::pair<Platform, const char*> pl[] = {{Platform::undefined, "Undefined"}, {Platform::host, "Host"}, {Platform::cuda, "Cuda"},
                                                          {Platform::omp_target, "OmpTarget"}, {Platform::hip, "Hip"}, {Platform::sycl, "Sycl"}};
    auto& pn = pl[r.below(6)];
    VH_CHECK(umpire::platform_to_string(pn.first) == pn.second, "self:platform-name", "the platform " << pn.second << " is called " << umpire::platform_to_string(pn.first));
    size_t d = r.below(1000);
    std::string dn = std::string(all[k]) + "::" + std::to_string(d);
    VH_CHECK(size_t(resource_to_device_id(dn)) == d && resource_to_device_id(all[k]) == 0, "self:device-id", dn << " is device " << resource_to_device_id(dn));
    threw = false;
    try { umpire::get_default_resource_traits("nothing" + std::to_string(d)); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw, "self:resource-name", "an unknown resource has traits");
    threw = false;
    std::string un = "self" + std::to_string(d);
    try { rm.makeResource(un); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw && !rm.isAllocator(un), "self:resource-name", "a resource \"" << un << "\" could be made");
    VH_CHECK(umpire::get_major_version() == UMPIRE_VERSION_MAJOR && umpire::get_minor_version() == UMPIRE_VERSION_MINOR && umpire::get_patch_version() == UMPIRE_VERSION_PATCH, "self:version", "the version functions and the headers differ");
    threw = false;
    try { umpire::find_pointer_from_name(v[r.below(v.size())].a, "nobody"); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw, "self:find-name", "a name was found in an allocator that is not shared memory");
  }
  void run()
  {
    roots();
    size_t ops = r.range(30, 120), most = r.range(1, 8), made = 0;
    for (size_t i = 0; i < ops; ++i) {
      unsigned k = unsigned(r.below(100));
      if (made < most && (k < 20 || i < 2)) { make(); ++made; }
      else if (k < 60) work();
      else if (k < 90) { vh::step("look"); look(r.below(v.size())); }
      else if (k < 93) { vh::step("process"); process(); }
      else if (k < 95) { vh::step("refused"); refused(); }
      else { vh::step("resources"); resources(); }
    }
    for (size_t i = 0; i < v.size(); ++i) describe(i, v[i].a, "at the end");
    for (auto& l : live) v[l.owner].a.deallocate(l.p);
    vh::count("allocators", v.size());
  }
};
void one(vh::Rng& r, std::uint64_t)
{
  Self s(r);
  s.run();
}
} // namespace
int main(int argc, char** argv) { return vh::run(argc, argv, "self", one); }
