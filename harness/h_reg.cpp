// Allocator registry (names, ids, aliases, default) and typed allocators in
// standard containers.   --opt mode=registry|crowd|typed
#include <cstring>
#include <deque>
#include <list>
#include <unordered_map>

#include "umpire/TypedAllocator.hpp"
#include "umpire/resource/MemoryResourceTypes.hpp"
#include "world.hpp"
using namespace world;
using umpire::Allocator;
using umpire::ResourceManager;

// ------------------------------------------------------------------ registry
namespace reg {
struct Ent {
  int id;
  AllocationStrategy* s;
  std::string own;  // its own name
  bool tracked;
};
static std::map<std::string, Ent> names;  // every registered name and alias
static std::set<int> ids;
static bool inited = false;

struct Reg {
  vh::Rng& r;
  std::uint64_t c;
  ResourceManager& rm{ResourceManager::getInstance()};
  std::string pre;
  std::vector<std::string> mine;  // names used in this case
  explicit Reg(vh::Rng& rng, std::uint64_t cs) : r(rng), c(cs), pre("c" + std::to_string(cs) + "_")
  {
    if (!inited) {
      inited = true;
      for (const char* n : {"HOST", "NO_OP"}) note(n, rm.getAllocator(n));
    }
  }
  void note(const std::string& n, Allocator a)
  {
    names[n] = Ent{a.getId(), a.getAllocationStrategy(), n, a.isTracked()};
    ids.insert(a.getId());
  }
  std::string fresh()
  {
    static const char* parts[] = {"pool", "a", "HOST", "A b", "x::1", "", "::", "\xc3\xa9", "DEVICE", "UM", "FILE_"};
    std::string s = pre + parts[r.below(11)] + std::to_string(r.below(40));
    if (r.chance(1, 10)) s += std::string(r.below(r.chance(1, 4) ? 5000 : 200), 'z');
    return s;
  }
  std::string some() { return !mine.empty() && r.chance(2, 3) ? mine[r.below(mine.size())] : r.chance(1, 6) ? "HOST" : fresh(); }
  static bool builtin(const std::string& n)
  {
    for (const char* b : {"HOST", "NO_OP", "SHARED", "FILE"}) if (n == b) return true;
    return false;
  }
  Allocator any()
  {
    auto it = names.begin();
    if (!mine.empty() && r.chance(3, 4)) it = names.find(mine[r.below(mine.size())]);
    else std::advance(it, r.below(names.size()));
    if (it == names.end()) it = names.find("HOST");
    return rm.getAllocator(it->first);
  }
  void make()
  {
    std::string n = some();
    bool taken = names.count(n) || builtin(n);
    bool tracked = r.chance(4, 5);
    auto t = tracked ? umpire::Tracking::Tracked : umpire::Tracking::Untracked;
    vh::step("make", vh::hash_str(n.substr(pre.size() < n.size() ? pre.size() : 0)), taken);
    bool threw = false;
    Allocator a, host = rm.getAllocator("HOST");
    unsigned k = unsigned(r.below(4));
    bool bad_ctor = false;
    try {
      switch (k) {
        case 0: a = rm.makeAllocator<umpire::strategy::SizeLimiter>(n, t, host, 1000); break;
        case 1: a = rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>(n, t, any()); break;
        case 2: a = rm.makeAllocator<umpire::strategy::ThreadSafeAllocator>(n, t, host); break;
        default:
          bad_ctor = r.chance(1, 2);  // a strategy whose constructor refuses leaves nothing behind
          a = rm.makeAllocator<umpire::strategy::AlignedAllocator>(n, t, host, bad_ctor ? size_t(3) : size_t(64));
          break;
      }
    } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw == (taken || bad_ctor), taken ? "reg:duplicate" : "reg:make", "making an allocator named \"" << n << "\" (" << (taken ? "taken" : "free") << (bad_ctor ? ", refusing constructor" : "") << ")" << (threw ? " is refused" : " succeeds"));
    if (threw) return;
    VH_CHECK(a.getName() == n, "reg:name", "the new allocator's name is \"" << a.getName() << "\" instead of \"" << n << "\"");
    VH_CHECK(!ids.count(a.getId()) && a.getId() >= 0, "reg:id", "the id " << a.getId() << " of a new allocator was in use");
    VH_CHECK(a.isTracked() == tracked, "reg:tracked", "introspection is " << a.isTracked() << ", asked for " << tracked);
    note(n, a);
    mine.push_back(n);
  }
  void alias()
  {
    std::string n = some();
    bool taken = names.count(n) || builtin(n);
    Allocator a = any();
    vh::step("alias", vh::hash_str(n.substr(pre.size() < n.size() ? pre.size() : 0)), taken);
    bool threw = false;
    try { rm.addAlias(n, a); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw == taken, "reg:alias", "adding the alias \"" << n << "\" (" << (taken ? "taken" : "free") << ")" << (threw ? " is refused" : " succeeds"));
    if (threw) return;
    names[n] = Ent{a.getId(), a.getAllocationStrategy(), a.getName(), a.isTracked()};
    mine.push_back(n);
  }
  void unalias()
  {
    std::string n = r.chance(1, 12) ? (r.chance(1, 2) ? "SHARED" : "FILE") : some();
    auto it = names.find(n);
    Allocator a = it != names.end() && r.chance(2, 3) ? rm.getAllocator(n) : any();
    bool ok = it != names.end() && it->second.own != n && it->second.id == a.getId();
    vh::step("unalias", ok, it != names.end());
    bool threw = false;
    try { rm.removeAlias(n, a); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw == !ok, "reg:unalias", "removing the alias \"" << n << "\" (" << (it == names.end() ? "unknown" : it->second.own == n ? "an allocator's own name" : it->second.id != a.getId() ? "alias of another allocator" : "alias") << ")" << (threw ? " is refused" : " succeeds"));
    if (!threw) {
      names.erase(it);
      mine.erase(std::remove(mine.begin(), mine.end(), n), mine.end());
    }
  }
  void lookup()
  {
    std::string n = some();
    auto it = names.find(n);
    vh::step("lookup", it != names.end());
    vh::count(it != names.end() ? "found" : "not_found");
    VH_CHECK(rm.isAllocator(n) == (it != names.end() || builtin(n)), "reg:is", "isAllocator(\"" << n << "\") is " << rm.isAllocator(n));
    if (it == names.end()) {
      if (builtin(n)) return;
      int threw = 0;
      try { rm.getAllocator(n); } catch (umpire::runtime_error&) { ++threw; }
      try { rm.getAllocator(n.c_str()); } catch (umpire::runtime_error&) { ++threw; }
      VH_CHECK(threw == 2, "reg:unknown", "getAllocator of an unknown name gives an allocator");
      VH_CHECK(!rm.isAllocator(n), "reg:unknown", "looking up an unknown name registers it");
    } else {
      Allocator a = r.chance(1, 2) ? rm.getAllocator(n) : rm.getAllocator(n.c_str());
      VH_CHECK(a.getAllocationStrategy() == it->second.s && a.getId() == it->second.id && a.getName() == it->second.own, "reg:get", "getAllocator(\"" << n << "\") gives \"" << a.getName() << "\" id " << a.getId() << ", registered \"" << it->second.own << "\" id " << it->second.id);
      Allocator b = rm.getAllocator(it->second.id);
      VH_CHECK(b.getAllocationStrategy() == it->second.s, "reg:get-id", "getAllocator(" << it->second.id << ") gives \"" << b.getName() << "\"");
      VH_CHECK(rm.isAllocator(it->second.id), "reg:is-id", "isAllocator(id) denies an allocator");
    }
    int id = int(r.range(0, 100000));
    if (r.chance(1, 4)) id = -int(r.range(1, 100000));
    if (r.chance(1, 8)) id = umpire::invalid_allocator_id;
    if (ids.count(id)) return;
    if (id >= 0 && id < 4 && rm.isAllocator(id)) return;  // the library's own resources
    VH_CHECK(!rm.isAllocator(id), "reg:is-id", "isAllocator(" << id << ") although no allocator has that id");
    bool threw = false;
    try { rm.getAllocator(id); } catch (umpire::runtime_error&) { threw = true; }
    VH_CHECK(threw, "reg:unknown-id", "getAllocator(" << id << ") gives an allocator although none has that id");
  }
  void listing()
  {
    vh::step("listing", names.size());
    auto v = rm.getAllocatorNames();
    std::set<std::string> got(v.begin(), v.end());
    VH_CHECK(got.size() == v.size(), "reg:names", "getAllocatorNames lists a name twice");
    for (auto& e : names) VH_CHECK(got.count(e.first), "reg:names", "getAllocatorNames lacks \"" << e.first << "\"");
    for (auto& g : got) VH_CHECK(names.count(g), "reg:names", "getAllocatorNames lists \"" << g << "\", which is not registered");
    auto iv = rm.getAllocatorIds();
    std::set<int> gi(iv.begin(), iv.end());
    VH_CHECK(gi.size() == iv.size(), "reg:ids", "getAllocatorIds lists an id twice");
    for (int i : ids) VH_CHECK(gi.count(i), "reg:ids", "getAllocatorIds lacks " << i);
    auto rn = rm.getResourceNames();
    for (const char* n : {"HOST", "NO_OP", "SHARED", "FILE"}) VH_CHECK(std::count(rn.begin(), rn.end(), n) == 1, "reg:resources", "getResourceNames lacks " << n);
  }
  void defaults()
  {
    Allocator a = any();
    vh::step("default");
    rm.setDefaultAllocator(a);
    VH_CHECK(rm.getDefaultAllocator().getAllocationStrategy() == a.getAllocationStrategy(), "reg:default", "getDefaultAllocator gives \"" << rm.getDefaultAllocator().getName() << "\", set \"" << a.getName() << "\"");
    bool limited = dynamic_cast<umpire::strategy::SizeLimiter*>(a.getAllocationStrategy()) != nullptr;
    if (a.isTracked() && a.getName() != "NO_OP") {
      bool noop = false;
      for (AllocationStrategy* s = a.getAllocationStrategy(); s; s = s->getParent()) noop |= s->getName() == "NO_OP";
      if (!noop) {
        (void)limited;
        void* p = umpire::malloc(r.range(1, 50));
        VH_CHECK(rm.getAllocator(p).getAllocationStrategy() == a.getAllocationStrategy(), "reg:default-malloc", "umpire::malloc allocated from \"" << rm.getAllocator(p).getName() << "\", the default is \"" << a.getName() << "\"");
        umpire::free(p);
      }
    }
    rm.setDefaultAllocator(rm.getAllocator("HOST"));
  }
  void resources()
  {
    using namespace umpire::resource;
    vh::step("resources");
    for (int t = Host; t < Unknown; ++t) {
      auto s = resource_to_string(MemoryResourceType(t));
      VH_CHECK(string_to_resource(s) == t, "reg:resource-type", "resource type " << t << " -> " << s << " -> " << string_to_resource(s));
    }
    int threw = 0;
    try { resource_to_string(Unknown); } catch (umpire::runtime_error&) { ++threw; }
    try { string_to_resource("HOSTX" + std::to_string(r.below(10))); } catch (umpire::runtime_error&) { ++threw; }
    try { string_to_resource(""); } catch (umpire::runtime_error&) { ++threw; }
    VH_CHECK(threw == 3, "reg:resource-type", "an unknown resource name or type is accepted");
    VH_CHECK(rm.getAllocator(Host).getName() == "HOST", "reg:resource-type", "getAllocator(Host) is not HOST");
    int d = int(r.below(1000));
    VH_CHECK(resource_to_device_id("DEVICE::" + std::to_string(d)) == d && resource_to_device_id("DEVICE") == 0, "reg:device-id", "the device id of DEVICE::" << d << " is " << resource_to_device_id("DEVICE::" + std::to_string(d)));
    bool t2 = false;
    try { rm.makeResource("NOSUCH" + std::to_string(r.below(9))); } catch (umpire::runtime_error&) { t2 = true; }
    VH_CHECK(t2, "reg:make-resource", "makeResource of an unknown resource succeeds");
    t2 = false;
    try { rm.makeResource("HOST"); } catch (umpire::runtime_error&) { t2 = true; }
    VH_CHECK(t2, "reg:make-resource", "HOST can be created a second time");
    // a name that is none of a resource but contains one: refused, and nothing of it remains
    {
      static const char* parts[] = {"HOST", "NO_OP", "HOST", "FILE"};
      std::string n = r.chance(1, 2) ? pre + parts[r.below(4)] + std::to_string(r.below(9)) : parts[r.below(4)] + std::string(1, char('a' + r.below(26)));
      if (!names.count(n)) {
        t2 = false;
        try { if (r.chance(1, 2)) rm.makeResource(n); else rm.makeResource(n, umpire::get_default_resource_traits("HOST")); } catch (umpire::runtime_error&) { t2 = true; }
        VH_CHECK(t2, "reg:make-resource", "makeResource(" << n << ") succeeds");
        VH_CHECK(!rm.isAllocator(n), "reg:make-resource", "makeResource(" << n << ") was refused and the name is registered");
        t2 = false;
        try { rm.getAllocator(n); } catch (umpire::runtime_error&) { t2 = true; }
        VH_CHECK(t2, "reg:make-resource", "makeResource(" << n << ") was refused and the name is found");
      }
    }
    // a resource of a given device: registered under its name, device 0 also under the base name unless that is taken
    if (r.chance(1, 6)) {
      static std::set<int> made;
      int k = int(r.range(0, 30));
      std::string n = "HOST::" + std::to_string(k);
      if (r.chance(1, 4)) n = "HOST::0" + std::string(r.below(2), '0') + std::string(r.below(2), 'x') + std::to_string(r.below(40));
      if (!names.count(n)) {
        bool made_it = true;
        Allocator a;
        try { a = rm.makeResource(n); } catch (umpire::runtime_error&) { made_it = false; }
        if (made_it) {
          VH_CHECK(a.getName() == n, "reg:make-resource", "makeResource(" << n << ") gives " << a.getName());
          names[n] = Ent{a.getId(), a.getAllocationStrategy(), n, a.isTracked()};
          ids.insert(a.getId());
        }
      }
    }
  }
  // More allocators than 16 bits number.
  void crowd()
  {
    size_t n = 65536 + r.range(1, 2000);
    vh::step("crowd", n);
    std::vector<std::pair<std::string, Ent>> v;
    Allocator host = rm.getAllocator("HOST");
    for (size_t i = 0; i < n; ++i) {
      std::string nm = pre + "m" + std::to_string(i);
      Allocator a = rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>(nm, host);
      VH_CHECK(a.getName() == nm && ids.insert(a.getId()).second, "reg:id", "allocator " << i << " has name \"" << a.getName() << "\" and id " << a.getId() << ", which was in use");
      v.push_back({nm, Ent{a.getId(), a.getAllocationStrategy(), nm, true}});
      names[nm] = v.back().second;
    }
    for (auto& e : v) {
      VH_CHECK(rm.getAllocator(e.first).getAllocationStrategy() == e.second.s, "reg:get", "getAllocator(\"" << e.first << "\") gives another allocator");
      VH_CHECK(rm.isAllocator(e.second.id) && rm.getAllocator(e.second.id).getAllocationStrategy() == e.second.s, "reg:get-id", "getAllocator(" << e.second.id << ") is not \"" << e.first << "\"");
    }
    listing();
    vh::sig("registry-crowd");
  }
  void run()
  {
    if (vh::st().opt["mode"] == "crowd") return crowd();
    size_t ops = r.range(40, 200);
    for (size_t i = 0; i < ops; ++i) {
      unsigned k = unsigned(r.below(100));
      if (k < 20) make();
      else if (k < 42) alias();
      else if (k < 62) unalias();
      else if (k < 90) lookup();
      else if (k < 94) listing();
      else if (k < 98) defaults();
      else resources();
    }
    listing();
    vh::sig("registry|" + std::to_string(names.size() / 20));
  }
};
}  // namespace reg

// --------------------------------------------------------------------- typed
namespace typed {
struct Obj {
  long a;
  std::string s;
  Obj(long x = 0) : a(x), s(std::to_string(x)) {}
  bool operator==(const Obj& o) const { return a == o.a && s == o.s; }
};
template <typename T>
using TA = umpire::TypedAllocator<T>;

struct Typed {
  vh::Rng& r;
  ResourceManager& rm{ResourceManager::getInstance()};
  std::vector<std::unique_ptr<AllocationStrategy>> own;
  std::vector<Allocator> as;
  explicit Typed(vh::Rng& rng) : r(rng)
  {
    using namespace umpire::strategy;
    Allocator host = rm.getAllocator("HOST");
    for (int i = 0; i < 2; ++i) {
      std::string nm = "ty" + std::to_string(i);
      int id = 700 + i;
      switch (r.below(4)) {
        case 0: own.emplace_back(new QuickPool(nm, id, host, r.range(1, 4000), r.range(1, 4000), 16)); break;
        case 1: own.emplace_back(new DynamicPoolList(nm, id, host, r.range(1, 4000), r.range(1, 4000), 16)); break;
        case 2: own.emplace_back(new NamedAllocationStrategy(nm, id, host)); break;
        default: own.emplace_back(new ThreadSafeAllocator(nm, id, host)); break;
      }
      as.push_back(AllocatorTest::wrap(own.back().get()));
    }
  }
  template <typename C, typename M>
  void same(const C& c, const M& m, const char* what)
  {
    VH_CHECK(c.size() == m.size() && std::equal(c.begin(), c.end(), m.begin()), "typed:content", what << " over a typed allocator differs from the same operations on the standard allocator");
  }
  template <typename T, typename Mk>
  void sequence(Mk mk, const char* what)
  {
    std::vector<T, TA<T>> v{TA<T>(as[0])}, w{TA<T>(as[1])};
    std::deque<T, TA<T>> q{TA<T>(as[r.below(2)])};
    std::list<T, TA<T>> l{TA<T>(as[r.below(2)])};
    std::vector<T> mv, mw;
    std::deque<T> mq;
    std::list<T> ml;
    size_t ops = r.range(10, 120);
    for (size_t i = 0; i < ops; ++i) {
      T x = mk(r.next());
      unsigned k = unsigned(r.below(14));
      vh::step(what, k);
      switch (k) {
        case 0: case 1: v.push_back(x); mv.push_back(x); break;
        case 2: { size_t at = r.below(mv.size() + 1); v.insert(v.begin() + long(at), x); mv.insert(mv.begin() + long(at), x); break; }
        case 3: if (!mv.empty()) { size_t at = r.below(mv.size()); v.erase(v.begin() + long(at)); mv.erase(mv.begin() + long(at)); } break;
        case 4: { size_t n = r.below(200); v.resize(n, x); mv.resize(n, x); break; }
        case 5: v.shrink_to_fit(); break;
        case 6: w = v; mw = mv; break;
        case 7: { std::vector<T, TA<T>> t(v); same(t, mv, what); v = std::move(t); break; }
        case 8: { std::vector<T, TA<T>> t{TA<T>(as[1])}; t = w; same(t, mw, what); w = std::move(t); break; }
        case 9: q.push_front(x); mq.push_front(x); q.push_back(x); mq.push_back(x); break;
        case 10: if (!mq.empty()) { q.pop_front(); mq.pop_front(); } break;
        case 11: l.push_front(x); ml.push_front(x); break;
        case 12: if (!ml.empty()) { l.pop_back(); ml.pop_back(); } l.reverse(); ml.reverse(); break;
        default: { auto& a = as[r.below(2)]; size_t n = r.range(0, 400); TA<T> ta(a); size_t c0 = a.getCurrentSize(), n0 = a.getAllocationCount();
          T* p = ta.allocate(n);
          VH_CHECK(a.getCurrentSize() == c0 + n * sizeof(T) && a.getAllocationCount() == n0 + 1, "typed:bytes", "allocate(" << n << ") of " << sizeof(T) << "-byte objects accounts for " << a.getCurrentSize() - c0 << " bytes");
          VH_CHECK(rm.getSize(p) == n * sizeof(T), "typed:bytes", "allocate(" << n << ") gives " << rm.getSize(p) << " bytes for " << sizeof(T) << "-byte objects");
          VH_CHECK(std::uintptr_t(p) % alignof(T) == 0 || n == 0, "typed:align", "a typed allocation is misaligned for its type");
          if (n) std::memset((void*)p, 0x5a, n * sizeof(T));
          ta.deallocate(p, n);
          VH_CHECK(a.getCurrentSize() == c0 && a.getAllocationCount() == n0, "typed:bytes", "deallocate does not undo allocate");
          break; }
      }
      same(v, mv, what);
    }
    same(w, mw, what); same(q, mq, what); same(l, ml, what);
  }
  void maps()
  {
    using P = std::pair<const int, Obj>;
    std::map<int, Obj, std::less<int>, TA<P>> m{std::less<int>(), TA<P>(as[0])};
    std::unordered_map<int, Obj, std::hash<int>, std::equal_to<int>, TA<P>> u(8, std::hash<int>(), std::equal_to<int>(), TA<P>(as[1]));
    std::map<int, Obj> mm;
    std::basic_string<char, std::char_traits<char>, TA<char>> s{TA<char>(as[0])};
    std::string ms;
    size_t ops = r.range(20, 200);
    for (size_t i = 0; i < ops; ++i) {
      int k = int(r.below(60));
      vh::step("map", U(k));
      if (r.chance(2, 3)) { Obj o(long(r.below(1000))); m.erase(k); m.emplace(k, o); u.erase(k); u.emplace(k, o); mm.erase(k); mm.emplace(k, o); }
      else { m.erase(k); u.erase(k); mm.erase(k); }
      if (r.chance(1, 2)) { std::string t(r.below(30), char('a' + r.below(26))); s.append(t.c_str()); ms.append(t); }
      if (r.chance(1, 10)) { s.erase(0, s.size() / 2); ms.erase(0, ms.size() / 2); }
    }
    VH_CHECK(m.size() == mm.size() && std::equal(m.begin(), m.end(), mm.begin()), "typed:content", "std::map over a typed allocator differs");
    VH_CHECK(u.size() == mm.size(), "typed:content", "std::unordered_map over a typed allocator differs");
    for (auto& e : mm) VH_CHECK(u.count(e.first) && u.at(e.first) == e.second, "typed:content", "std::unordered_map over a typed allocator differs");
    VH_CHECK(ms == s.c_str(), "typed:content", "std::basic_string over a typed allocator differs");
  }
  using U = std::uint64_t;
  void equality()
  {
    TA<int> a(as[0]), a2(as[0]), b(as[1]);
    TA<Obj> o(a);
    vh::step("equality");
    VH_CHECK(a == a2 && !(a != a2) && a == o && a != b && !(a == b) && TA<int>(o) == a, "typed:equal", "typed allocators compare wrongly");
    TA<Obj> ob(b);
    Obj* p = ob.allocate(3);
    VH_CHECK(rm.getAllocator(p).getAllocationStrategy() == as[1].getAllocationStrategy(), "typed:rebind", "a converted typed allocator allocates elsewhere");
    TA<Obj>(TA<char>(as[1])).deallocate(p, 3);
  }
  template <typename T>
  void overflow()
  {
    auto& a = as[r.below(2)];
    TA<T> t(a);
    const size_t M = std::numeric_limits<size_t>::max();
    size_t n = r.chance(1, 2) ? M / sizeof(T) + 1 + r.below(100) : M - r.below(1000);
    if (r.chance(1, 3)) n = M / sizeof(T) - r.below(3);
    if (sizeof(T) > 1 && r.chance(1, 4)) n = (size_t(1) << (64 - __builtin_ctzl(sizeof(T) & ~(sizeof(T) - 1)))) + r.range(0, 3);
    if (n < (size_t(1) << 40)) return;
    size_t c0 = a.getCurrentSize(), k0 = a.getAllocationCount();
    vh::step("overflow", n);
    bool refused = false;
    T* p = nullptr;
    try { p = t.allocate(n); } catch (std::exception&) { refused = true; }
    VH_CHECK(refused, "typed:overflow", "allocate(" << n << ") of " << sizeof(T) << "-byte objects succeeds");
    VH_CHECK(a.getCurrentSize() == c0 && a.getAllocationCount() == k0, "typed:overflow", "a refused typed allocation changed statistics");
    vh::count("overflow_requests");
    (void)p;
  }
  struct T24 { char c[24]; };
  void run()
  {
    switch (r.below(5)) {
      case 0: sequence<int>([](U x) { return int(x); }, "int"); break;
      case 1: sequence<std::string>([](U x) { return std::string(x % 50, char('a' + x % 26)); }, "string"); break;
      case 2: sequence<Obj>([](U x) { return Obj(long(x % 10000)); }, "object"); break;
      case 3: sequence<double>([](U x) { return double(x % 1000) / 7; }, "double"); break;
      default: maps(); break;
    }
    equality();
    overflow<int>(); overflow<Obj>(); overflow<T24>(); overflow<double>(); overflow<char>();
    for (auto& a : as) {
      VH_CHECK(a.getCurrentSize() == 0 && a.getAllocationCount() == 0, "typed:leak", "after the containers are gone " << a.getCurrentSize() << " bytes in " << a.getAllocationCount() << " allocations remain");
      VH_CHECK(umpire::get_allocator_records(a).empty(), "typed:leak", "records remain after the containers are gone");
    }
    vh::sig("typed|" + as[0].getStrategyName() + "|" + as[1].getStrategyName());
  }
};
}  // namespace typed

static void one_case(vh::Rng& rng, std::uint64_t c)
{
  if (vh::st().opt["mode"] == "typed") {
    auto* t = new typed::Typed(rng);
    t->run();
    delete t;
  } else {
    reg::Reg(rng, c).run();
  }
}
int main(int argc, char** argv) { return vh::run(argc, argv, "reg", one_case); }
