// The resource manager's view of memory: introspection, copy/memset,
// reallocate/move, invalid deallocation, zero-byte allocations, record lists.
// One model (address -> stack of records with their bytes) decides everything.
// --opt mode=intro|copy|realloc|bad|zero|records
#include <sstream>

#include "world.hpp"
#include "umpire/util/allocation_statistics.hpp"
using namespace world;
using umpire::Allocator;
using umpire::ResourceManager;
using umpire::util::AllocationRecord;
using U = std::uintptr_t;

namespace {

struct A {  // an allocator of the case
  Kind kind;
  std::string label;
  std::unique_ptr<AllocationStrategy> own;
  std::vector<std::unique_ptr<AllocationStrategy>> below;
  Allocator a;
  size_t fixed{0};     // only this size is served
  size_t cap{0};       // refuses beyond this much live (0: never)
  size_t sum{0}, cnt{0}, hwm{0};
  bool host{false};
};

struct Rec {
  size_t size;
  A* a;
  std::string name;
  bool ext;
  bool name_known;
  std::vector<unsigned char> bytes;
};

struct Rm {
  vh::Rng& r;
  std::string mode;
  ResourceManager& rm{ResourceManager::getInstance()};
  std::vector<std::unique_ptr<A>> as;
  std::map<U, std::vector<Rec>> live;
  std::vector<U> freed;
  std::vector<unsigned char> extmem;
  size_t extused{0};
  camp::resources::Resource ctx{camp::resources::Host()};

  explicit Rm(vh::Rng& rng) : r(rng), mode(vh::st().opt.count("mode") ? vh::st().opt["mode"] : "intro"), extmem(1 << 16) {}

  A& mk(Kind k)
  {
    using namespace umpire::strategy;
    as.emplace_back(new A);
    A& x = *as.back();
    x.kind = k;
    int id = 500 + int(as.size());
    std::string nm = std::string("rm") + kname(k) + std::to_string(as.size());
    x.label = nm;
    Allocator host = rm.getAllocator("HOST");
    static const size_t aligns[] = {1, 4, 8, 16, 64, 256};
    size_t al = aligns[r.below(6)], f = r.range(1, 5000), n = r.range(1, 5000);
    switch (k) {
      case ROOT: x.host = true; x.a = host; return x;
      case QUICK: x.own.reset(new QuickPool(nm, id, host, f, n, al)); break;
      case LIST: x.own.reset(new DynamicPoolList(nm, id, host, f, n, al)); break;
      case FIXED:
        x.fixed = r.chance(1, 3) ? r.range(1, 6) : r.range(1, 400);
        x.own.reset(new FixedPool(nm, id, host, x.fixed, r.range(1, x.fixed < 7 ? 300 : 40)));
        break;
      case MIXED: x.own.reset(new MixedPool(nm, id, host, 16, 256, 4096, 4, f, n, 16)); break;
      case LIMIT: x.cap = r.range(2000, 30000); x.own.reset(new SizeLimiter(nm, id, host, x.cap)); break;
      case ALIGN: x.own.reset(new AlignedAllocator(nm, id, host, size_t(16) << r.below(5))); break;
      case TSAFE:
        if (r.chance(1, 2)) {
          x.below.emplace_back(new QuickPool(nm + "b", id + 50, host, f, n, al));
          x.own.reset(new ThreadSafeAllocator(nm, id, AllocatorTest::wrap(x.below.back().get())));
        } else x.own.reset(new ThreadSafeAllocator(nm, id, host));
        break;
      case NAMED: x.own.reset(new NamedAllocationStrategy(nm, id, host)); break;
      case SHIM: x.own.reset(new NamingShim(nm, id, host)); break;
      default: std::abort();
    }
    x.a = AllocatorTest::wrap(x.own.get());
    return x;
  }

  // -------------------------------------------------------------- model
  Rec* find(U p, U* base = nullptr)
  {
    auto it = live.upper_bound(p);
    if (it == live.begin()) return nullptr;
    --it;
    Rec& t = it->second.back();
    if (p == it->first || p < it->first + t.size) {
      if (base) *base = it->first;
      return &t;
    }
    return nullptr;
  }
  void book(A& a, long dsize, long dcnt)
  {
    a.sum = size_t(long(a.sum) + dsize);
    a.cnt = size_t(long(a.cnt) + dcnt);
    a.hwm = std::max(a.hwm, a.sum);
  }
  void add(U p, size_t size, A& a, const std::string& name, bool ext, bool name_known = true)
  {
    if (!ext) {
      U b;
      VH_CHECK(p != 0, "intro:null", "allocation of " << size << " bytes returned null");
      VH_CHECK(!find(p, &b), size ? "intro:reuse" : "zero:distinct", "a new " << size << "-byte allocation " << hexp((void*)p) << " lies inside a live one");
      if (size) VH_CHECK(!find(p + size - 1, &b) , "intro:reuse", "a new " << size << "-byte allocation at " << hexp((void*)p) << " overlaps a live one");
    }
    Rec rec{size, &a, name, ext, name_known, {}};
    rec.bytes.resize(size);
    for (size_t i = 0; i < size; ++i) ((unsigned char*)p)[i] = rec.bytes[i] = (unsigned char)(r.next());
    live[p].push_back(std::move(rec));
  }
  void verify(U p, const Rec& t, const char* key, const char* when)
  {
    vh::evals(t.size);
    if (t.size && std::memcmp((void*)p, t.bytes.data(), t.size) != 0) {
      size_t i = 0;
      while (((unsigned char*)p)[i] == t.bytes[i]) ++i;
      VH_CHECK(false, key, when << ": byte " << i << " of the " << t.size << "-byte allocation of " << t.a->label << " is "
                                << int(((unsigned char*)p)[i]) << ", expected " << int(t.bytes[i]));
    }
  }
  void verify_all(const char* key, const char* when)
  {
    for (auto& l : live) verify(l.first, l.second.back(), key, when);
  }
  std::string cat(const char* k) { return mode + ":" + k; }

  struct Snap {
    std::vector<std::array<size_t, 4>> st;
    bool operator==(const Snap& o) const { return st == o.st; }
  };
  Snap snap()
  {
    Snap s;
    for (auto& a : as) s.st.push_back({a->a.getCurrentSize(), a->a.getAllocationCount(), a->a.getHighWatermark(), a->a.getActualSize()});
    return s;
  }
  void stats(const char* key, const char* when)
  {
    for (auto& a : as) {
      if (a->host) continue;
      VH_CHECK(a->a.getCurrentSize() == a->sum && a->a.getAllocationCount() == a->cnt, key,
               when << ": " << a->label << " reports " << a->a.getCurrentSize() << " bytes in " << a->a.getAllocationCount()
                    << " allocations, live are " << a->sum << " in " << a->cnt);
      VH_CHECK(a->a.getHighWatermark() >= a->a.getCurrentSize(), key, when << ": high watermark below current size on " << a->label);
    }
  }

  // --------------------------------------------------------- introspection
  void probe(U p, const char* key_known = "intro:find", const char* key_unknown = "intro:unknown")
  {
    U base = 0;
    Rec* t = find(p, &base);
    void* q = (void*)p;
    VH_CHECK(rm.hasAllocator(q) == (t != nullptr), t ? key_known : key_unknown,
             "hasAllocator(" << hexp(q) << ") is " << rm.hasAllocator(q) << ", the pointer is " << (t ? "inside a live allocation" : "in no live allocation"));
    if (t) {
      vh::count("lookups_known");
      try {
        Allocator g = rm.getAllocator(q);
        VH_CHECK(g.getAllocationStrategy() == t->a->a.getAllocationStrategy() && g.getId() == t->a->a.getId() && g.getName() == t->a->a.getName(), key_known,
                 "getAllocator(base+" << p - base << ") gives " << g.getName() << ", it was allocated from " << t->a->label);
        VH_CHECK(rm.getSize(q) == t->size && t->a->a.getSize(q) == t->size, key_known, "getSize(base+" << p - base << ") gives " << rm.getSize(q) << ", allocated " << t->size);
        auto* rec = rm.findAllocationRecord(q);
        VH_CHECK(rec && rec->ptr == (void*)base && rec->size == t->size && rec->strategy == t->a->a.getAllocationStrategy(), key_known,
                 "findAllocationRecord(base+" << p - base << ") gives another allocation");
        if (t->name_known) VH_CHECK(rec->name == t->name, key_known, "the record's name is \"" << rec->name << "\", allocated as \"" << t->name << "\"");
      } catch (umpire::runtime_error& e) {
        VH_CHECK(false, key_known, "lookup of a pointer at offset " << p - base << " of a live " << t->size << "-byte allocation fails: " << e.message().substr(0, 120));
      }
    } else {
      vh::count("lookups_unknown");
      int threw = 0;
      bool named = true;
      try { rm.getAllocator(q); } catch (umpire::unknown_pointer_error& e) { ++threw; named = named && e.get_pointer() == q; }
      try { rm.getSize(q); } catch (umpire::unknown_pointer_error& e) { ++threw; named = named && e.get_pointer() == q; }
      try { rm.findAllocationRecord(q); } catch (umpire::unknown_pointer_error& e) { ++threw; named = named && e.get_pointer() == q; }
      VH_CHECK(named, key_unknown, "the error of a lookup of an unknown pointer carries another pointer");
      VH_CHECK(threw == 3, key_unknown, "a lookup of a pointer no allocation contains does not report an unknown pointer");
    }
  }
  void probes(size_t n)
  {
    for (size_t i = 0; i < n; ++i) {
      if (live.empty()) break;
      auto it = live.begin();
      std::advance(it, r.below(live.size()));
      size_t s = it->second.back().size;
      U p = it->first;
      switch (r.below(6)) {
        case 0: break;
        case 1: p += s ? s - 1 : 0; break;
        case 2: p += s; break;
        case 3: p -= 1; break;
        case 4: p += s ? r.below(s) : 0; break;
        default: p += r.below(s + 20); break;
      }
      probe(p);
    }
  }
  void unknown_probes()
  {
    int local = 0;
    static int global;
    probe((U)&local);
    probe((U)&global);
    probe(r.range(1, 4096));
    if (!freed.empty()) probe(freed[r.below(freed.size())]);
  }

  // ------------------------------------------------------------ operations
  size_t pick_size(A& a)
  {
    if (r.chance(1, mode == "zero" ? 2 : 12)) return 0;
    if (a.fixed) return a.fixed;
    if (r.chance(1, 30)) return r.range(3000, 20000);
    return r.chance(1, 3) ? r.range(1, 40) : r.range(1, 1500);
  }
  bool fits(A& a, size_t s) { return s == 0 || !a.cap || (s <= a.cap && a.sum <= a.cap - s); }
  A& any() { return *as[r.below(as.size())]; }
  U any_live(bool ext_ok = false)
  {
    std::vector<U> c;
    for (auto& l : live) if (ext_ok || !l.second.back().ext) c.push_back(l.first);
    return c.empty() ? 0 : c[r.below(c.size())];
  }
  void alloc()
  {
    A& a = any();
    size_t s = pick_size(a);
    bool named = r.chance(1, 4);
    std::string name = named ? "nm" + std::to_string(r.below(100)) : "";
    if (named && r.chance(1, 6)) name.append(r.range(1, r.chance(1, 4) ? 4000 : 300), char('a' + r.below(26)));
    vh::step("alloc", s, U(a.kind));
    bool ok = fits(a, s);
    void* p = nullptr;
    try {
      p = named ? a.a.allocate(name, s) : a.a.allocate(s);
    } catch (umpire::out_of_memory_error&) {
      VH_CHECK(!ok, cat("alloc-refused"), a.label << " refused " << s << " bytes although they fit");
      return;
    } catch (umpire::runtime_error&) {
      VH_CHECK(!ok, cat("alloc-refused"), a.label << " refused " << s << " bytes although they fit");
      return;
    }
    add(U(p), s, a, name, false, true);
    book(a, long(s), 1);
    if (s == 0) zero_checks(a, p);
    else if (r.chance(1, 2)) probe(U(p));
  }
  // more zero-byte allocations at once than one block of the pool behind them holds
  void mass_zero()
  {
    size_t n = r.range(1900, 6500);
    vh::step("mass", n / 1000);
    for (size_t i = 0; i < n; ++i) {
      A& a = any();
      void* p = nullptr;
      try { p = a.a.allocate(0); } catch (umpire::runtime_error&) {
        VH_CHECK(false, "zero:refused", a.label << " refused a zero-byte allocation with " << i << " live");
      }
      add(U(p), 0, a, "", false, true);
      book(a, 0, 1);
      if (i % 64 < 2) zero_checks(a, p);
    }
    vh::count("zero_mass");
    size_t keep = r.range(0, 400);
    std::vector<U> c;
    for (auto& l : live) if (!l.second.back().ext && l.second.back().size == 0) c.push_back(l.first);
    unsigned order = unsigned(r.below(3));
    if (order == 0) for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
    else if (order == 1) std::reverse(c.begin(), c.end());
    for (size_t i = 0; i + keep < c.size(); ++i) {
      A& a = *live[c[i]].back().a;
      bool threw = false;
      try { if (i % 2) a.a.deallocate((void*)c[i]); else rm.deallocate((void*)c[i]); } catch (umpire::runtime_error&) { threw = true; }
      VH_CHECK(!threw, "zero:dealloc", "deallocating a live zero-byte allocation of " << a.label << " is refused");
      drop(c[i]);
      book(a, 0, -1);
    }
  }
  void zero_checks(A& a, void* p)
  {
    vh::count("zero_allocs");
    VH_CHECK(p != nullptr, "zero:null", "a zero-byte allocation returned null");
    VH_CHECK(rm.getSize(p) == 0, "zero:size", "getSize of a zero-byte allocation is " << rm.getSize(p));
    VH_CHECK(rm.getAllocator(p).getAllocationStrategy() == a.a.getAllocationStrategy(), "zero:owner", "getAllocator of a zero-byte allocation is " << rm.getAllocator(p).getName() << ", allocated from " << a.label);
    probe(U(p) + 1, "zero:neighbour", "zero:neighbour");
  }
  void dealloc()
  {
    U p = any_live();
    if (!p) return;
    Rec& t = live[p].back();
    A& a = *t.a;
    size_t s = t.size;
    verify(p, t, cat("content").c_str(), "before deallocation");
    unsigned how = unsigned(r.below(4));
    vh::step("dealloc", s, how);
    bool threw = false;
    try {
      if (how == 0) rm.deallocate((void*)p);
      else if (how == 1) umpire::free((void*)p);
      else a.a.deallocate((void*)p);
    } catch (umpire::runtime_error& e) { threw = true; }
    VH_CHECK(!threw, s ? cat("dealloc") : "zero:dealloc", "deallocating a live " << s << "-byte allocation of " << a.label << " is refused");
    drop(p);
    book(a, -long(s), -1);
    probe(p, "intro:gone", "intro:gone");
  }
  void drop(U p)
  {
    auto it = live.find(p);
    it->second.pop_back();
    if (it->second.empty()) live.erase(it);
    freed.push_back(p);
    if (freed.size() > 40) freed.erase(freed.begin());
  }
  void external()
  {
    std::vector<U> ex;
    for (auto& l : live) if (l.second.back().ext) ex.push_back(l.first);
    if (!ex.empty() && r.chance(1, 2)) {
      U p = ex[r.below(ex.size())];
      Rec t = live[p].back();
      vh::step("deregister", t.size);
      AllocationRecord rec = umpire::deregister_external_allocation((void*)p);
      VH_CHECK(rec.ptr == (void*)p && rec.size == t.size && rec.strategy == t.a->a.getAllocationStrategy() && rec.name == t.name, "intro:external",
               "deregistering an external allocation returns another record (size " << rec.size << " name " << rec.name << "), registered with size " << t.size << " name " << t.name);
      drop(p);
      if (live.count(p)) live[p].back().bytes.assign((unsigned char*)p, (unsigned char*)p + live[p].back().size);  // they share the memory
      if (live.count(p)) probe(p + (live[p].back().size ? r.below(live[p].back().size) : 0));
      else probe(p, "intro:gone", "intro:gone");
      return;
    }
    A& a = any();
    U p;
    size_t s;
    if (!ex.empty() && r.chance(1, 3)) {  // a further record under the same address
      p = ex[r.below(ex.size())];
      if (live[p].size() > 3) return;
      s = live[p].front().size;
      s = r.chance(1, 4) ? 0 : r.range(1, s ? s : 1);
      if (live[p].front().size == 0) s = 0;
    } else {
      s = r.chance(1, 8) ? 0 : r.range(1, 300);
      if (extused + s + 40 > extmem.size()) return;
      p = U(extmem.data()) + extused + r.below(16);
      extused = p - U(extmem.data()) + s + (r.chance(1, 2) && s ? 0 : 1 + r.below(9));
    }
    std::string nm = r.chance(1, 2) ? "" : "ext" + std::to_string(r.below(1000));
    vh::step("register", s, live.count(p));
    umpire::register_external_allocation((void*)p, AllocationRecord{(void*)p, s, a.a.getAllocationStrategy(), nm});
    add(p, s, a, nm, true);
    probe(p + (s ? r.below(s) : 0));
  }

  // ------------------------------------------------------------ copy/memset
  size_t len_for(size_t rem)
  {
    switch (r.below(8)) {
      case 0: return 0;
      case 1: return rem;
      case 2: return rem + 1;
      case 3: return rem + r.range(1, 5000);
      case 4: return std::numeric_limits<size_t>::max() - r.below(3000);
      default: return rem ? r.range(1, rem) : 0;
    }
  }
  void do_copy()
  {
    U sb = any_live(true), db = any_live(true);
    if (!sb) return;
    Rec &s = live[sb].back(), &d = live[db].back();
    size_t so = r.chance(1, 2) ? 0 : r.below(s.size + 1), dof = r.chance(1, 2) ? 0 : r.below(d.size + 1);
    bool sk = so < s.size || so == 0, dk = dof < d.size || dof == 0;
    if ((so && so == s.size) || (dof && dof == d.size)) {
      // one past the end: unknown unless another allocation starts there; leave those to probes
      if (find(sb + so) != &s || find(db + dof) != &d) return;
    }
    (void)sk; (void)dk;
    size_t srem = s.size - so, drem = d.size - dof;
    size_t n = len_for(r.chance(1, 2) ? srem : std::min(srem, drem));
    size_t eff = n ? n : srem;
    if (sb == db) {
      // one allocation: only disjoint ranges are meaningful
      if (eff <= srem && eff <= drem && so < dof + eff && dof < so + eff) return;
    }
    bool ok = eff <= srem && eff <= drem;
    bool async = r.chance(1, 3);
    vh::step("copy", eff, (so << 20) ^ dof);
    Snap s0 = snap();
    bool threw = false;
    try {
      if (async) rm.copy((void*)(db + dof), (void*)(sb + so), ctx, n);
      else rm.copy((void*)(db + dof), (void*)(sb + so), n);
    } catch (umpire::runtime_error&) { threw = true; }
    vh::count(ok ? "copies" : "copies_refused");
    VH_CHECK(threw == !ok, ok ? "copy:refused" : "copy:bounds", "copy of " << n << " bytes from offset " << so << " of " << s.size << " to offset " << dof << " of " << d.size
                                << (threw ? " is refused" : " is accepted"));
    if (!threw && ok)
      for (size_t i = 0; i < eff; ++i) d.bytes[dof + i] = s.bytes[so + i];
    verify(db, d, ok ? "copy:dst" : "copy:refused-wrote", ok ? "after a copy" : "after a refused copy");
    if (sb != db) verify(sb, s, "copy:src", "source after a copy");
    VH_CHECK(snap() == s0, "copy:stats", "a copy changed statistics");
  }
  void do_memset()
  {
    U b = any_live(true);
    if (!b) return;
    Rec& t = live[b].back();
    size_t o = r.chance(1, 2) ? 0 : r.below(t.size + 1);
    if (o && o == t.size) return;
    size_t rem = t.size - o, n = len_for(rem), eff = n ? n : rem;
    static const int vals[] = {0, 1, 255, -1, 256, 0x1234, -77};
    int v = r.chance(1, 2) ? vals[r.below(7)] : int(r.below(256));
    bool ok = eff <= rem, threw = false, async = r.chance(1, 3);
    vh::step("memset", eff, o);
    try {
      if (async) rm.memset((void*)(b + o), v, ctx, n);
      else rm.memset((void*)(b + o), v, n);
    } catch (umpire::runtime_error&) { threw = true; }
    vh::count(ok ? "memsets" : "memsets_refused");
    VH_CHECK(threw == !ok, ok ? "copy:memset-refused" : "copy:memset-bounds", "memset of " << n << " bytes at offset " << o << " of " << t.size << (threw ? " is refused" : " is accepted"));
    if (!threw && ok)
      for (size_t i = 0; i < eff; ++i) t.bytes[o + i] = (unsigned char)v;
    verify(b, t, ok ? "copy:memset" : "copy:refused-wrote", "after a memset");
  }
  void bad_copy()
  {
    char local[16];
    U p = any_live(true);
    if (!p) return;
    std::vector<U> cand{U(local)};
    if (!freed.empty()) cand.push_back(freed[r.below(freed.size())]);
    if (live[p].back().size) cand.push_back(p + live[p].back().size);
    U bad = cand[r.below(cand.size())];
    if (find(bad)) return;
    vh::step("badcopy");
    int threw = 0;
    std::memset(local, 7, sizeof local);
    try { rm.copy((void*)p, (void*)bad, 1); } catch (umpire::runtime_error&) { ++threw; }
    try { rm.copy((void*)bad, (void*)p, 1); } catch (umpire::runtime_error&) { ++threw; }
    try { rm.memset((void*)bad, 1, 1); } catch (umpire::runtime_error&) { ++threw; }
    VH_CHECK(threw == 3, "copy:unknown", "copy or memset with a pointer no allocation contains is accepted");
    for (char c : local) VH_CHECK(c == 7, "copy:unknown", "a refused copy wrote memory");
    verify(p, live[p].back(), "copy:unknown", "after refused copies");
  }

  // -------------------------------------------------------- reallocate/move
  void do_realloc()
  {
    unsigned kind = unsigned(r.below(10));
    if (kind == 0) {  // null
      A& a = any();
      size_t s = pick_size(a);
      if (!fits(a, s)) return;
      vh::step("realloc-null", s);
      void* p;
      if (r.chance(1, 3)) {
        Allocator old = rm.getDefaultAllocator();
        rm.setDefaultAllocator(a.a);
        VH_CHECK(rm.getDefaultAllocator().getAllocationStrategy() == a.a.getAllocationStrategy(), "realloc:default", "getDefaultAllocator is not the one that was set");
        p = r.chance(1, 2) ? rm.reallocate(nullptr, s) : rm.reallocate(nullptr, s, ctx);
        rm.setDefaultAllocator(old);
      } else p = r.chance(1, 2) ? rm.reallocate(nullptr, s, a.a) : rm.reallocate(nullptr, s, a.a, ctx);
      add(U(p), s, a, "", false, false);
      book(a, long(s), 1);
      probe(U(p), "realloc:record");
      return;
    }
    U p = any_live();
    if (!p) return;
    Rec t = live[p].back();
    A& a = *t.a;
    if (kind == 1) {  // with another allocator: refused
      A& b = any();
      if (&b == &a || b.a.getAllocationStrategy() == a.a.getAllocationStrategy()) return;
      Snap s0 = snap();
      bool threw = false;
      vh::step("realloc-wrong");
      try { rm.reallocate((void*)p, r.chance(1, 4) ? 0 : r.range(1, 100), b.a); } catch (umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw, "realloc:wrong", "reallocating an allocation of " << a.label << " with " << b.label << " is accepted");
      VH_CHECK(snap() == s0, "realloc:wrong", "a refused reallocate changed statistics");
      probe(p, "realloc:wrong");
      verify(p, t, "realloc:wrong", "after a refused reallocate");
      return;
    }
    if (kind == 2) {  // offset pointer: refused
      if (t.size < 2) return;
      U q = p + r.range(1, t.size - 1);
      if (find(q) != &live[p].back()) return;
      Snap s0 = snap();
      bool threw = false;
      vh::step("realloc-offset");
      try { r.chance(1, 2) ? rm.reallocate((void*)q, r.chance(1, 4) ? 0 : r.range(1, 2 * t.size)) : rm.reallocate((void*)q, r.chance(1, 4) ? 0 : r.range(1, 2 * t.size), a.a, ctx); } catch (umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw, "realloc:offset", "reallocating a pointer inside an allocation is accepted");
      VH_CHECK(snap() == s0, "realloc:offset", "a refused reallocate changed statistics");
      probe(p, "realloc:offset");
      verify(p, t, "realloc:offset", "after a refused reallocate");
      return;
    }
    if (kind == 3 && !a.fixed) {  // impossible size: refused, old one intact
      size_t s = std::numeric_limits<size_t>::max() / 2 - r.below(100000);
      if (r.chance(1, 2)) s = std::numeric_limits<size_t>::max() - r.below(5000);
      Snap s0 = snap();
      bool threw = false;
      vh::step("realloc-huge");
      try { rm.reallocate((void*)p, s); } catch (umpire::runtime_error&) { threw = true; } catch (umpire::out_of_memory_error&) { threw = true; }
      VH_CHECK(threw, "realloc:huge", "reallocating to " << s << " bytes is accepted");
      if (a.kind == LIMIT || a.host || a.kind == NAMED || a.kind == SHIM) VH_CHECK(snap() == s0, "realloc:huge", "a failed reallocate changed statistics");
      probe(p, "realloc:huge");
      verify(p, t, "realloc:huge", "after a failed reallocate");
      return;
    }
    size_t s = a.fixed ? (r.chance(1, 6) ? 0 : a.fixed) : r.chance(1, 8) ? 0 : r.chance(1, 5) ? t.size : r.chance(1, 2) ? r.range(1, t.size * 2 + 8) : r.range(1, 3000);
    bool hostlike = a.host && t.size > 0;
    bool room = s == 0 ? true : hostlike ? true : fits(a, s);
    vh::step("realloc", s, t.size);
    size_t c0 = a.a.getCurrentSize(), n0 = a.a.getAllocationCount();
    void* np = nullptr;
    bool threw = false;
    try {
      switch (r.below(4)) {
        case 0: np = rm.reallocate((void*)p, s); break;
        case 1: np = rm.reallocate((void*)p, s, a.a); break;
        case 2: np = rm.reallocate((void*)p, s, ctx); break;
        default: np = rm.reallocate((void*)p, s, a.a, ctx); break;
      }
    } catch (umpire::runtime_error&) { threw = true; } catch (umpire::out_of_memory_error&) { threw = true; }
    VH_CHECK(threw == !room, "realloc:accept", "reallocating " << t.size << " -> " << s << " bytes on " << a.label << (threw ? " is refused" : " is accepted beyond its capacity"));
    if (threw) {
      probe(p, "realloc:failed");
      verify(p, t, "realloc:failed", "after a refused reallocate");
      VH_CHECK(a.a.getCurrentSize() == c0 && a.a.getAllocationCount() == n0, "realloc:failed", "a refused reallocate changed statistics");
      return;
    }
    vh::count(s < t.size ? "realloc_shrink" : "realloc_grow");
    VH_CHECK(a.a.getAllocationCount() == n0, "realloc:stats", "reallocate on " << a.label << " changed the number of allocations from " << n0 << " to " << a.a.getAllocationCount());
    if (!a.host) VH_CHECK(a.a.getCurrentSize() == c0 - t.size + s, "realloc:stats", "reallocate " << t.size << " -> " << s << " on " << a.label << " changed the current size from " << c0 << " to " << a.a.getCurrentSize());
    else VH_CHECK(a.a.getCurrentSize() == c0 - t.size + s, "realloc:stats", "reallocate " << t.size << " -> " << s << " on the host changed the current size from " << c0 << " to " << a.a.getCurrentSize());
    size_t keep = std::min(s, t.size);
    vh::evals(keep);
    VH_CHECK(!keep || std::memcmp(np, t.bytes.data(), keep) == 0, "realloc:content", "reallocate " << t.size << " -> " << s << " on " << a.label << " did not keep the first " << keep << " bytes");
    drop(p);
    book(a, -long(t.size), 0);
    U b;
    VH_CHECK(np && !find(U(np), &b) && (!s || !find(U(np) + s - 1, &b)), "realloc:overlap", "reallocate returned memory that is in use");
    add(U(np), s, a, "", false, false);
    book(a, long(s), 0);
    probe(U(np), "realloc:record");
    if (!find(p)) probe(p, "realloc:gone", "realloc:gone");
  }
  void do_move()
  {
    U p = any_live();
    if (!p) return;
    Rec t = live[p].back();
    A& a = *t.a;
    A& b = any();
    if (b.fixed && t.size && b.fixed != t.size) return;
    bool same = a.a.getAllocationStrategy() == b.a.getAllocationStrategy();
    if (same) {
      U q = t.size ? p + r.below(t.size) : p;
      vh::step("move-same");
      Snap s0 = snap();
      VH_CHECK(rm.move((void*)q, b.a) == (void*)q, "realloc:move-same", "moving to its own allocator gives another pointer");
      VH_CHECK(snap() == s0, "realloc:move-same", "moving to its own allocator changed statistics");
      verify(p, t, "realloc:move-same", "after move");
      return;
    }
    if (t.size > 1 && r.chance(1, 5)) {
      U q = p + r.range(1, t.size - 1);
      if (find(q) != &live[p].back()) return;
      Snap s0 = snap();
      bool threw = false;
      vh::step("move-offset");
      try { rm.move((void*)q, b.a); } catch (umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw && snap() == s0, "realloc:move-offset", "moving a pointer inside an allocation is not refused cleanly");
      probe(p, "realloc:move-offset");
      return;
    }
    bool room = fits(b, t.size);
    vh::step("move", t.size, U(a.kind) * 16 + b.kind);
    void* np = nullptr;
    bool threw = false;
    Snap s0 = snap();
    try { np = rm.move((void*)p, b.a); } catch (umpire::runtime_error&) { threw = true; } catch (umpire::out_of_memory_error&) { threw = true; }
    VH_CHECK(threw == !room, "realloc:move", "moving " << t.size << " bytes from " << a.label << " to " << b.label << (threw ? " is refused" : " is accepted beyond its capacity"));
    if (threw) {
      VH_CHECK(snap() == s0, "realloc:move-failed", "a refused move changed statistics");
      probe(p, "realloc:move-failed");
      verify(p, t, "realloc:move-failed", "after a refused move");
      return;
    }
    vh::count("moves");
    vh::evals(t.size);
    VH_CHECK(!t.size || std::memcmp(np, t.bytes.data(), t.size) == 0, "realloc:move-content", "move from " << a.label << " to " << b.label << " changed the contents");
    drop(p);
    book(a, -long(t.size), -1);
    add(U(np), t.size, b, "", false, false);
    book(b, long(t.size), 1);
    probe(U(np), "realloc:move-record");
    if (!find(p)) probe(p, "realloc:move-gone", "realloc:move-gone");
  }

  // ---------------------------------------------------- invalid deallocation
  void do_bad()
  {
    Snap s0 = snap();
    unsigned kind = unsigned(r.below(9));
    A& a = any();
    bool threw = false, expect = true;
    const char* what = "";
    auto with = [&](A& x, U p) {
      try { x.a.deallocate((void*)p); } catch (umpire::runtime_error&) { threw = true; }
    };
    auto viarm = [&](U p) {
      try { rm.deallocate((void*)p); } catch (umpire::runtime_error&) { threw = true; }
    };
    U p = any_live();
    vh::step("bad", kind);
    switch (kind) {
      case 0:  // null is ignored
        expect = false;
        what = "deallocating null";
        with(a, 0);
        break;
      case 1: {
        if (!p || live[p].back().a->a.getAllocationStrategy() == a.a.getAllocationStrategy()) return;
        what = "deallocating with an allocator that did not allocate it";
        with(a, p);
        break;
      }
      case 2: {
        if (!p || live[p].back().size < 2) return;
        U q = p + r.range(1, live[p].back().size - 1);
        if (find(q) != &live[p].back()) return;
        what = "deallocating a pointer inside an allocation";
        if (r.chance(1, 2)) with(*live[p].back().a, q);
        else viarm(q);
        break;
      }
      case 3: {
        if (freed.empty()) return;
        U q = freed[r.below(freed.size())];
        if (live.count(q) || find(q)) return;
        what = "deallocating twice";
        if (r.chance(1, 2)) with(a, q);
        else viarm(q);
        break;
      }
      case 4: {
        static char g[64];
        char l[64];
        U q = r.chance(1, 3) ? U(g + 1) : r.chance(1, 2) ? U(l) : r.range(1, 5000);
        what = "deallocating memory Umpire never handed out";
        if (r.chance(1, 2)) with(a, q);
        else viarm(q);
        break;
      }
      case 5: {
        if (!p) return;
        size_t s = live[p].back().size;
        if (!s || find(p + s)) return;
        what = "deallocating one past the end";
        with(*live[p].back().a, p + s);
        break;
      }
      case 7: {  // registrations that cannot be
        what = "registering null as an external allocation";
        try {
          umpire::register_external_allocation(nullptr, AllocationRecord{nullptr, size_t(r.below(100)), a.a.getAllocationStrategy(), "null"});
        } catch (umpire::runtime_error&) { threw = true; }
        break;
      }
      case 8: {
        U q = r.chance(1, 3) || !p || live[p].back().size < 2 ? r.range(1, 5000) : p + r.range(1, live[p].back().size - 1);
        if (live.count(q)) return;
        what = "deregistering what is not registered";
        try {
          umpire::deregister_external_allocation((void*)q);
        } catch (umpire::runtime_error&) { threw = true; }
        break;
      }
      default: {  // page-aligned and byte-truncated neighbours of live pointers
        if (!p) return;
        U q = p & ~((U(1) << r.range(4, 36)) - 1);
        if (!q || find(q)) return;
        what = "deallocating an address near a live one";
        if (r.chance(1, 2)) with(a, q);
        else viarm(q);
        break;
      }
    }
    vh::count("invalid_deallocations");
    VH_CHECK(threw == expect, expect ? "bad:accepted" : "bad:null", what << (threw ? " raises an error" : " raises no error"));
    VH_CHECK(snap() == s0, "bad:stats", what << " changed statistics");
    if (p) {
      probe(p, "bad:record", "bad:record");
      verify(p, live[p].back(), "bad:content", what);
    }
  }

  // ---------------------------------------------------------------- records
  void do_records()
  {
    A& a = any();
    vh::step("records", live.size());
    auto recs = r.chance(1, 2) ? umpire::get_allocator_records(a.a) : umpire::get_leaked_allocations(a.a);
    std::multiset<std::tuple<U, size_t, std::string>> got, want, gotn, wantn;
    U prev = 0;
    for (auto& x : recs) {
      VH_CHECK(x.strategy == a.a.getAllocationStrategy(), "records:owner", "the record list of " << a.label << " holds a record of another allocator");
      VH_CHECK(U(x.ptr) >= prev, "records:order", "the record list is not ordered by address");
      prev = U(x.ptr);
      got.insert(std::make_tuple(U(x.ptr), x.size, ""));
    }
    for (auto& l : live)
      for (auto& t : l.second)
        if (t.a->a.getAllocationStrategy() == a.a.getAllocationStrategy()) {
          want.insert(std::make_tuple(l.first, t.size, ""));
          if (!t.name_known) continue;
          bool seen = false;
          for (auto& x : recs) seen |= x.ptr == (void*)l.first && x.size == t.size && x.name == t.name;
          VH_CHECK(seen, "records:name", "no record of " << a.label << " carries the name \"" << t.name << "\" its allocation was given");
        }
    VH_CHECK(got == want, "records:set", a.label << " has " << want.size() << " live allocations, its record list has " << got.size() << " (or differs)");
    vh::count("record_lists");
    vh::count("records_listed", recs.size());
    std::ostringstream os;
    umpire::print_allocator_records(a.a, os);
    std::string txt = os.str();
    VH_CHECK(txt.empty() == want.empty(), "records:print", "print_allocator_records prints " << txt.size() << " characters for " << want.size() << " allocations");
    if (!want.empty()) VH_CHECK(txt.find(a.a.getName()) != std::string::npos, "records:print", "the printed list does not name its allocator");
    size_t entries = 0;
    for (size_t i = txt.find("size: "); i != std::string::npos; i = txt.find("size: ", i + 1)) ++entries;
    VH_CHECK(entries == want.size(), "records:print", "print_allocator_records shows " << entries << " allocations, live are " << want.size());
    for (auto& w : want) {
      std::ostringstream e;
      U p = std::get<0>(w);
      e << "size: " << std::get<1>(w) << ", range: " << (void*)p << " -- " << (void*)(p + std::get<1>(w));
      VH_CHECK(txt.find(e.str()) != std::string::npos, "records:print", "the printed list lacks \"" << e.str() << "\"");
    }
    // fragmentation of the listed records
    bool stacked = false;
    for (size_t i = 1; i < recs.size(); ++i) stacked |= U(recs[i - 1].ptr) + recs[i - 1].size > U(recs[i].ptr);
    if (stacked) return;  // several records over one address: gaps have no meaning
    float f = umpire::util::relative_fragmentation(recs);
    VH_CHECK(f >= 0.0f && f <= 1.0f, "records:frag", "relative fragmentation is " << f);
  }
  void do_overlap()
  {
    // two overlapping / nested / disjoint registrations on memory of their own
    static std::vector<unsigned char> arena(4096);
    A& a = any();
    size_t o1 = r.below(200), s1 = r.range(1, 200), o2 = r.below(400), s2 = r.range(1, 200);
    if (o1 == o2) return;
    U p1 = U(arena.data()) + o1, p2 = U(arena.data()) + o2;
    vh::step("overlap", (o1 << 12) ^ o2, (s1 << 12) ^ s2);
    umpire::register_external_allocation((void*)p1, AllocationRecord{(void*)p1, s1, a.a.getAllocationStrategy()});
    umpire::register_external_allocation((void*)p2, AllocationRecord{(void*)p2, s2, a.a.getAllocationStrategy()});
    auto ov = [](U l, size_t ls, U q, size_t qs) { return q >= l && l + ls > q && q + qs > l + ls; };
    auto co = [](U l, size_t ls, U q, size_t qs) { return q >= l && l + ls > q && q + qs <= l + ls; };
    bool g[4] = {umpire::pointer_overlaps((void*)p1, (void*)p2), umpire::pointer_overlaps((void*)p2, (void*)p1), umpire::pointer_contains((void*)p1, (void*)p2), umpire::pointer_contains((void*)p2, (void*)p1)};
    bool w[4] = {ov(p1, s1, p2, s2), ov(p2, s2, p1, s1), co(p1, s1, p2, s2), co(p2, s2, p1, s1)};
    umpire::deregister_external_allocation((void*)p1);
    umpire::deregister_external_allocation((void*)p2);
    vh::count("overlap_queries", 4);
    for (int i = 0; i < 4; ++i)
      VH_CHECK(g[i] == w[i], i < 2 ? "records:overlaps" : "records:contains",
               (i < 2 ? "pointer_overlaps" : "pointer_contains") << " of [" << (i & 1 ? o2 : o1) << "," << (i & 1 ? o2 + s2 : o1 + s1) << ") and [" << (i & 1 ? o1 : o2) << "," << (i & 1 ? o1 + s1 : o2 + s2) << ") is " << g[i]);
    int threw = 0;
    char l;
    try { umpire::pointer_overlaps((void*)p1, &l); } catch (umpire::runtime_error&) { ++threw; }
    try { umpire::pointer_contains(&l, (void*)p1); } catch (umpire::runtime_error&) { ++threw; }
    VH_CHECK(threw == 2, "records:overlap-unknown", "an overlap query about unknown pointers raises no error");
  }
  // fragmentation against its definition on generated record lists
  void do_frag()
  {
    std::vector<AllocationRecord> v;
    U p = 0x100000 + r.below(5000);
    size_t n = r.range(1, 12), biggest = 0, total = 0;
    bool far = r.chance(1, 3);
    for (size_t i = 0; i < n; ++i) {
      size_t s = r.range(1, 200);
      v.push_back(AllocationRecord{(void*)p, s, nullptr});
      p += s;
      if (i + 1 < n) {
        size_t g = r.chance(1, 3) ? 0 : r.range(1, 500);
        if (far && r.chance(1, 2)) g = size_t(r.range(1, 1000)) << r.range(28, 36);  // allocations of several mappings
        biggest = std::max(biggest, g);
        total += g;
        p += g;
      }
    }
    float want = total ? 1.0f - float(biggest) / float(total) : -1.0f;
    auto v2 = v;
    float got = umpire::util::relative_fragmentation(v);
    vh::step("frag", n, total);
    if (want >= 0) VH_CHECK(std::abs(got - want) < 1e-5f, "records:frag", "relative fragmentation of " << n << " records is " << got << ", biggest gap " << biggest << " of " << total);
    VH_CHECK(got >= 0.0f && got <= 1.0f, "records:frag", "relative fragmentation is " << got);
  }

  void run()
  {
    static const std::vector<Kind> menu{QUICK, LIST, FIXED, MIXED, LIMIT, ALIGN, TSAFE, NAMED, QUICK, LIST};
    mk(ROOT);
    size_t n = r.range(2, 4);
    bool dense = r.chance(1, 8);  // many neighbouring tiny allocations
    for (size_t i = 0; i < n; ++i) mk(dense ? FIXED : r.pick(menu));
    size_t ops = r.range(60, 250);
    unsigned pal = 40;
    if (dense)
      for (size_t i = r.range(50, 200); i--;) alloc();
    if (mode == "zero" && r.chance(1, 20)) mass_zero();
    for (size_t i = 0; i < ops; ++i) {
      if (r.chance(1, 30)) pal = unsigned(r.range(15, 60));
      unsigned roll = unsigned(r.below(100));
      if (roll < pal) alloc();
      else if (roll < 62) dealloc();
      else if (roll < 68) external();
      else if (mode == "intro") { if (r.chance(1, 2)) probes(4); else if (r.chance(1, 4)) unknown_probes(); else if (r.chance(1, 6)) do_realloc(); else if (r.chance(1, 6)) do_move(); }
      else if (mode == "copy") { unsigned k = unsigned(r.below(8)); if (k < 4) do_copy(); else if (k < 7) do_memset(); else bad_copy(); }
      else if (mode == "realloc") { if (r.chance(2, 3)) do_realloc(); else do_move(); }
      else if (mode == "bad") do_bad();
      else if (mode == "zero") { unsigned k = unsigned(r.below(6)); if (k < 2) do_realloc(); else if (k == 2) do_move(); else if (k == 3) do_bad(); else if (k == 4) { do_copy(); do_memset(); } else probes(2); }
      else if (mode == "records") { unsigned k = unsigned(r.below(6)); if (k < 2) do_records(); else if (k == 2) do_overlap(); else if (k == 3) do_frag(); else if (k == 4) do_realloc(); else if (r.chance(1, 3)) do_move(); }
      stats(cat("stats").c_str(), "after an operation");
      if (r.chance(1, 20)) verify_all(cat("content").c_str(), "periodic");
    }
    verify_all(cat("content").c_str(), "at the end");
    vh::sig(mode + "|" + [&] { std::string s; for (auto& a : as) s += std::string(kname(a->kind)) + " "; return s; }() + "|" + std::to_string(live.size() / 10));
    finish();
  }
  void finish()
  {
    while (!live.empty()) {
      U p = live.begin()->first;
      Rec& t = live.begin()->second.back();
      if (t.ext) umpire::deregister_external_allocation((void*)p);
      else {
        try { t.a->a.deallocate((void*)p); } catch (umpire::runtime_error& e) {
          VH_CHECK(false, cat("final-dealloc"), "deallocating a live " << t.size << "-byte allocation of " << t.a->label << " at the end is refused");
        }
        book(*t.a, -long(t.size), -1);
      }
      live.begin()->second.pop_back();
      if (live.begin()->second.empty()) live.erase(live.begin());
    }
    stats(cat("stats").c_str(), "after everything was deallocated");
    for (auto& a : as) {
      auto recs = umpire::get_allocator_records(a->a);
      VH_CHECK(recs.empty(), cat("leftover"), a->label << " still has " << recs.size() << " records after everything was deallocated");
    }
  }
};

}  // namespace

static void one_case(vh::Rng& rng, std::uint64_t)
{
  Rm* m = new Rm(rng);
  m->run();  // on a violation the process ends without unwinding the allocators
  delete m;
}
int main(int argc, char** argv) { return vh::run(argc, argv, "rm", one_case); }
