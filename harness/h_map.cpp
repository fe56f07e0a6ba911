// Ordered pointer map, allocation map, Judy array and fixed-object malloc pool
// against plain models.   --opt mode=map|alloc|crowd|judy|pool|big
#include <algorithm>
#include <iterator>
#include <memory>

#include "umpire/judy/judy.h"
#include "umpire/strategy/AllocationStrategy.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/FixedMallocPool.hpp"
#include "umpire/util/Macros.hpp"
#include "umpire/util/MemoryMap.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

using std::size_t;
using std::uintptr_t;
using umpire::util::AllocationMap;
using umpire::util::AllocationRecord;
using umpire::util::FixedMallocPool;
using umpire::util::MemoryMap;

static long g_live = 0;
struct Counted {
  std::uint64_t v;
  std::string s;
  Counted(std::uint64_t x, const char* n) : v(x), s(n) { ++g_live; }
  Counted(std::uint64_t x) : v(x), s(std::to_string(x)) { ++g_live; }
  Counted(const Counted& o) : v(o.v), s(o.s) { ++g_live; }
  ~Counted() { --g_live; v = 0xDEAD; }
  bool operator==(std::uint64_t x) const { return v == x; }
};
struct Wide {
  std::uint64_t v;
  char pad[52];
  Wide(std::uint64_t x) : v(x) { std::memset(pad, int(x & 0xff), sizeof pad); }
  bool operator==(std::uint64_t x) const
  {
    for (char c : pad) if (c != char(x & 0xff)) return false;
    return v == x;
  }
};

// ------------------------------------------------------------- key families
struct Keys {
  vh::Rng& r;
  int fam;
  uintptr_t base, stride;
  std::vector<uintptr_t> used;
  explicit Keys(vh::Rng& rng) : r(rng), fam(int(rng.below(9)))
  {
    base = (r.next() & 0x7fffffffffffull) | 0x10000;
    static const uintptr_t strides[] = {1, 2, 8, 16, 64, 256, 4096, 65536, 1u << 24};
    stride = strides[r.below(9)];
    if (r.chance(1, 3)) base &= ~((uintptr_t(1) << (8 * r.range(1, 3))) - 1);  // keys whose low bytes are zero
    if (fam == 7) base |= 0xff00000000000000ull;
  }
  uintptr_t fresh()
  {
    uintptr_t k = 0;
    switch (fam) {
      case 0: k = base + stride * r.below(64); break;           // dense
      case 1: k = base + stride * r.below(700); break;          // node overflow / radix
      case 2: k = r.next() & 0x0000fffffffffff0ull; break;      // random user-space
      case 3: k = r.next(); break;                              // random
      case 4: k = base ^ (uintptr_t(1) << r.below(64)); break;  // one-bit neighbours
      case 5: k = base + (uintptr_t(r.below(4)) << 40) + (uintptr_t(r.below(4)) << 24) + stride * r.below(40); break;
      case 6: k = (uintptr_t(r.below(256)) << (8 * r.below(8))) | (base & 0xff); break;  // one byte varies
      case 7: k = base + stride * r.below(300); break;          // top of the address space
      default: k = 1 + r.below(2000); break;                    // tiny keys
    }
    return k ? k : 1;
  }
  // a key that is probably (not) present, or adjacent to one
  uintptr_t probe()
  {
    if (used.empty() || r.chance(1, 4)) return fresh();
    uintptr_t k = used[r.below(used.size())];
    switch (r.below(6)) {
      case 0: k += 1; break;
      case 4: k &= ~((uintptr_t(1) << (8 * r.range(1, 5))) - 1); break;  // same prefix, zero low bytes
      case 1: k -= 1; break;
      case 2: k += r.below(stride * 2 + 2); break;
      case 3: break;
      default: k ^= uintptr_t(1) << r.below(64); break;
    }
    return k ? k : 1;
  }
  uintptr_t some() { return used.empty() || r.chance(1, 3) ? fresh() : used[r.below(used.size())]; }
};
static void* P(uintptr_t k) { return reinterpret_cast<void*>(k); }
static uintptr_t U(void* p) { return reinterpret_cast<uintptr_t>(p); }

// ------------------------------------------------------------- MemoryMap
template <typename V>
struct MapCase {
  vh::Rng& r;
  Keys keys;
  std::unique_ptr<MemoryMap<V>> m{new MemoryMap<V>};
  struct Ent { std::uint64_t v; V* p; };
  std::map<uintptr_t, Ent> model;
  std::uint64_t next{1};
  explicit MapCase(vh::Rng& rng) : r(rng), keys(rng) {}

  void full_check()
  {
    auto& M = *m;
    VH_CHECK(M.size() == model.size(), "map:size", "size() " << M.size() << " model " << model.size());
    auto it = M.begin();
    size_t n = 0;
    for (auto& e : model) {
      VH_CHECK(it != M.end(), "map:iter-short", "iteration ended after " << n << " of " << model.size() << " entries");
      if (it == M.end()) return;
      VH_CHECK(it->first == P(e.first), "map:iter-order", "entry " << n << " is " << it->first << " expected " << P(e.first));
      VH_CHECK(it->second == e.second.p, "map:value-moved", "value of " << it->first << " is at another address than when it was inserted");
      VH_CHECK(it->second && *it->second == e.second.v, "map:value", "value of " << it->first << " differs from what was stored");
      ++it;
      ++n;
    }
    VH_CHECK(it == M.end(), "map:iter-long", "iteration yields more than the " << model.size() << " entries, next " << it->first);
    const auto& C = M;
    n = 0;
    auto mi = model.begin();
    for (auto ci = C.begin(); ci != C.end(); ci++, ++mi, ++n) {
      VH_CHECK(mi != model.end() && ci->first == P(mi->first), "map:const-iter", "const iteration differs at entry " << n);
      if (mi == model.end()) break;
    }
    VH_CHECK(n == model.size(), "map:const-iter-short", "const iteration saw " << n << " of " << model.size());
    VH_CHECK(std::is_trivially_destructible<V>::value || g_live == long(model.size()), "map:instances", g_live << " live values, map holds " << model.size());
  }
  void insert(uintptr_t k)
  {
    std::uint64_t v = next++ * 2654435761u % 1000003;
    if (std::is_same<V, int>::value) v &= 0x7fffffff;
    bool exists = model.count(k) != 0;
    unsigned how = unsigned(r.below(4));
    vh::step("insert", how, k - keys.base);
    vh::tr("insert %p via %u", P(k), how);
    const V val(static_cast<V>(v));
    auto check = [&](typename MemoryMap<V>::Iterator it, bool ins) {
      VH_CHECK(ins == !exists, "map:inserted", "insert(" << P(k) << ") overload " << how << " says inserted=" << ins << " but the key " << (exists ? "was" : "was not") << " present");
      if (ins && !exists) {
        VH_CHECK(it != m->end() && it->first == P(k) && it->second && *it->second == v, "map:insert-iter", "the iterator returned by insert(" << P(k) << ") does not denote the new entry");
        model[k] = Ent{v, it->second};
        keys.used.push_back(k);
        // iterating on from an insertion
        if (r.chance(1, 6)) {
          auto mi = model.find(k);
          ++mi;
          ++it;
          if (mi == model.end()) VH_CHECK(it == m->end(), "map:iter-from-insert", "++ on the iterator of the last entry is not end()");
          else VH_CHECK(it != m->end() && it->first == P(mi->first), "map:iter-from-insert", "++ on insert's iterator gives " << it->first << " expected " << P(mi->first));
        }
      }
    };
    if (how == 0) { auto p = m->insert(P(k), val); check(p.first, p.second); }
    else if (how == 1) { auto p = m->insert(std::make_pair(P(k), val)); check(p.first, p.second); }
    else if (how == 2) { std::pair<void*, V> kv(P(k), val); auto p = m->insert(kv); check(p.first, p.second); }
    else { auto p = m->insert(P(k), V(val)); check(p.first, p.second); }
    auto e = model.find(k);
    auto f = m->find(P(k));
    VH_CHECK(f != m->end() && f->second == e->second.p && *f->second == e->second.v, "map:insert-find", "find(" << P(k) << ") after insert does not give the stored value");
  }
  void lookup(uintptr_t k)
  {
    vh::step("find", k - keys.base);
    auto mi = model.find(k);
    const auto& C = *m;
    auto f = m->find(P(k));
    auto cf = C.find(P(k));
    if (mi == model.end()) {
      VH_CHECK(f == m->end(), "map:find-absent", "find(" << P(k) << ") of an absent key gives " << f->first);
      VH_CHECK(cf == C.end(), "map:find-absent-const", "const find(" << P(k) << ") of an absent key gives " << cf->first);
    } else {
      VH_CHECK(f != m->end() && f->first == P(k) && f->second == mi->second.p, "map:find", "find(" << P(k) << ") misses a present key");
      VH_CHECK(cf != C.end() && cf->first == P(k) && cf->second == mi->second.p, "map:find-const", "const find(" << P(k) << ") misses a present key");
    }
    auto ub = model.upper_bound(k);
    auto b = m->findOrBefore(P(k));
    auto cb = C.findOrBefore(P(k));
    if (ub == model.begin()) {
      VH_CHECK(b->second == nullptr && cb->second == nullptr, "map:before-none", "findOrBefore(" << P(k) << ") gives " << b->first << " although no entry is at or before it");
    } else {
      auto pr = std::prev(ub);
      VH_CHECK(b->second && b->first == P(pr->first) && b->second == pr->second.p, "map:before", "findOrBefore(" << P(k) << ") gives " << b->first << " expected " << P(pr->first));
      VH_CHECK(cb->second && cb->first == P(pr->first) && cb->second == pr->second.p, "map:before-const", "const findOrBefore(" << P(k) << ") gives " << cb->first << " expected " << P(pr->first));
      if (r.chance(1, 4)) {
        auto n1 = b;
        ++n1;
        if (ub == model.end()) VH_CHECK(n1 == m->end(), "map:before-next", "++findOrBefore(" << P(k) << ") is not end()");
        else VH_CHECK(n1 != m->end() && n1->first == P(ub->first), "map:before-next", "++findOrBefore(" << P(k) << ") gives " << n1->first << " expected " << P(ub->first));
      }
    }
  }
  void erase(uintptr_t k)
  {
    auto mi = model.find(k);
    unsigned how = unsigned(r.below(4));
    vh::step("erase", how, k - keys.base);
    vh::tr("erase %p via %u", P(k), how);
    if (mi == model.end()) {
      bool threw = false;
      try { m->erase(P(k)); } catch (umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw, "map:erase-absent", "erase(" << P(k) << ") of an absent key did not report an error");
      return;
    }
    if (how == 0) m->erase(P(k));
    else if (how == 1) m->erase(m->find(P(k)));
    else if (how == 2) { const auto& C = *m; m->erase(C.find(P(k))); }
    else { m->find(P(k)); m->removeLast(); }
    model.erase(mi);
    auto f = m->find(P(k));
    VH_CHECK(f == m->end(), "map:erase", "find(" << P(k) << ") still finds an erased key");
    VH_CHECK(m->size() == model.size(), "map:size", "size() " << m->size() << " model " << model.size());
  }
  // Several iterators of all origins, advanced in a random interleaving with lookups in between.
  void iterators()
  {
    if (model.empty()) return;
    vh::step("iterators");
    struct Cur { typename MemoryMap<V>::ConstIterator it; typename std::map<uintptr_t, Ent>::iterator mi; };
    std::vector<Cur> cs;
    const auto& C = *m;
    for (int i = 0; i < 4; ++i) {
      if (r.chance(1, 2)) cs.push_back(Cur{C.begin(), model.begin()});
      else {
        auto mi = model.begin();
        std::advance(mi, long(r.below(model.size())));
        cs.push_back(Cur{C.find(P(mi->first)), mi});
      }
    }
    for (int n = 0; n < 60; ++n) {
      size_t i = r.below(cs.size());
      if (r.chance(1, 6)) lookup(keys.probe());
      if (r.chance(1, 8)) { size_t j = r.below(cs.size()); cs[j] = cs[i]; }
      if (cs[i].mi == model.end()) {
        VH_CHECK(cs[i].it == C.end(), "map:iter-end", "an iterator past the last entry is not end()");
        cs[i] = Cur{C.begin(), model.begin()};
        continue;
      }
      VH_CHECK(cs[i].it != C.end() && cs[i].it->first == P(cs[i].mi->first) && cs[i].it->second == cs[i].mi->second.p, "map:iter-interleaved",
               "an iterator shows " << cs[i].it->first << " expected " << P(cs[i].mi->first));
      if (r.chance(1, 2)) ++cs[i].it;
      else {
        auto old = cs[i].it++;
        VH_CHECK(old->first == P(cs[i].mi->first), "map:postfix", "postfix ++ returned another position");
      }
      ++cs[i].mi;
    }
  }
  void run()
  {
    size_t ops = r.range(50, 600);
    unsigned pins = 60;
    for (size_t i = 0; i < ops; ++i) {
      if (r.chance(1, 60)) pins = unsigned(r.range(5, 90));
      unsigned roll = unsigned(r.below(100));
      if (roll < pins) insert(r.chance(1, 8) ? keys.some() : keys.fresh());
      else if (roll < 92) erase(keys.some());
      else if (roll < 98) iterators();
      else if (r.chance(1, 12)) {
        vh::step("clear");
        m->clear();
        model.clear();
        VH_CHECK(m->size() == 0 && m->begin() == m->end(), "map:clear", "clear() left entries");
      }
      for (int q = 0; q < 3; ++q) lookup(keys.probe());
      if (r.chance(1, 12)) full_check();
    }
    full_check();
    size_t b = model.size();
    vh::sig("map|fam" + std::to_string(keys.fam) + "|stride" + std::to_string(keys.stride) + "|n" + std::to_string(b < 4 ? b : b < 16 ? 16 : b < 64 ? 64 : b < 256 ? 256 : 1024));
    vh::count("entries", b);
    m.reset();
    VH_CHECK(g_live == 0, "map:instances", "destroying the map left " << g_live << " values alive");
  }
};

// ------------------------------------------------------------- AllocationMap
struct AllocCase {
  vh::Rng& r;
  AllocationMap m;
  struct Rec { size_t size; umpire::strategy::AllocationStrategy* s; std::string name; };
  struct Region { size_t room; std::vector<Rec> recs; };
  std::map<uintptr_t, Region> model;  // base -> stack of records
  std::vector<std::pair<uintptr_t, size_t>> bases;
  size_t total{0};
  std::map<uintptr_t, const AllocationRecord*> addr;
  explicit AllocCase(vh::Rng& rng) : r(rng)
  {
    // disjoint regions: gaps of 0, 1 or many bytes between them
    uintptr_t p = (r.next() & 0x00007fffffff0000ull) | 0x100000;
    if (r.chance(1, 8)) p = 16;
    size_t n = r.range(1, 300);
    bool page = r.chance(1, 5);
    for (size_t i = 0; i < n; ++i) {
      size_t room = r.chance(1, 4) ? r.range(1, 8) : r.range(1, r.chance(1, 10) ? (1u << 20) : 500);
      if (page) room = 4096;
      if (r.chance(1, 60)) room = (size_t(1) << r.range(31, 34)) + r.below(300) - 150;
      bases.push_back({p, room});
      p += room + (r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : r.below(5000));
      if (r.chance(1, 50)) p += uintptr_t(1) << r.range(20, 40);
    }
  }
  umpire::strategy::AllocationStrategy* strat(unsigned i) { return reinterpret_cast<umpire::strategy::AllocationStrategy*>(uintptr_t(0x1000 * (i + 1))); }
  const Rec* expect(uintptr_t q, uintptr_t& base)
  {
    auto it = model.upper_bound(q);
    if (it == model.begin()) return nullptr;
    --it;
    if (it->second.recs.empty()) return nullptr;
    const Rec& rc = it->second.recs.back();
    base = it->first;
    if (q == it->first || q - it->first < rc.size) return &rc;
    return nullptr;
  }
  void query(uintptr_t q)
  {
    uintptr_t b = 0;
    const Rec* e = expect(q, b);
    const AllocationMap& C = m;
    vh::step("query", e != nullptr);
    bool throwing = r.chance(1, 24);
    const AllocationRecord* got = r.chance(1, 2) ? m.findRecord(P(q)) : C.findRecord(P(q));
    VH_CHECK((got != nullptr) == (e != nullptr), "amap:find", "lookup of " << P(q) << (e ? " misses the record that covers it" : " finds a record that does not cover it"));
    VH_CHECK(m.contains(P(q)) == (e != nullptr), "amap:contains", "contains(" << P(q) << ") is wrong");
    if (e && got) {
      VH_CHECK(got->ptr == P(b) && got->size == e->size && got->strategy == e->s && got->name == e->name, "amap:record",
               "lookup of " << P(q) << " gives record " << got->ptr << "+" << got->size << " '" << got->name << "', expected " << P(b) << "+" << e->size << " '" << e->name << "'");
      const AllocationRecord* g2 = r.chance(1, 2) ? m.find(P(q)) : C.find(P(q));
      VH_CHECK(g2 == got, "amap:find2", "find and findRecord disagree on " << P(q));
    } else if (throwing && !e) {
      bool threw = false;
      void* named = nullptr;
      try { m.find(P(q)); } catch (umpire::unknown_pointer_error& e) { threw = true; named = e.get_pointer(); }
      VH_CHECK(threw && named == P(q), "amap:find-throws", "find(" << P(q) << ") of an unknown pointer did not throw unknown_pointer_error");
    }
  }
  void full()
  {
    VH_CHECK(m.size() == total, "amap:size", "size() " << m.size() << " model " << total);
    size_t n = 0;
    auto it = m.begin();
    for (auto& g : model) {
      for (size_t i = g.second.recs.size(); i-- > 0;) {
        VH_CHECK(it != m.end(), "amap:iter-short", "iteration ended after " << n << " of " << total << " records");
        if (it == m.end()) return;
        VH_CHECK(it->ptr == P(g.first) && it->size == g.second.recs[i].size && it->name == g.second.recs[i].name && it->strategy == g.second.recs[i].s, "amap:iter", "record " << n << " in iteration order is " << it->ptr << "+" << it->size << " expected " << P(g.first) << "+" << g.second.recs[i].size);
        if (r.chance(1, 10)) query(g.first);
        auto before = it;
        VH_CHECK(before == it && !(before != it), "amap:iter-equal", "an iterator and its copy compare unequal");
        if (r.chance(1, 2)) ++it; else it++;
        VH_CHECK(before != it && !(before == it), "amap:iter-equal", "iterators at two different records compare equal");
        ++n;
      }
    }
    VH_CHECK(it == m.end(), "amap:iter-long", "iteration yields more than " << total << " records");
    VH_CHECK(size_t(std::distance(m.begin(), m.end())) == total, "amap:distance", "distance(begin,end) is not the number of records");
  }
  void print()
  {
    vh::step("print");
    auto* s = strat(unsigned(r.below(3)));
    std::ostringstream os;
    m.print([s](const AllocationRecord& rec) { return rec.strategy == s; }, os);
    std::string want;
    for (auto& g : model) {
      bool any = false;
      std::ostringstream o;
      o << P(g.first) << " {\n";
      for (size_t i = g.second.recs.size(); i-- > 0;) {
        auto& rc = g.second.recs[i];
        if (rc.s != s) continue;
        any = true;
        o << rc.size << "@" << P(g.first) << "--" << P(g.first + rc.size) << " " << rc.name << "\n";
      }
      if (any) want += o.str();
    }
    // reduce the printed text to the facts it has to carry
    std::string got;
    std::istringstream is(os.str());
    std::string line;
    while (std::getline(is, line)) {
      if (line.find(" {") != std::string::npos && line.compare(0, 2, "0x") == 0) got += line + "\n";
      auto ps = line.find("size: ");
      if (ps != std::string::npos) {
        auto pr = line.find("range: "), pd = line.find(" -- "), pn = line.find("name: ");
        if (pr == std::string::npos || pd == std::string::npos || pn == std::string::npos) { got += "?" + line + "\n"; continue; }
        std::string sz = line.substr(ps + 6, line.find(',', ps) - ps - 6);
        std::string lo = line.substr(pr + 7, pd - pr - 7);
        std::string hi = line.substr(pd + 4, line.find(',', pd) - pd - 4);
        std::string nm = line.substr(pn + 6, line.find(',', pn) - pn - 6);
        got += sz + "@" + lo + "--" + hi + " " + nm + "\n";
      }
    }
    VH_CHECK(got == want, "amap:print", "print() of the records of one strategy shows\n" << got.substr(0, 400) << "\nexpected\n" << want.substr(0, 400));
  }
  void put(const std::pair<uintptr_t, size_t>& b, const Rec& rc)
  {
    AllocationRecord ar{P(b.first), rc.size, rc.s, rc.name};
    m.insert(P(b.first), ar);
    auto& g = model[b.first];
    g.room = b.second;
    g.recs.push_back(rc);
    ++total;
  }
  void take(const std::pair<uintptr_t, size_t>& b)
  {
    auto it = model.find(b.first);
    if (it == model.end()) return;
    AllocationRecord got = m.remove(P(b.first));
    const Rec& rc = it->second.recs.back();
    VH_CHECK(got.ptr == P(b.first) && got.size == rc.size && got.strategy == rc.s && got.name == rc.name, "amap:remove", "remove(" << P(b.first) << ") returned " << got.ptr << "+" << got.size << " '" << got.name << "', the latest of " << it->second.recs.size() << " records there is +" << rc.size << " '" << rc.name << "'");
    it->second.recs.pop_back();
    if (it->second.recs.empty()) model.erase(it);
    --total;
  }
  // More records than 16 bits count: at one address, at a few, or each at its own.
  void crowd(int shape)
  {
    const size_t n = 65536 + r.range(1, 9000);
    if (shape == 0) bases.resize(1);
    if (shape == 2) {
      uintptr_t p = bases.back().first + bases.back().second;
      while (bases.size() < n) { bases.push_back({p, r.range(1, 200)}); p += bases.back().second + r.below(3); }
    }
    vh::step("crowd", shape, n);
    for (size_t i = 0; i < n; ++i) {
      auto& b = shape == 2 ? bases[i % bases.size()] : bases[r.below(bases.size())];
      put(b, Rec{r.chance(1, 6) ? 0 : r.range(1, b.second), strat(unsigned(r.below(3))), i % 64 ? "" : "n" + std::to_string(i)});
      if (i % 16 == 0) query(b.first);
    }
    full();
    for (size_t k = n / 8; k-- > 0;) take(bases[r.below(bases.size())]);
    full();
    run(r.range(30, 100));
    if (r.chance(1, 4)) { m.clear(); model.clear(); total = 0; }
    for (auto& b : bases) while (model.count(b.first)) { take(b); if (total % 64 == 0) query(b.first); }
    full();
    for (size_t k = 0; k < 300; ++k) put(bases[r.below(bases.size())], Rec{1, strat(0), ""});
    full();
    vh::sig("amap-crowd|" + std::to_string(shape) + "|n" + std::to_string(n / 1024));
  }
  void run(size_t ops)
  {
    unsigned pins = 60;
    for (size_t i = 0; i < ops; ++i) {
      if (r.chance(1, 40)) pins = unsigned(r.range(5, 90));
      auto& b = bases[r.below(bases.size())];
      unsigned roll = unsigned(r.below(100));
      if (roll < pins) {
        Rec rc{r.chance(1, 6) ? 0 : r.chance(1, 2) ? b.second : r.range(1, b.second), strat(unsigned(r.below(3))), r.chance(1, 2) ? "" : "n" + std::to_string(i)};
        vh::step("insert", rc.size);
        AllocationRecord ar{P(b.first), rc.size, rc.s, rc.name};
        m.insert(P(b.first), ar);
        auto& g = model[b.first];
        g.room = b.second;
        g.recs.push_back(rc);
        ++total;
        if (g.recs.size() == 1) addr[b.first] = m.findRecord(P(b.first));
      } else if (roll < 96) {
        auto it = model.find(b.first);
        vh::step("remove", it != model.end());
        if (it == model.end()) {
          bool threw = false;
          uintptr_t absent = r.chance(1, 2) && !model.count(b.first + 1) ? b.first + 1 : b.first;
          try { m.remove(P(absent)); } catch (umpire::runtime_error&) { threw = true; }
          VH_CHECK(threw, "amap:remove-absent", "remove of an unknown pointer did not report an error");
        } else {
          if (b.second > 1 && r.chance(1, 6) && !model.count(b.first + 1)) {
            bool threw = false;
            try { m.remove(P(b.first + 1)); } catch (umpire::runtime_error&) { threw = true; }
            VH_CHECK(threw, "amap:remove-inside", "remove of a pointer inside an allocation did not report an error");
          }
          AllocationRecord got = m.remove(P(b.first));
          Rec rc = it->second.recs.back();
          VH_CHECK(got.ptr == P(b.first) && got.size == rc.size && got.strategy == rc.s && got.name == rc.name, "amap:remove", "remove(" << P(b.first) << ") returned " << got.ptr << "+" << got.size << " '" << got.name << "', the latest record there is +" << rc.size << " '" << rc.name << "'");
          it->second.recs.pop_back();
          if (it->second.recs.empty()) model.erase(it);
          --total;
        }
      } else if (r.chance(1, 10)) {
        vh::step("clear");
        m.clear();
        model.clear();
        total = 0;
      } else print();
      for (int q = 0; q < 3; ++q) {
        auto& c = bases[r.below(bases.size())];
        uintptr_t k = c.first;
        switch (r.below(6)) {
          case 0: k += c.second; break;
          case 1: k += c.second - 1; break;
          case 2: k -= 1; break;
          case 3: k += r.below(c.second + 2); break;
          default: break;
        }
        query(k ? k : 1);
      }
      VH_CHECK(m.size() == total, "amap:size", "size() " << m.size() << " model " << total);
      if (r.chance(1, 20)) full();
    }
    full();
    vh::sig("amap|n" + std::to_string(model.size() / 8) + "|t" + std::to_string(total / 16));
  }
};

// ------------------------------------------------------------- Judy arrays
struct JudyCase {
  vh::Rng& r;
  unsigned depth;
  Judy* j;
  using Key = std::vector<judyvalue>;
  std::map<Key, JudySlot> model;
  Keys keys;
  std::vector<Key> used;
  explicit JudyCase(vh::Rng& rng) : r(rng), depth(1) /* the only depth Umpire uses; deeper integer keys are a quirk-ridden part of the third-party code */, keys(rng)
  {
    j = judy_open(depth * JUDY_key_size, depth);
  }
  unsigned max() { return depth * JUDY_key_size; }
  const unsigned char* B(const Key& k) { return reinterpret_cast<const unsigned char*>(k.data()); }
  Key fresh()
  {
    Key k(depth);
    for (auto& x : k) x = r.chance(1, 3) && !used.empty() ? used[r.below(used.size())][size_t(&x - k.data())] : keys.fresh();
    return k;
  }
  // A lookup of an absent key may come back with a never-used (zero) cell of a
  // node that shares its prefix; a zero cell is no entry (cells are set by the caller).
  JudySlot* slot(const Key& k)
  {
    JudySlot* s = judy_slot(j, B(k), max());
    return s && *s ? s : nullptr;
  }
  Key key_now()
  {
    Key k(depth);
    judy_key(j, reinterpret_cast<unsigned char*>(k.data()), max());
    return k;
  }
  void expect(JudySlot* s, std::map<Key, JudySlot>::iterator it, const char* what)
  {
    std::string kk = std::string("judy:") + what;
    if (it == model.end()) { VH_CHECK(s == nullptr, kk, what << " finds an entry although there is none"); return; }
    VH_CHECK(s != nullptr, kk, what << " finds nothing, expected key " << std::hex << it->first[0]);
    if (!s) return;
    VH_CHECK(*s == it->second, kk, what << " gives another cell: " << *s << " (key " << std::hex << key_now()[0] << "," << key_now().back() << ") expected " << it->second << " (key " << it->first[0] << "," << it->first.back() << ")");
    VH_CHECK(key_now() == it->first, kk + "-key", what << ": judy_key gives " << std::hex << key_now()[0] << " expected " << it->first[0]);
  }
  void run()
  {
    size_t ops = r.range(50, 700);
    unsigned pins = 65;
    for (size_t i = 0; i < ops; ++i) {
      if (r.chance(1, 60)) pins = unsigned(r.range(5, 90));
      unsigned roll = unsigned(r.below(100));
      if (roll < pins) {
        Key k = fresh();
        JudySlot* c = judy_cell(j, B(k), max());
        vh::step("cell", k[0] - keys.base, k.back());
        VH_CHECK(c != nullptr, "judy:cell", "judy_cell returned NULL");
        auto it = model.find(k);
        VH_CHECK(it == model.end() ? *c == 0 : *c == it->second, "judy:cell-value", "judy_cell of a " << (it == model.end() ? "new" : "present") << " key gives a cell with another value");
        if (it == model.end()) {
          *c = i + 1;
          model[k] = i + 1;
          used.push_back(k);
        }
      } else if (roll < 95 && !used.empty()) {
        Key k = used[r.below(used.size())];
        auto it = model.find(k);
        JudySlot* s = slot(k);
        vh::step("del", k[0] - keys.base, it != model.end());
        expect(s, it, "judy_slot");
        if (it != model.end()) {
          judy_del(j);
          model.erase(it);
          VH_CHECK(slot(k) == nullptr, "judy:del", "a deleted key is still found");
        }
      }
      // queries
      Key q = r.chance(1, 2) && !used.empty() ? used[r.below(used.size())] : fresh();
      if (r.chance(1, 2)) q.back() += r.below(3) - 1;
      if (q.back() == 0) q.back() = 1;
      auto it = model.find(q);
      expect(slot(q), it, "judy_slot");
      auto lb = model.lower_bound(q);
      vh::tr("depth %u query %llx %llx", depth, (unsigned long long)q[0], (unsigned long long)q.back());
      JudySlot* sq = judy_strt(j, B(q), max());
      if (sq && !*sq && it == model.end()) {  // an unused cell (see slot()): judy_prv from it is what the map relies on
        vh::count("unused_cells");
        if (lb == model.begin()) VH_CHECK(judy_prv(j) == nullptr, "judy:prv", "judy_prv before the first entry finds one");
        else expect(judy_prv(j), std::prev(lb), "judy_prv");
        continue;
      }
      expect(sq, lb, "judy_strt");
      if (lb != model.end()) {
        unsigned w = unsigned(r.below(3));
        auto x = lb;
        for (int n = 0; n < 3 && w; ++n) {
          if (w == 1) {
            ++x;
            expect(judy_nxt(j), x, "judy_nxt");
            if (x == model.end()) break;
          } else {
            if (x == model.begin()) { VH_CHECK(judy_prv(j) == nullptr, "judy:prv", "judy_prv before the first entry finds one"); break; }
            --x;
            expect(judy_prv(j), x, "judy_prv");
          }
        }
      }
      if (r.chance(1, 20)) {
        Key z(depth, 0);
        auto m = model.begin();
        size_t n = 0;
        for (JudySlot* s = judy_strt(j, B(z), 0); s; s = judy_nxt(j), ++m, ++n) {
          VH_CHECK(m != model.end(), "judy:walk-long", "forward walk yields too many entries");
          if (m == model.end()) break;
          expect(s, m, "walk");
        }
        VH_CHECK(n == model.size(), "judy:walk", "forward walk saw " << n << " of " << model.size());
        auto rm = model.rbegin();
        n = 0;
        for (JudySlot* s = judy_end(j); s; s = judy_prv(j), ++rm, ++n) {
          VH_CHECK(rm != model.rend(), "judy:walk-back-long", "backward walk yields too many entries");
          if (rm == model.rend()) break;
          VH_CHECK(*s == rm->second, "judy:walk-back", "backward walk differs at " << n);
        }
        VH_CHECK(n == model.size(), "judy:walk-back", "backward walk saw " << n << " of " << model.size());
      }
    }
    vh::sig("judy|d" + std::to_string(depth) + "|fam" + std::to_string(keys.fam) + "|n" + std::to_string(model.size() / 32));
    judy_close(j);
  }
};

// ------------------------------------------------------------- FixedMallocPool
static void pool_case(vh::Rng& r)
{
  size_t obj = 4 * (r.chance(1, 3) ? r.range(1, 4) : r.range(1, 40));
  size_t per = r.chance(1, 3) ? r.range(1, 4) : r.range(1, 200);
  if (r.chance(1, 20)) per = 70000;
  // now and then so many objects that their indices need more than 16 bits
  size_t bulk = per == 70000 && r.chance(1, 3) ? r.range(65530, 71000) : 0;
  FixedMallocPool p{obj, per};
  FixedMallocPool other{obj, 8};
  std::map<uintptr_t, std::uint64_t> live;
  std::vector<uintptr_t> order;
  size_t peak = 0, ops = r.range(20, 800), serial = 0;
  void* foreign = other.allocate(obj);
  int pattern = int(r.below(3));
  unsigned pins = 60;
  auto verify = [&](uintptr_t a, std::uint64_t s) {
    for (size_t i = 0; i < obj; ++i)
      if (reinterpret_cast<unsigned char*>(a)[i] != (unsigned char)(s * 31 + i * 7)) {
        VH_CHECK(false, "mpool:content", "byte " << i << " of a live " << obj << "-byte object changed");
        return;
      }
    vh::evals();
  };
  if (bulk) pattern = int(r.below(2)) * 2;
  for (size_t i = 0; i < ops + bulk; ++i) {
    if (r.chance(1, 50)) pins = unsigned(r.range(5, 95));
    if (i < bulk || r.below(100) < pins || order.empty()) {
      if (i >= bulk || i % 4096 == 0) vh::step("alloc", i);
      void* v = r.chance(1, 2) ? p.allocate() : p.allocate(r.range(0, obj));
      auto a = U(v);
      VH_CHECK(v != nullptr, "mpool:null", "allocate returned nullptr");
      auto it = live.lower_bound(a);
      bool bad = (it != live.end() && it->first < a + obj) || (it != live.begin() && std::prev(it)->first + obj > a);
      VH_CHECK(!bad, "mpool:overlap", "a " << obj << "-byte object overlaps a live one");
      if (bad) return;
      live[a] = ++serial;
      order.push_back(a);
      for (size_t k = 0; k < obj; ++k) reinterpret_cast<unsigned char*>(a)[k] = (unsigned char)(serial * 31 + k * 7);
      peak = std::max(peak, live.size());
    } else {
      size_t k = pattern == 0 ? order.size() - 1 : pattern == 1 ? 0 : r.below(order.size());
      uintptr_t a = order[k];
      vh::step("free", k);
      verify(a, live[a]);
      order.erase(order.begin() + long(k));
      live.erase(a);
      p.deallocate(P(a));
    }
    if (r.chance(1, 60)) {
      bool threw = false;
      int dummy;
      void* q = r.chance(1, 2) ? foreign : static_cast<void*>(&dummy);
      const char* what = "a pointer of another owner";
      if (live.size() == per && p.numPools() == 1 && r.chance(3, 4)) {
        // every object of the only block is live: its neighbours are not objects
        if (r.chance(1, 2)) { q = P(live.rbegin()->first + obj); what = "the address just after the last object"; }
        else { q = P(live.begin()->first - (r.chance(1, 2) ? obj : 4)); what = "an address just before the first object"; }
        vh::count("mpool_edges");
      }
      vh::step("foreign", size_t(what[1]));
      try { p.deallocate(q); } catch (umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw, "mpool:foreign", "deallocating " << what << " did not report an error");
    }
    size_t need = std::max<size_t>(1, (peak + per - 1) / per);
    VH_CHECK(p.numPools() == need, "mpool:growth", "numPools() " << p.numPools() << " with at most " << peak << " live objects of " << per << " per pool");
    if (i >= bulk && r.chance(1, bulk ? 400 : 30)) for (auto& l : live) verify(l.first, l.second);
  }
  if (bulk) vh::count("mpool_bulk");
  for (auto& l : live) verify(l.first, l.second);
  vh::sig("mpool|obj" + std::to_string(obj) + "|per" + std::to_string(per > 8 ? 9 : per) + "|pools" + std::to_string(p.numPools() > 8 ? 9 : p.numPools()));
}

// ------------------------------------------------------------- nothing held is lost
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
// Runs prepared work and says how many heap bytes the process holds more
// afterwards; nothing of the harness may allocate inside.
template <typename F>
static long held_after(F&& f)
{
  if (!__sanitizer_get_current_allocated_bytes) { f(); return 0; }
  size_t a = __sanitizer_get_current_allocated_bytes();
  f();
  return long(__sanitizer_get_current_allocated_bytes()) - long(a);
}
static void leak_case(vh::Rng& r)
{
  const bool pools = vh::st().opt.count("of") && vh::st().opt["of"] == "pool";
  size_t n = r.range(1, 400), which = pools ? 2 : r.below(2), per = r.range(1, 40), objs = 4 * r.range(1, 30);
  bool clear = r.chance(1, 2), drain = r.chance(1, 4);
  std::vector<uintptr_t> at(n);
  std::vector<int> kind(n);
  Keys keys(r);
  size_t distinct = r.range(1, n);
  std::vector<uintptr_t> pool(distinct);
  for (auto& k : pool) k = keys.fresh();
  for (size_t i = 0; i < n; ++i) { at[i] = pool[r.below(distinct)]; kind[i] = int(r.below(4)); }
  const std::string longname(r.range(16, 300), 'n');
  std::vector<void*> got(n);
  vh::step("held", which, n);
  auto work = [&] {
    if (which == 0) {
      AllocationMap m;
      for (size_t i = 0; i < n; ++i) {
        if (kind[i] == 0 && m.contains(P(at[i]))) { try { m.remove(P(at[i])); } catch (umpire::runtime_error&) {} }
        else { AllocationRecord rec{P(at[i]), 1, nullptr, kind[i] == 1 ? std::string{} : longname}; m.insert(P(at[i]), rec); }
      }
      if (clear) m.clear();
      else if (drain) for (auto k : pool) while (m.findRecord(P(k)) && m.findRecord(P(k))->ptr == P(k)) m.remove(P(k));
      if (clear && drain) for (size_t i = 0; i < n; ++i) { AllocationRecord rec{P(at[i]), 1, nullptr, longname}; m.insert(P(at[i]), rec); }
    } else if (which == 1) {
      MemoryMap<Counted> m;
      for (size_t i = 0; i < n; ++i) {
        if (kind[i] == 0) { auto it = m.find(P(at[i])); if (it != m.end()) m.erase(it); }
        else m.insert(P(at[i]), 0, longname.c_str());
      }
      if (clear) m.clear();
      else if (drain) for (auto k : pool) if (m.find(P(k)) != m.end()) m.erase(P(k));
    } else {
      FixedMallocPool p{objs, per};
      for (size_t i = 0; i < n; ++i) got[i] = p.allocate();
      if (drain) for (size_t i = 0; i < n; ++i) p.deallocate(got[i]);
      if (drain && clear) for (size_t i = 0; i < n; ++i) got[i] = p.allocate();
    }
  };
  held_after(work);  // whatever is set up once
  long extra = held_after(work);
  static const char* names[] = {"AllocationMap", "MemoryMap", "FixedMallocPool"};
  VH_CHECK(extra == 0, which == 2 ? "mpool:leak" : which ? "map:leak" : "amap:leak", "a " << names[which] << " that was filled with " << n << (which == 2 ? " objects" : " entries") << " and destroyed leaves " << extra << " bytes behind");
  vh::sig("leak|" + std::to_string(which) + "|" + std::to_string(clear) + std::to_string(drain) + "|n" + std::to_string(n / 40));
}

// More entries than one value pool holds (1M objects).
static void big_case(vh::Rng& r, std::uint64_t c)
{
  size_t n = 1024 * 1024 + r.range(1, 3000);
  uintptr_t base = (r.next() & 0x00007ffffff00000ull) | 0x1000000, stride = c % 2 ? 16 : 1 + r.below(100);
  MemoryMap<int> m;
  for (size_t i = 0; i < n; ++i) {
    auto pr = m.insert(P(base + i * stride), int(i));
    VH_CHECK(pr.second, "map:inserted", "bulk insert " << i << " says present");
  }
  vh::step("bulk", n, stride);
  VH_CHECK(m.size() == n, "map:size", "size " << m.size() << " after " << n << " inserts");
  std::set<size_t> gone;
  for (int round = 0; round < 4; ++round) {
    for (int k = 0; k < 20000; ++k) {
      size_t i = round < 2 ? r.below(n) : n - 1 - r.below(5000);
      if (gone.insert(i).second) m.erase(P(base + i * stride));
    }
    std::vector<size_t> back;
    for (size_t i : gone) if (r.chance(1, 2)) back.push_back(i);
    for (size_t i : back) {
      auto pr = m.insert(P(base + i * stride), int(i));
      VH_CHECK(pr.second, "map:inserted", "re-insert says present");
      gone.erase(i);
    }
    VH_CHECK(m.size() == n - gone.size(), "map:size", "size " << m.size() << " expected " << n - gone.size());
  }
  size_t i = 0, seen = 0;
  for (auto it = m.begin(); it != m.end(); ++it, ++seen) {
    while (gone.count(i)) ++i;
    if (it->first != P(base + i * stride) || *it->second != int(i)) { VH_CHECK(false, "map:bulk", "entry " << seen << " is " << it->first << "=" << *it->second << " expected " << P(base + i * stride) << "=" << i); return; }
    vh::evals();
    ++i;
  }
  VH_CHECK(seen == m.size(), "map:iter-short", "iterated " << seen << " of " << m.size());
}

static void one(vh::Rng& r, std::uint64_t c)
{
  static const std::string mode = vh::st().opt.count("mode") ? vh::st().opt["mode"] : "map";
  g_live = 0;
  if (mode == "map") {
    switch (r.below(3)) {
      case 0: { MapCase<int> m(r); m.run(); break; }
      case 1: { MapCase<Counted> m(r); m.run(); break; }
      default: { MapCase<Wide> m(r); m.run(); break; }
    }
  } else if (mode == "alloc") { AllocCase a(r); a.run(r.range(30, 400)); }
  else if (mode == "crowd") { AllocCase a(r); a.crowd(int(c % 3)); }
  else if (mode == "leak") leak_case(r);
  else if (mode == "judy") { JudyCase j(r); j.run(); }
  else if (mode == "pool") pool_case(r);
  else big_case(r, c);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "map", one); }
