// The C interface: every call through it has the effect of the call it stands for.
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"
#include "wrapAllocator.h"
#include "wrapResourceManager.h"
#include "wrapUmpire.h"

// Fortran entry points that the headers leave out
extern "C" {
umpire_allocator* umpire_resourcemanager_get_allocator_by_name_bufferify(umpire_resourcemanager*, const char*, int, umpire_allocator*);
void umpire_allocator_get_name_bufferify(umpire_allocator*, umpire_SHROUD_array*);
}

using U = std::uint64_t;
using std::size_t;
namespace st = umpire::strategy;

struct A {
  umpire_allocator c;
  umpire::Allocator x;  // the same allocator, seen from C++
  std::string name, kind;
  size_t fixed{0};
  bool parent{false};  // others take memory from it, which counts as its own
  std::map<void*, size_t> live;
  size_t cur{0}, high{0};
};
struct L {
  unsigned char* p;
  std::vector<unsigned char> d;
  int a;
  bool ext{false};
};

// A name in a buffer of exactly its length, without terminator, as Fortran passes it.
struct Raw {
  std::unique_ptr<char[]> b;
  int n;
  explicit Raw(const std::string& s) : b(new char[s.size() ? s.size() : 1]), n(int(s.size())) { std::memcpy(b.get(), s.data(), s.size()); }
};

static void one_case(vh::Rng& r, U c)
{
  umpire_resourcemanager rmc;
  VH_CHECK(umpire_resourcemanager_get_instance(&rmc) == &rmc, "capi:handle", "get_instance does not return its result argument");
  auto& rm = umpire::ResourceManager::getInstance();
  VH_CHECK(rmc.addr == &rm && rmc.idtor == 0, "capi:handle", "the resource manager handle is not the resource manager, or would destroy it");
  std::vector<A> as;
  auto adopt = [&](umpire_allocator h, const std::string& name, const char* kind) {
    VH_CHECK(h.addr != nullptr && h.idtor == 1, "capi:handle", kind << ": the handle is empty or does not own its allocator");
    VH_CHECK(rm.isAllocator(name), "capi:make", kind << " '" << name << "' is not registered under its name");
    umpire::Allocator x = rm.getAllocator(name);
    VH_CHECK(static_cast<umpire::Allocator*>(h.addr)->getId() == x.getId(), "capi:make", kind << ": the handle is another allocator");
    A a{h, x, name, kind};
    as.push_back(a);
  };
  umpire_allocator hh;
  umpire_resourcemanager_get_allocator_by_name(&rmc, "HOST", &hh);
  adopt(hh, "HOST", "host");
  as[0].cur = as[0].x.getCurrentSize();
  as[0].high = as[0].x.getHighWatermark();
  const size_t host_count = as[0].x.getAllocationCount();
  auto make = [&]() {
    int pi = 0;
    for (int t = 0; t < 3; ++t) { pi = int(r.below(as.size())); if (!as[pi].fixed) break; pi = 0; }
    umpire_allocator par = as[pi].c;
    std::string name = "c" + std::to_string(::getpid()) + "_" + std::to_string(c) + "_" + std::to_string(as.size());
    if (r.chance(1, 3)) name += " x ";
    bool f = r.chance(1, 2);
    Raw raw(name);
    umpire_allocator h{nullptr, 77};
    const char* kind = "";
    size_t x = r.range(512, 20000), y = r.range(256, 4096), fx = 0;
    umpire_allocator* res = nullptr;
    switch (r.below(5)) {
      case 0:
        kind = "quick";
        res = f ? umpire_resourcemanager_make_allocator_bufferify_quick_pool(&rmc, raw.b.get(), raw.n, par, x, y, &h) : umpire_resourcemanager_make_allocator_quick_pool(&rmc, name.c_str(), par, x, y, &h);
        break;
      case 1:
        kind = "list";
        res = f ? umpire_resourcemanager_make_allocator_bufferify_list_pool(&rmc, raw.b.get(), raw.n, par, x, y, &h) : umpire_resourcemanager_make_allocator_list_pool(&rmc, name.c_str(), par, x, y, &h);
        break;
      case 2:
        kind = "named";
        res = f ? umpire_resourcemanager_make_allocator_bufferify_named(&rmc, raw.b.get(), raw.n, par, &h) : umpire_resourcemanager_make_allocator_named(&rmc, name.c_str(), par, &h);
        break;
      case 3:
        kind = "thread_safe";
        res = f ? umpire_resourcemanager_make_allocator_bufferify_thread_safe(&rmc, raw.b.get(), raw.n, par, &h) : umpire_resourcemanager_make_allocator_thread_safe(&rmc, name.c_str(), par, &h);
        break;
      default:
        kind = "fixed";
        fx = r.range(1, 16) * 8;
        res = f ? umpire_resourcemanager_make_allocator_bufferify_fixed_pool(&rmc, raw.b.get(), raw.n, par, fx, &h) : umpire_resourcemanager_make_allocator_fixed_pool(&rmc, name.c_str(), par, fx, &h);
        break;
    }
    VH_CHECK(res == &h, "capi:handle", kind << ": the result argument is not returned");
    as[pi].parent = true;
    adopt(h, name, kind);
    as.back().fixed = fx;
    auto* s = as.back().x.getAllocationStrategy();
    std::string want = kind;
    bool type = want == "quick" ? dynamic_cast<st::QuickPool*>(s) != nullptr : want == "list" ? dynamic_cast<st::DynamicPoolList*>(s) != nullptr : want == "named" ? dynamic_cast<st::NamedAllocationStrategy*>(s) != nullptr : want == "thread_safe" ? dynamic_cast<st::ThreadSafeAllocator*>(s) != nullptr : dynamic_cast<st::FixedPool*>(s) != nullptr;
    VH_CHECK(type, "capi:make", "asked for a " << kind << ", got a " << s->getStrategyName());
    VH_CHECK(s->getParent() == as[pi].x.getAllocationStrategy(), "capi:make", kind << " was not made over the allocator given");
    if (want == "quick" || want == "list") {
      // the first block has the initial size, later ones the other
      void* p = as.back().x.allocate(8);
      size_t got = as.back().x.getActualSize();
      VH_CHECK(got >= x && got < x + 64, "capi:make", kind << " with a first block of " << x << " holds " << got << " bytes");
      void* q = as.back().x.allocate(x);
      size_t more = as.back().x.getActualSize() - got, need = std::max(x, y);
      VH_CHECK(more >= need && more < need + 64, "capi:make", kind << " with next blocks of " << y << " grew by " << more << " for a request of " << x);
      as.back().x.deallocate(p);
      as.back().x.deallocate(q);
      as.back().high = as.back().x.getHighWatermark();
    }
    vh::step(kind, x, U(f));
  };
  for (U i = r.range(1, 4); i; --i) make();
  std::vector<L> v;
  std::vector<std::unique_ptr<unsigned char[]>> ext;
  std::vector<std::pair<std::string, int>> alias;
  auto same = [&](const L& l, const char* w) {
    VH_CHECK(l.d.empty() || std::memcmp(l.p, l.d.data(), l.d.size()) == 0, "capi:content", w << ": the contents are not what the calls should have left");
  };
  auto stats = [&](A& a) {
    VH_CHECK(umpire_allocator_get_current_size(&a.c) == a.x.getCurrentSize() && umpire_allocator_get_high_watermark(&a.c) == a.x.getHighWatermark() && umpire_allocator_get_allocation_count(&a.c) == a.x.getAllocationCount(), "capi:stats", a.kind << ": statistics differ from C++");
    if (a.kind == "host" || a.parent) return;
    VH_CHECK(umpire_allocator_get_current_size(&a.c) == a.cur, "capi:stats", a.kind << ": current size " << umpire_allocator_get_current_size(&a.c) << ", live " << a.cur);
    VH_CHECK(umpire_allocator_get_high_watermark(&a.c) == a.high, "capi:stats", a.kind << ": high watermark " << umpire_allocator_get_high_watermark(&a.c) << ", reached " << a.high);
    VH_CHECK(umpire_allocator_get_allocation_count(&a.c) == a.live.size(), "capi:stats", a.kind << ": count " << umpire_allocator_get_allocation_count(&a.c) << ", live " << a.live.size());
    VH_CHECK(umpire_allocator_get_actual_size(&a.c) == a.x.getActualSize(), "capi:stats", a.kind << ": actual size differs from C++");
  };
  auto add = [&](int a, void* p, size_t n) { as[a].live[p] = n; as[a].cur += n; as[a].high = std::max(as[a].high, as[a].cur); };
  auto del = [&](int a, void* p) { as[a].cur -= as[a].live[p]; as[a].live.erase(p); };
  auto fill = [&](L& l) { for (auto& b : l.d) b = (unsigned char)r.next(); if (!l.d.empty()) std::memcpy(l.p, l.d.data(), l.d.size()); };
  const size_t ops = r.range(30, 150);
  auto one = [&]() {
    U k = r.below(32);
    if (k < 7 || v.empty()) {
      int a = int(r.below(as.size()));
      size_t n = as[a].fixed ? as[a].fixed : r.chance(1, 15) ? 0 : r.range(1, 900);
      void* p = umpire_allocator_allocate(&as[a].c, n);
      VH_CHECK(p != nullptr, "capi:alloc", as[a].kind << ": allocate returned null");
      VH_CHECK(rm.hasAllocator(p) && rm.getAllocator(p).getId() == as[a].x.getId() && rm.getSize(p) == n, "capi:alloc", as[a].kind << ": the C++ side does not know the allocation of " << n);
      L l{static_cast<unsigned char*>(p), std::vector<unsigned char>(n), a};
      fill(l);
      v.push_back(l);
      add(a, p, n);
      vh::step("alloc", n, U(a));
    } else if (k < 12) {
      size_t x = r.below(v.size());
      if (v[x].ext) return;
      L l = v[x];
      v.erase(v.begin() + long(x));
      same(l, "deallocate");
      if (r.chance(1, 3)) umpire_resourcemanager_deallocate(&rmc, l.p); else umpire_allocator_deallocate(&as[l.a].c, l.p);
      del(l.a, l.p);
      VH_CHECK(l.d.empty() || !rm.hasAllocator(l.p), "capi:free", "a deallocated pointer is still known");
      vh::step("free", l.d.size(), U(l.a));
    } else if (k < 16) {
      L &d = v[r.below(v.size())], &s = v[r.below(v.size())];
      if (&d == &s || d.d.empty() || s.d.empty()) return;
      size_t so = r.chance(1, 2) ? 0 : r.below(s.d.size()), dof = r.chance(1, 2) ? 0 : r.below(d.d.size());
      size_t rs = s.d.size() - so, rd = d.d.size() - dof, n;
      if (rs <= rd && r.chance(1, 2)) { umpire_resourcemanager_copy_all(&rmc, d.p + dof, s.p + so); n = rs; }
      else { n = r.range(1, std::min(rs, rd)); umpire_resourcemanager_copy_with_size(&rmc, d.p + dof, s.p + so, n); }
      std::copy_n(s.d.begin() + long(so), n, d.d.begin() + long(dof));
      same(d, "copy (destination)");
      same(s, "copy (source)");
      vh::step("copy", n, so);
    } else if (k < 19) {
      L& l = v[r.below(v.size())];
      if (l.d.empty()) return;
      size_t off = r.below(l.d.size()), n = l.d.size() - off;
      int val = int(r.below(256));
      if (r.chance(1, 2)) umpire_resourcemanager_memset_all(&rmc, l.p + off, val);
      else { n = r.range(1, n); umpire_resourcemanager_memset_with_size(&rmc, l.p + off, val, n); }
      std::fill_n(l.d.begin() + long(off), n, (unsigned char)val);
      same(l, "memset");
      vh::step("memset", n, off);
    } else if (k < 22) {
      L& l = v[r.below(v.size())];
      if (l.ext) return;
      size_t n = as[l.a].fixed ? as[l.a].fixed : r.chance(1, 8) ? 0 : r.range(1, 1200), old = l.d.size();
      bool with = r.chance(1, 2);
      const size_t w0 = umpire_allocator_get_high_watermark(&as[l.a].c);
      void* p = with ? umpire_resourcemanager_reallocate_with_allocator(&rmc, l.p, n, as[l.a].c) : umpire_resourcemanager_reallocate_default(&rmc, l.p, n);
      VH_CHECK(p != nullptr && rm.getSize(p) == n && rm.getAllocator(p).getId() == as[l.a].x.getId(), "capi:realloc", as[l.a].kind << ": reallocated to " << n << ", known with " << rm.getSize(p));
      del(l.a, l.p);
      add(l.a, p, n);
      // both blocks may have been live for a moment
      const size_t w1 = umpire_allocator_get_high_watermark(&as[l.a].c);
      if (as[l.a].kind != "host" && !as[l.a].parent) VH_CHECK(w1 >= as[l.a].high && w1 <= std::max(w0, as[l.a].cur + old), "capi:stats", "high watermark " << w1 << " after a reallocation from " << old << " to " << n);
      as[l.a].high = w1;
      l.p = static_cast<unsigned char*>(p);
      l.d.resize(std::min(old, n));
      same(l, "reallocate");
      l.d.resize(n);
      fill(l);
      vh::step("realloc", n, U(with));
    } else if (k == 22) {
      bool fresh = r.chance(1, 2);
      int a = fresh ? int(r.below(as.size())) : 0;
      size_t n = as[a].fixed ? as[a].fixed : r.range(1, 300);
      void* p = fresh ? umpire_resourcemanager_reallocate_with_allocator(&rmc, nullptr, n, as[a].c) : umpire_resourcemanager_reallocate_default(&rmc, nullptr, n);
      VH_CHECK(p && rm.getSize(p) == n && rm.getAllocator(p).getId() == as[a].x.getId(), "capi:realloc", "reallocating null does not allocate from the " << (fresh ? "given" : "default") << " allocator");
      L l{static_cast<unsigned char*>(p), std::vector<unsigned char>(n), a};
      fill(l);
      v.push_back(l);
      add(a, p, n);
      vh::step("realloc0", n, U(a));
    } else if (k < 25) {
      L& l = v[r.below(v.size())];
      int a = int(r.below(as.size()));
      if (l.ext || l.d.empty() || (as[a].fixed && as[a].fixed != l.d.size())) return;
      void* p = umpire_resourcemanager_move(&rmc, l.p, as[a].c);
      VH_CHECK(p && rm.getAllocator(p).getId() == as[a].x.getId() && rm.getSize(p) == l.d.size(), "capi:move", "moved from " << as[l.a].kind << " to " << as[a].kind << ": not known there");
      VH_CHECK((a == l.a) == (p == l.p), "capi:move", "a move within one allocator changes the address, or one across does not");
      if (a != l.a) { del(l.a, l.p); add(a, p, l.d.size()); }
      l.p = static_cast<unsigned char*>(p);
      l.a = a;
      same(l, "move");
      vh::step("move", l.d.size(), U(a));
    } else if (k < 28) {
      L& l = v[r.below(v.size())];
      A& a = as[l.a];
      unsigned char* in = l.p + (l.d.empty() ? 0 : r.below(l.d.size()));
      VH_CHECK(umpire_resourcemanager_has_allocator(&rmc, in), "capi:query", "a live pointer is not known");
      VH_CHECK(umpire_resourcemanager_get_size(&rmc, in) == l.d.size(), "capi:query", "get_size " << umpire_resourcemanager_get_size(&rmc, in) << " for " << l.d.size());
      VH_CHECK(umpire_allocator_get_size(&a.c, in) == l.d.size(), "capi:query", "allocator get_size differs");
      umpire_allocator h{nullptr, 0};
      umpire_resourcemanager_get_allocator_for_ptr(&rmc, in, &h);
      VH_CHECK(h.addr && h.idtor == 1 && umpire_allocator_get_id(&h) == umpire_allocator_get_id(&a.c) && int(umpire_allocator_get_id(&h)) == a.x.getId(), "capi:query", "the allocator of a pointer is wrong");
      if (r.chance(1, 2)) { umpire_allocator_delete(&h); VH_CHECK(h.addr == nullptr, "capi:handle", "a deleted handle is not empty"); }
      else {
        umpire_SHROUD_capsule_data cap{h.addr, h.idtor};
        umpire_SHROUD_memory_destructor(&cap);
        VH_CHECK(cap.addr == nullptr && cap.idtor == 0, "capi:handle", "a destroyed capsule is not empty");
        umpire_SHROUD_memory_destructor(&cap);
      }
      static int local;
      VH_CHECK(!umpire_resourcemanager_has_allocator(&rmc, &local), "capi:query", "an unknown pointer is known");
      L& m = v[r.below(v.size())];
      if (!l.d.empty() && !m.d.empty()) {
        VH_CHECK(umpire_pointer_overlaps(l.p, m.p) == umpire::pointer_overlaps(l.p, m.p), "capi:query", "pointer_overlaps differs from C++");
        VH_CHECK(umpire_pointer_contains(l.p, m.p) == (&l == &m || l.p == m.p), "capi:query", "pointer_contains of distinct or equal allocations");
      }
      vh::step("query");
    } else if (k == 28) {
      A& a = as[r.below(as.size())];
      VH_CHECK(std::string(umpire_allocator_get_name(&a.c)) == a.name, "capi:name", "name '" << umpire_allocator_get_name(&a.c) << "' for '" << a.name << "'");
      umpire_SHROUD_array arr;
      std::memset(&arr, 0x5a, sizeof arr);
      umpire_allocator_get_name_bufferify(&a.c, &arr);
      VH_CHECK(arr.size == 1 && arr.elem_len == a.name.size() && std::string(arr.addr.ccharp, arr.elem_len) == a.name && arr.cxx.idtor == 0, "capi:name", "the Fortran name differs or would be freed");
      VH_CHECK(umpire_resourcemanager_is_allocator_name(&rmc, a.name.c_str()), "capi:name", "a name is not known");
      Raw raw(a.name);
      VH_CHECK(umpire_resourcemanager_is_allocator_name_bufferify(&rmc, raw.b.get(), raw.n), "capi:name", "a name is not known (Fortran)");
      VH_CHECK(!umpire_resourcemanager_is_allocator_name(&rmc, (a.name + "?").c_str()), "capi:name", "an unused name is known");
      VH_CHECK(umpire_resourcemanager_is_allocator_id(&rmc, a.x.getId()) && !umpire_resourcemanager_is_allocator_id(&rmc, 123456789), "capi:name", "ids");
      umpire_allocator h[3];
      umpire_resourcemanager_get_allocator_by_name(&rmc, a.name.c_str(), &h[0]);
      umpire_resourcemanager_get_allocator_by_id(&rmc, a.x.getId(), &h[1]);
      umpire_resourcemanager_get_allocator_by_name_bufferify(&rmc, raw.b.get(), raw.n, &h[2]);
      for (auto& x : h) {
        VH_CHECK(int(umpire_allocator_get_id(&x)) == a.x.getId() && x.idtor == 1, "capi:name", "a lookup finds another allocator");
        umpire_allocator_delete(&x);
      }
      vh::step("names");
    } else if (k == 29) {
      A& a = as[r.below(as.size())];
      if (!alias.empty() && r.chance(1, 2)) {
        auto e = alias.back();
        alias.pop_back();
        Raw raw(e.first);
        if (r.chance(1, 2)) umpire_resourcemanager_remove_alias(&rmc, e.first.c_str(), as[size_t(e.second)].c); else umpire_resourcemanager_remove_alias_bufferify(&rmc, raw.b.get(), raw.n, as[size_t(e.second)].c);
        VH_CHECK(!rm.isAllocator(e.first), "capi:alias", "a removed alias is still known");
      } else {
        std::string n = a.name + "_alias" + std::to_string(r.next());
        Raw raw(n);
        if (r.chance(1, 2)) umpire_resourcemanager_add_alias(&rmc, n.c_str(), a.c); else umpire_resourcemanager_add_alias_bufferify(&rmc, raw.b.get(), raw.n, a.c);
        VH_CHECK(rm.isAllocator(n) && rm.getAllocator(n).getId() == a.x.getId(), "capi:alias", "an alias leads elsewhere");
        alias.emplace_back(n, int(&a - &as[0]));
      }
      vh::step("alias");
    } else if (k == 30) {
      size_t x = r.below(v.size());
      if (v[x].ext) {
        umpire_resourcemanager_deregister_allocation(&rmc, v[x].p);
        VH_CHECK(!rm.hasAllocator(v[x].p), "capi:external", "a deregistered pointer is still known");
        v.erase(v.begin() + long(x));
      } else {
        size_t n = r.range(1, 300);
        ext.emplace_back(new unsigned char[n]);
        int a = int(r.below(as.size()));
        L l{ext.back().get(), std::vector<unsigned char>(n), a, true};
        umpire_resourcemanager_register_allocation(&rmc, l.p, n, as[a].c);
        fill(l);
        VH_CHECK(rm.hasAllocator(l.p) && rm.getSize(l.p) == n && rm.getAllocator(static_cast<void*>(l.p)).getId() == as[a].x.getId(), "capi:external", "a registered pointer is not known as registered");
        v.push_back(l);
      }
      vh::step("external");
    } else {
      A& a = as[r.below(as.size())];
      size_t before = a.x.getActualSize();
      umpire_allocator_release(&a.c);
      if (a.live.empty() && (a.kind == "quick" || a.kind == "list")) {
        // allocators made over it hold memory of it that is live to it
        if (!a.parent) VH_CHECK(a.x.getActualSize() == 0, "capi:release", a.kind << " holds " << a.x.getActualSize() << " of " << before << " bytes after release");
      }
      vh::step("release");
    }
  };
  for (size_t i = 0; i < ops; ++i) {
    one();
    for (auto& a : as) stats(a);
    if (r.chance(1, 40) && as.size() < 7) make();
  }
  VH_CHECK(umpire_get_major_version() == umpire::get_major_version() && umpire_get_minor_version() == umpire::get_minor_version() && umpire_get_patch_version() == umpire::get_patch_version(), "capi:version", "versions differ");
  size_t m1 = umpire_get_process_memory_usage(), m2 = umpire_get_process_memory_usage_hwm();
  VH_CHECK(m1 > 0 && m2 > 0, "capi:memory", "memory use " << m1 << ", high " << m2);
  if (!v.empty()) {
    umpire_SHROUD_array arr;
    umpire_get_backtrace_bufferify(v[0].p, &arr);
    std::string s = umpire::get_backtrace(v[0].p);
    VH_CHECK(arr.elem_len == s.size() && (s.empty() || std::string(arr.addr.ccharp, arr.elem_len) == s) && arr.cxx.idtor == 2, "capi:backtrace", "the backtrace text differs");
    umpire_SHROUD_capsule_data cap{arr.cxx.addr, arr.cxx.idtor};
    umpire_SHROUD_memory_destructor(&cap);
    VH_CHECK(cap.addr == nullptr, "capi:handle", "a destroyed capsule is not empty");
  }
  for (auto& l : v) {
    same(l, "end");
    if (l.ext) umpire_resourcemanager_deregister_allocation(&rmc, l.p);
    else { umpire_allocator_deallocate(&as[l.a].c, l.p); del(l.a, l.p); }
  }
  for (auto& a : as) stats(a);
  (void)host_count;
  std::string shape;
  for (auto& a : as) { shape += a.kind + " "; umpire_allocator_delete(&a.c); }
  vh::sig(shape);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "c", one_case); }
