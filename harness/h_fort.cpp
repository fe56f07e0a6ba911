// The Fortran interface: every call through the module has the effect of the C++ call it stands for.
// fbridge.f90 (made by tools/gen_fortran.py) calls the type-bound procedures as a Fortran program would.
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

using std::size_t;
extern "C" {
int vf_open();
void* vf_rm();
void vf_by_name(int, const char*, int);
void vf_by_id(int, int);
void vf_for_ptr(int, void*);
void vf_make(int, int, const char*, int, int, size_t, size_t);
void* vf_addr(int);
int vf_dtor(int);
void vf_set_instance(int, void*);
void vf_own(int);
int vf_associated(int);
void vf_delete(int);
void vf_clear(int);
int vf_eq(int, int);
int vf_ne(int, int);
int vf_rm_eq();
void* vf_allocate(int, size_t);
void vf_deallocate(int, void*);
void vf_rm_deallocate(void*);
void vf_release(int);
size_t vf_size(int, void*);
size_t vf_rm_size(void*);
size_t vf_high_watermark(int);
size_t vf_current_size(int);
size_t vf_actual_size(int);
size_t vf_allocation_count(int);
size_t vf_id(int);
int vf_name(int, char*, int);
int vf_backtrace(void*, char*, int);
void vf_add_alias(int, const char*, int);
void vf_remove_alias(int, const char*, int);
int vf_is_name(const char*, int);
int vf_is_id(int);
int vf_has(void*);
void vf_copy(void*, void*);
void vf_copy_n(void*, void*, size_t);
void vf_memset(void*, int);
void vf_memset_n(void*, int, size_t);
void* vf_realloc(void*, size_t);
void* vf_realloc_with(void*, size_t, int);
void* vf_move(void*, int);
void vf_register(void*, size_t, int);
void vf_deregister(void*);
int vf_overlaps(void*, void*);
int vf_contains(void*, void*);
int vf_version(int);
size_t vf_usage();
size_t vf_usage_hwm();
size_t vf_device_usage(int);
int vf_arr_int_1(int, const int*, void**, int*, int*);
void vf_fill_int_1(void*, const int*, int);
int vf_unarr_int_1(int, void*, const int*);
int vf_arr_int_2(int, const int*, void**, int*, int*);
void vf_fill_int_2(void*, const int*, int);
int vf_unarr_int_2(int, void*, const int*);
int vf_arr_int_3(int, const int*, void**, int*, int*);
void vf_fill_int_3(void*, const int*, int);
int vf_unarr_int_3(int, void*, const int*);
int vf_arr_int_4(int, const int*, void**, int*, int*);
void vf_fill_int_4(void*, const int*, int);
int vf_unarr_int_4(int, void*, const int*);
int vf_arr_long_1(int, const int*, void**, int*, int*);
void vf_fill_long_1(void*, const int*, int);
int vf_unarr_long_1(int, void*, const int*);
int vf_arr_long_2(int, const int*, void**, int*, int*);
void vf_fill_long_2(void*, const int*, int);
int vf_unarr_long_2(int, void*, const int*);
int vf_arr_long_3(int, const int*, void**, int*, int*);
void vf_fill_long_3(void*, const int*, int);
int vf_unarr_long_3(int, void*, const int*);
int vf_arr_long_4(int, const int*, void**, int*, int*);
void vf_fill_long_4(void*, const int*, int);
int vf_unarr_long_4(int, void*, const int*);
int vf_arr_float_1(int, const int*, void**, int*, int*);
void vf_fill_float_1(void*, const int*, int);
int vf_unarr_float_1(int, void*, const int*);
int vf_arr_float_2(int, const int*, void**, int*, int*);
void vf_fill_float_2(void*, const int*, int);
int vf_unarr_float_2(int, void*, const int*);
int vf_arr_float_3(int, const int*, void**, int*, int*);
void vf_fill_float_3(void*, const int*, int);
int vf_unarr_float_3(int, void*, const int*);
int vf_arr_float_4(int, const int*, void**, int*, int*);
void vf_fill_float_4(void*, const int*, int);
int vf_unarr_float_4(int, void*, const int*);
int vf_arr_double_1(int, const int*, void**, int*, int*);
void vf_fill_double_1(void*, const int*, int);
int vf_unarr_double_1(int, void*, const int*);
int vf_arr_double_2(int, const int*, void**, int*, int*);
void vf_fill_double_2(void*, const int*, int);
int vf_unarr_double_2(int, void*, const int*);
int vf_arr_double_3(int, const int*, void**, int*, int*);
void vf_fill_double_3(void*, const int*, int);
int vf_unarr_double_3(int, void*, const int*);
int vf_arr_double_4(int, const int*, void**, int*, int*);
void vf_fill_double_4(void*, const int*, int);
int vf_unarr_double_4(int, void*, const int*);
}
struct Arr {
  int (*make)(int, const int*, void**, int*, int*);
  void (*fill)(void*, const int*, int);
  int (*drop)(int, void*, const int*);
};
static const Arr ARR[4][4] = {
    {{vf_arr_int_1, vf_fill_int_1, vf_unarr_int_1}, {vf_arr_int_2, vf_fill_int_2, vf_unarr_int_2}, {vf_arr_int_3, vf_fill_int_3, vf_unarr_int_3}, {vf_arr_int_4, vf_fill_int_4, vf_unarr_int_4}},
    {{vf_arr_long_1, vf_fill_long_1, vf_unarr_long_1}, {vf_arr_long_2, vf_fill_long_2, vf_unarr_long_2}, {vf_arr_long_3, vf_fill_long_3, vf_unarr_long_3}, {vf_arr_long_4, vf_fill_long_4, vf_unarr_long_4}},
    {{vf_arr_float_1, vf_fill_float_1, vf_unarr_float_1}, {vf_arr_float_2, vf_fill_float_2, vf_unarr_float_2}, {vf_arr_float_3, vf_fill_float_3, vf_unarr_float_3}, {vf_arr_float_4, vf_fill_float_4, vf_unarr_float_4}},
    {{vf_arr_double_1, vf_fill_double_1, vf_unarr_double_1}, {vf_arr_double_2, vf_fill_double_2, vf_unarr_double_2}, {vf_arr_double_3, vf_fill_double_3, vf_unarr_double_3}, {vf_arr_double_4, vf_fill_double_4, vf_unarr_double_4}},
};
static const size_t ELEM[4] = {sizeof(int), sizeof(long), sizeof(float), sizeof(double)};
static const char* TYPE[4] = {"integer(c_int)", "integer(c_long)", "real(c_float)", "real(c_double)"};

using U = std::uint64_t;
namespace st = umpire::strategy;
enum { TMP = 40, TMP2 = 41, TMP3 = 42 };  // slots for handles that do not last

struct A {
  int s;
  umpire::Allocator x;
  std::string name, kind;
  size_t fixed{0};
  bool parent{false};
  size_t cur{0}, high{0}, count{0};
};
struct L {
  unsigned char* p;
  std::vector<unsigned char> d;
  int a;
  bool ext{false};
  int ty{-1}, rank{0};
  int dim[4];
};

static void one_case(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  for (int i = 0; i < 64; ++i) vf_clear(i);
  VH_CHECK(vf_open() == 1 && vf_rm() == &rm && vf_rm_eq() == 1, "fort:handle", "get_instance does not give the resource manager");
  std::vector<A> as;
  // Fortran pads names with blanks, which do not count
  auto padded = [&](const std::string& s) { return s + std::string(r.chance(1, 2) ? 0 : r.below(6), ' '); };
  struct Raw {
    std::unique_ptr<char[]> b;
    int n;
    explicit Raw(const std::string& s) : b(new char[s.size() ? s.size() : 1]), n(int(s.size())) { std::memcpy(b.get(), s.data(), s.size()); }
  };
  auto adopt = [&](int s, const std::string& name, const char* kind) {
    VH_CHECK(vf_associated(s) == 1 && vf_addr(s) != nullptr && vf_dtor(s) == 1, "fort:handle", kind << ": the handle is empty or does not own its allocator");
    VH_CHECK(rm.isAllocator(name), "fort:make", kind << " '" << name << "' is not registered under its name");
    umpire::Allocator x = rm.getAllocator(name);
    VH_CHECK(static_cast<umpire::Allocator*>(vf_addr(s))->getId() == x.getId(), "fort:make", kind << ": the handle is another allocator");
    as.push_back(A{s, x, name, kind});
  };
  { Raw h(padded("HOST")); vf_by_name(0, h.b.get(), h.n); }
  adopt(0, "HOST", "host");
  auto make = [&]() {
    int pi = 0;
    for (int t = 0; t < 3; ++t) { pi = int(r.below(as.size())); if (!as[pi].fixed) break; pi = 0; }
    std::string name = "f" + std::to_string(::getpid()) + "_" + std::to_string(c) + "_" + std::to_string(as.size());
    if (r.chance(1, 3)) name = " " + name + " x";
    if (r.chance(1, 3)) { // long ones too: no fixed-size buffer may cut or run over a name
      name += std::string(size_t(r.range(1, 220)), char('a' + r.below(26)));
    }
    Raw raw(padded(name));
    int s = int(as.size());
    size_t x = r.range(512, 20000), y = r.range(256, 4096);
    static const char* kinds[] = {"quick", "list", "named", "thread_safe", "fixed"};
    int k = int(r.below(5));
    if (k == 4) x = r.range(1, 16) * 8;
    vf_make(s, k, raw.b.get(), raw.n, as[pi].s, x, y);
    as[pi].parent = true;
    adopt(s, name, kinds[k]);
    if (k == 4) as.back().fixed = x;
    auto* p = as.back().x.getAllocationStrategy();
    bool type = k == 0 ? dynamic_cast<st::QuickPool*>(p) != nullptr : k == 1 ? dynamic_cast<st::DynamicPoolList*>(p) != nullptr : k == 2 ? dynamic_cast<st::NamedAllocationStrategy*>(p) != nullptr : k == 3 ? dynamic_cast<st::ThreadSafeAllocator*>(p) != nullptr : dynamic_cast<st::FixedPool*>(p) != nullptr;
    VH_CHECK(type, "fort:make", "asked for a " << kinds[k] << ", got a " << p->getStrategyName());
    VH_CHECK(p->getParent() == as[pi].x.getAllocationStrategy(), "fort:make", kinds[k] << " was not made over the allocator given");
    if (k < 2) {
      void* m = as.back().x.allocate(8);
      size_t got = as.back().x.getActualSize();
      VH_CHECK(got >= x && got < x + 64, "fort:make", kinds[k] << " with a first block of " << x << " holds " << got << " bytes");
      void* q = as.back().x.allocate(x);
      size_t more = as.back().x.getActualSize() - got, need = std::max(x, y);
      VH_CHECK(more >= need && more < need + 64, "fort:make", kinds[k] << " with next blocks of " << y << " grew by " << more << " for a request of " << x);
      as.back().x.deallocate(m);
      as.back().x.deallocate(q);
      as.back().high = as.back().x.getHighWatermark();
    }
    vh::step(kinds[k], x, y);
  };
  for (U i = r.range(1, 4); i; --i) make();
  std::vector<L> v;
  std::vector<std::unique_ptr<unsigned char[]>> ext;
  std::vector<std::pair<std::string, int>> alias;
  auto same = [&](const L& l, const char* w) {
    VH_CHECK(l.d.empty() || std::memcmp(l.p, l.d.data(), l.d.size()) == 0, "fort:content", w << ": the contents are not what the calls should have left");
  };
  auto stats = [&](A& a) {
    VH_CHECK(vf_current_size(a.s) == a.x.getCurrentSize() && vf_high_watermark(a.s) == a.x.getHighWatermark() && vf_allocation_count(a.s) == a.x.getAllocationCount() && vf_actual_size(a.s) == a.x.getActualSize(), "fort:stats", a.kind << ": statistics differ from C++");
    VH_CHECK(vf_id(a.s) == size_t(a.x.getId()), "fort:stats", a.kind << ": the id differs from C++");
    if (a.kind == "host" || a.parent) return;
    VH_CHECK(vf_current_size(a.s) == a.cur, "fort:stats", a.kind << ": current size " << vf_current_size(a.s) << ", live " << a.cur);
    VH_CHECK(vf_high_watermark(a.s) == a.high, "fort:stats", a.kind << ": high watermark " << vf_high_watermark(a.s) << ", reached " << a.high);
    VH_CHECK(vf_allocation_count(a.s) == a.count, "fort:stats", a.kind << ": count " << vf_allocation_count(a.s) << ", live " << a.count);
  };
  auto add = [&](int a, size_t n) { as[a].cur += n; ++as[a].count; as[a].high = std::max(as[a].high, as[a].cur); };
  auto del = [&](int a, size_t n) { as[a].cur -= n; --as[a].count; };
  auto known = [&](const L& l, const char* w) {
    VH_CHECK(rm.hasAllocator(l.p) && rm.getAllocator(static_cast<void*>(l.p)).getId() == as[l.a].x.getId() && rm.getSize(l.p) == l.d.size(), "fort:alloc", as[l.a].kind << ": the C++ side does not know the " << w << " of " << l.d.size() << " bytes");
  };
  auto fill = [&](L& l) { for (auto& b : l.d) b = (unsigned char)r.next(); if (!l.d.empty()) std::memcpy(l.p, l.d.data(), l.d.size()); };
  auto number = [&](L& l) {
    // the elements in Fortran's order, the first index fastest
    int start = int(r.range(1, 30000));
    ARR[l.ty][l.rank - 1].fill(l.p, l.dim, start);
    size_t n = l.d.size() / ELEM[l.ty];
    int k = start;
    for (size_t i = 0; i < n; ++i) {
      unsigned char* e = l.d.data() + i * ELEM[l.ty];
      if (l.ty == 0) { int x = k; std::memcpy(e, &x, sizeof x); }
      else if (l.ty == 1) { long x = k; std::memcpy(e, &x, sizeof x); }
      else if (l.ty == 2) { float x = float(k); std::memcpy(e, &x, sizeof x); }
      else { double x = k; std::memcpy(e, &x, sizeof x); }
      k = k % 30000 + 1;
    }
    same(l, "an array numbered by Fortran");
  };
  auto one = [&]() {
    U k = r.below(40);
    if (k < 6 || v.empty()) {
      int a = int(r.below(as.size()));
      size_t n = as[a].fixed ? as[a].fixed : r.chance(1, 15) ? 0 : r.range(1, 900);
      void* p = vf_allocate(as[a].s, n);
      VH_CHECK(p != nullptr, "fort:alloc", as[a].kind << ": allocate returned null");
      L l{static_cast<unsigned char*>(p), std::vector<unsigned char>(n), a};
      known(l, "allocation");
      fill(l);
      v.push_back(l);
      add(a, n);
      vh::step("alloc", n, U(a));
    } else if (k < 14) {
      int a = int(r.below(as.size()));
      L l{nullptr, {}, a};
      l.ty = int(r.below(4));
      l.rank = int(r.range(1, 4));
      size_t n = ELEM[l.ty];
      for (int i = 0; i < 4; ++i) l.dim[i] = 1;
      for (int i = 0; i < l.rank; ++i) { l.dim[i] = int(r.range(1, l.rank == 1 ? 200 : l.rank == 2 ? 20 : 7)); n *= size_t(l.dim[i]); }
      if (as[a].fixed) {
        if (as[a].fixed % ELEM[l.ty]) return;
        n = as[a].fixed;
        for (int i = 0; i < 4; ++i) l.dim[i] = 1;
        l.dim[r.below(U(l.rank))] = int(n / ELEM[l.ty]);
      }
      void* p = nullptr;
      int e[4] = {0, 0, 0, 0}, lb[4] = {0, 0, 0, 0};
      const int how = ARR[l.ty][l.rank - 1].make(as[a].s, l.dim, &p, e, lb);
      VH_CHECK(how == 0 && p != nullptr, "fort:array", TYPE[l.ty] << " rank " << l.rank << ": the array is not associated or not contiguous");
      for (int i = 0; i < l.rank; ++i) VH_CHECK(e[i] == l.dim[i] && lb[i] == 1, "fort:array", TYPE[l.ty] << " rank " << l.rank << ": extent " << i + 1 << " is " << e[i] << " from " << lb[i] << ", asked for " << l.dim[i]);
      l.p = static_cast<unsigned char*>(p);
      l.d.resize(n);
      VH_CHECK(rm.hasAllocator(p) && rm.getSize(p) == n, "fort:array", TYPE[l.ty] << " rank " << l.rank << " of " << n << " bytes is known with " << (rm.hasAllocator(p) ? rm.getSize(p) : 0));
      known(l, "array");
      VH_CHECK(U(p) % ELEM[l.ty] == 0, "fort:array", TYPE[l.ty] << ": misaligned array");
      fill(l);
      number(l);
      v.push_back(l);
      add(a, n);
      vh::count("arrays");
      vh::step(TYPE[l.ty], U(l.rank), n);
    } else if (k < 20) {
      size_t x = r.below(v.size());
      if (v[x].ext) return;
      L l = v[x];
      v.erase(v.begin() + long(x));
      same(l, "deallocate");
      if (l.ty >= 0) {
        VH_CHECK(ARR[l.ty][l.rank - 1].drop(as[l.a].s, l.p, l.dim) == 0, "fort:array", TYPE[l.ty] << " rank " << l.rank << ": a deallocated array is still associated");
      } else if (r.chance(1, 3)) vf_rm_deallocate(l.p);
      else vf_deallocate(as[l.a].s, l.p);
      del(l.a, l.d.size());
      VH_CHECK(l.d.empty() || !rm.hasAllocator(l.p), "fort:free", "a deallocated pointer is still known");
      vh::step("free", l.d.size(), U(l.a));
    } else if (k < 23) {
      L &d = v[r.below(v.size())], &s = v[r.below(v.size())];
      if (&d == &s || d.d.empty() || s.d.empty()) return;
      size_t so = r.chance(1, 2) ? 0 : r.below(s.d.size()), dof = r.chance(1, 2) ? 0 : r.below(d.d.size());
      size_t rs = s.d.size() - so, rd = d.d.size() - dof, n;
      if (rs <= rd && r.chance(1, 2)) { vf_copy(d.p + dof, s.p + so); n = rs; }
      else { n = r.range(1, std::min(rs, rd)); vf_copy_n(d.p + dof, s.p + so, n); }
      std::copy_n(s.d.begin() + long(so), n, d.d.begin() + long(dof));
      same(d, "copy (destination)");
      same(s, "copy (source)");
      vh::step("copy", n, so);
    } else if (k < 25) {
      L& l = v[r.below(v.size())];
      if (l.d.empty()) return;
      size_t off = r.below(l.d.size()), n = l.d.size() - off;
      int val = int(r.below(256));
      if (r.chance(1, 2)) vf_memset(l.p + off, val);
      else { n = r.range(1, n); vf_memset_n(l.p + off, val, n); }
      std::fill_n(l.d.begin() + long(off), n, (unsigned char)val);
      same(l, "memset");
      vh::step("memset", n, off);
    } else if (k < 27) {
      L& l = v[r.below(v.size())];
      if (l.ext || l.ty >= 0) return;
      size_t n = as[l.a].fixed ? as[l.a].fixed : r.chance(1, 8) ? 0 : r.range(1, 1200), old = l.d.size();
      bool with = r.chance(1, 2);
      const size_t w0 = as[l.a].x.getHighWatermark();
      void* p = with ? vf_realloc_with(l.p, n, as[l.a].s) : vf_realloc(l.p, n);
      VH_CHECK(p != nullptr, "fort:realloc", "reallocate returned null");
      del(l.a, old);
      add(l.a, n);
      // both blocks may have been live for a moment
      const size_t w1 = as[l.a].x.getHighWatermark();
      if (as[l.a].kind != "host" && !as[l.a].parent) VH_CHECK(w1 >= as[l.a].high && w1 <= std::max(w0, as[l.a].cur + old), "fort:stats", "high watermark " << w1 << " after a reallocation from " << old << " to " << n);
      as[l.a].high = w1;
      l.p = static_cast<unsigned char*>(p);
      l.d.resize(n);
      known(l, "reallocation");
      l.d.resize(std::min(old, n));
      same(l, "reallocate");
      l.d.resize(n);
      fill(l);
      vh::step("realloc", n, U(with));
    } else if (k == 27) {
      bool fresh = r.chance(1, 2);
      int a = fresh ? int(r.below(as.size())) : 0;
      size_t n = as[a].fixed ? as[a].fixed : r.range(1, 300);
      void* p = fresh ? vf_realloc_with(nullptr, n, as[a].s) : vf_realloc(nullptr, n);
      L l{static_cast<unsigned char*>(p), std::vector<unsigned char>(n), a};
      known(l, "reallocation of null");
      fill(l);
      v.push_back(l);
      add(a, n);
      vh::step("realloc0", n, U(a));
    } else if (k < 30) {
      L& l = v[r.below(v.size())];
      int a = int(r.below(as.size()));
      if (l.ext || l.d.empty() || (as[a].fixed && as[a].fixed != l.d.size())) return;
      void* p = vf_move(l.p, as[a].s);
      VH_CHECK((a == l.a) == (p == l.p), "fort:move", "a move within one allocator changes the address, or one across does not");
      if (a != l.a) { del(l.a, l.d.size()); add(a, l.d.size()); }
      l.p = static_cast<unsigned char*>(p);
      l.a = a;
      known(l, "moved allocation");
      same(l, "move");
      vh::step("move", l.d.size(), U(a));
    } else if (k < 33) {
      L& l = v[r.below(v.size())];
      A& a = as[l.a];
      unsigned char* in = l.p + (l.d.empty() ? 0 : r.below(l.d.size()));
      VH_CHECK(vf_has(in) == 1, "fort:query", "a live pointer is not known");
      VH_CHECK(vf_rm_size(in) == l.d.size() && vf_size(a.s, in) == l.d.size(), "fort:query", "get_size " << vf_rm_size(in) << " and " << vf_size(a.s, in) << " for " << l.d.size());
      vf_for_ptr(TMP, in);
      VH_CHECK(vf_associated(TMP) == 1 && vf_dtor(TMP) == 1 && vf_id(TMP) == size_t(a.x.getId()), "fort:query", "the allocator of a pointer is wrong");
      vf_delete(TMP);
      VH_CHECK(vf_associated(TMP) == 0, "fort:handle", "a deleted handle is still associated");
      static int local;
      VH_CHECK(vf_has(&local) == 0, "fort:query", "an unknown pointer is known");
      L& m = v[r.below(v.size())];
      if (!l.d.empty() && !m.d.empty()) {
        unsigned char* mi = m.p + r.below(m.d.size());
        VH_CHECK(vf_overlaps(l.p, mi) == int(umpire::pointer_overlaps(l.p, mi)), "fort:query", "pointer_overlaps differs from C++");
        VH_CHECK(vf_contains(l.p, mi) == int(umpire::pointer_contains(l.p, mi)), "fort:query", "pointer_contains differs from C++");
      }
      std::vector<char> b(4096);
      int bn = vf_backtrace(l.p, b.data(), int(b.size()));
      std::string want = umpire::get_backtrace(l.p);
      VH_CHECK(bn == int(want.size()) && std::string(b.data(), std::min(b.size(), want.size())) == want.substr(0, b.size()), "fort:backtrace", "the backtrace differs from C++");
      vh::step("query");
    } else if (k < 35) {
      A& a = as[r.below(as.size())];
      std::vector<char> b(300);
      int n = vf_name(a.s, b.data(), int(b.size()));
      VH_CHECK(n == int(a.name.size()) && std::string(b.data(), size_t(n)) == a.name, "fort:name", "the name has " << n << " characters: '" << std::string(b.data(), std::min(size_t(n), b.size())) << "' for '" << a.name << "'");
      Raw raw(padded(a.name)), no(a.name + "?"), part(a.name.substr(0, a.name.size() - 1));
      VH_CHECK(vf_is_name(raw.b.get(), raw.n) == 1, "fort:name", "a name is not known");
      VH_CHECK(vf_is_name(no.b.get(), no.n) == 0, "fort:name", "an unused name is known");
      VH_CHECK(vf_is_name(part.b.get(), part.n) == int(rm.isAllocator(std::string(part.b.get(), size_t(part.n)))), "fort:name", "the start of a name is taken for a name");
      VH_CHECK(vf_is_id(a.x.getId()) == 1 && vf_is_id(123456789) == 0, "fort:name", "ids");
      vf_by_name(TMP, raw.b.get(), raw.n);
      vf_by_id(TMP2, a.x.getId());
      vf_own(TMP3); // set_instance must not leave the handle owning what it is set to
      vf_set_instance(TMP3, vf_addr(a.s));
      for (int t : {int(TMP), int(TMP2)}) VH_CHECK(vf_id(t) == size_t(a.x.getId()) && vf_dtor(t) == 1, "fort:name", "a lookup finds another allocator");
      VH_CHECK(vf_dtor(TMP3) == 0 && vf_eq(TMP3, a.s) == 1 && vf_ne(TMP3, a.s) == 0, "fort:handle", "a handle set to another's instance differs from it or owns it");
      VH_CHECK(vf_eq(TMP, TMP2) + vf_ne(TMP, TMP2) == 1, "fort:handle", "two handles are both equal and different");
      A& o = as[r.below(as.size())];
      VH_CHECK(vf_eq(a.s, o.s) == int(&a == &o) && vf_ne(a.s, o.s) == int(&a != &o), "fort:handle", "comparing handles");
      vf_delete(TMP);
      vf_delete(TMP2);
      vf_clear(TMP3);
      vh::step("names");
    } else if (k < 37) {
      A& a = as[r.below(as.size())];
      if (!alias.empty() && r.chance(1, 2)) {
        auto e = alias.back();
        alias.pop_back();
        Raw raw(padded(e.first));
        vf_remove_alias(as[size_t(e.second)].s, raw.b.get(), raw.n);
        VH_CHECK(!rm.isAllocator(e.first), "fort:alias", "a removed alias is still known");
      } else {
        std::string n = a.name + "_alias" + std::to_string(r.next());
        Raw raw(padded(n));
        vf_add_alias(a.s, raw.b.get(), raw.n);
        VH_CHECK(rm.isAllocator(n) && rm.getAllocator(n).getId() == a.x.getId(), "fort:alias", "an alias leads elsewhere");
        alias.emplace_back(n, int(&a - &as[0]));
      }
      vh::step("alias");
    } else if (k == 37) {
      size_t x = r.below(v.size());
      if (v[x].ext) {
        vf_deregister(v[x].p);
        VH_CHECK(!rm.hasAllocator(v[x].p), "fort:external", "a deregistered pointer is still known");
        v.erase(v.begin() + long(x));
      } else {
        size_t n = r.range(1, 300);
        ext.emplace_back(new unsigned char[n]);
        int a = int(r.below(as.size()));
        L l{ext.back().get(), std::vector<unsigned char>(n), a, true};
        vf_register(l.p, n, as[a].s);
        fill(l);
        known(l, "registered memory");
        v.push_back(l);
      }
      vh::step("external");
    } else {
      A& a = as[r.below(as.size())];
      size_t before = a.x.getActualSize();
      vf_release(a.s);
      if (a.count == 0 && !a.parent && (a.kind == "quick" || a.kind == "list")) VH_CHECK(a.x.getActualSize() == 0, "fort:release", a.kind << " holds " << a.x.getActualSize() << " of " << before << " bytes after release");
      vh::step("release");
    }
  };
  for (size_t i = r.range(30, 150); i; --i) {
    one();
    for (auto& a : as) stats(a);
    if (r.chance(1, 40) && as.size() < 7) make();
  }
  VH_CHECK(vf_version(0) == umpire::get_major_version() && vf_version(1) == umpire::get_minor_version() && vf_version(2) == umpire::get_patch_version(), "fort:version", "versions differ");
  const size_t slack = size_t(8) << 20;
  size_t u = umpire::get_process_memory_usage(), fu = vf_usage(), h = umpire::get_process_memory_usage_hwm(), fh = vf_usage_hwm();
  VH_CHECK(fu + slack > u && u + slack > fu && fh + slack > h && h + slack > fh, "fort:memory", "memory use " << fu << " and " << fh << ", C++ says " << u << " and " << h);
  VH_CHECK(vf_device_usage(0) == umpire::get_device_memory_usage(0), "fort:memory", "device memory use");
  for (auto& l : v) {
    same(l, "end");
    if (l.ext) vf_deregister(l.p);
    else { vf_deallocate(as[l.a].s, l.p); del(l.a, l.d.size()); }
  }
  for (auto& a : as) stats(a);
  std::string shape;
  for (auto& a : as) { shape += a.kind + " "; vf_delete(a.s); VH_CHECK(vf_associated(a.s) == 0, "fort:handle", "a deleted handle is still associated"); }
  vh::sig(shape);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "fort", one_case); }
