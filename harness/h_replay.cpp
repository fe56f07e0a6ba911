// Replay: a session is recorded, replayed by the real tool while recording again, and the two logs
// are compared operation by operation; replaydiff is asked about equal and unequal pairs.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <algorithm>
#include <fstream>
#include <iterator>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/json/json.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/wrap_allocator.hpp"
#include "vh.hpp"

int replay_main(int, char**);
int replaydiff_main(int, char**);

using U = std::uint64_t;
using std::size_t;
using nlohmann::json;
namespace st = umpire::strategy;
namespace util = umpire::util;

// ---------------------------------------------------------------- the recorded session
struct Sess {
  umpire::ResourceManager& rm = umpire::ResourceManager::getInstance();
  struct A { umpire::Allocator a; std::string name; int type; bool tracked; size_t max; bool base; };
  struct P { void* p; size_t n; size_t ai; };
  std::vector<A> al;
  std::vector<P> live;
  std::ofstream log;
  vh::Rng r;
  bool plain, def_ok{true};
  explicit Sess(U seed, bool plain_, const std::string& out) : log(out), r(seed), plain(plain_) {}

  std::string name()
  {
    static int n = 0;
    static const char* odd[] = {"pool ", "a\"b", "\xc3\xa9t\xc3\xa9", "x\\y", "it's", "{0}", "%s", "tab\t"};
    std::string s = "v" + std::to_string(n++);
    if (!plain && r.chance(1, 3)) s += odd[r.below(8)];
    if (!plain && r.chance(1, 12)) s += std::string(r.range(100, 480), 'L');
    if (r.chance(1, 4)) s += "_base";
    return s;
  }
  size_t size() { static const size_t s[] = {1, 7, 8, 16, 24, 64, 100, 256, 512, 1000, 1024, 4096, 5000, 40000}; return s[r.below(14)]; }

  size_t fits(size_t i, size_t n) { return al[i].type == 3 && n ? al[i].max : n; }
  size_t max_{~size_t(0)};
  template <typename S, typename... X>
  void mk(int type, const std::string& n, bool tr, X... x)
  {
    auto a = tr ? rm.makeAllocator<S, true>(n, x...) : rm.makeAllocator<S, false>(n, x...);
    A x_{a, n, type, tr, max_, false};
    al.push_back(x_);
    log << "make " << n << "\n";
  }
  void make()
  {
    auto n = name();
    bool tr = !r.chance(1, 5);
    size_t bi = al.size() > 1 && r.chance(1, 2) ? r.below(al.size()) : 0;
    if (al[bi].type == 3) bi = 0;  // requests above the object size break FixedPool's precondition
    umpire::Allocator b = al[bi].a;
    al[bi].base = true;
    max_ = ~size_t(0);
    size_t i0 = 1024 << r.below(4), i1 = 512 << r.below(4), ali = 16u << r.below(3);
    try {
      switch (r.below(12)) {
        case 0: mk<st::QuickPool>(1, n, tr, b); break;
        case 1: mk<st::QuickPool>(1, n, tr, b, i0); break;
        case 2: mk<st::QuickPool>(1, n, tr, b, i0, i1); break;
        case 3: mk<st::QuickPool>(1, n, tr, b, i0, i1, ali); break;
        case 4: {
          U k = r.below(4);
          if (k == 0) mk<st::DynamicPoolList>(2, n, tr, b);
          else if (k == 1) mk<st::DynamicPoolList>(2, n, tr, b, i0);
          else if (k == 2) mk<st::DynamicPoolList>(2, n, tr, b, i0, i1);
          else mk<st::DynamicPoolList>(2, n, tr, b, i0, i1, ali);
          break;
        }
        case 5: {
          size_t o = 8 * r.range(1, 64), per = 64 * r.range(1, 3);
          max_ = o;
          if (r.chance(1, 2)) mk<st::FixedPool>(3, n, tr, b, o);
          else mk<st::FixedPool>(3, n, tr, b, o, per);
          break;
        }
        case 6: {
          size_t s0 = 64, s1 = 1024, s2 = 65536, mul = 4;
          U k = r.below(8);
          if (k == 0) mk<st::MixedPool>(4, n, tr, b);
          else if (k == 1) mk<st::MixedPool>(4, n, tr, b, s0);
          else if (k == 2) mk<st::MixedPool>(4, n, tr, b, s0, s1);
          else if (k == 3) mk<st::MixedPool>(4, n, tr, b, s0, s1, s2);
          else if (k == 4) mk<st::MixedPool>(4, n, tr, b, s0, s1, s2, mul);
          else if (k == 5) mk<st::MixedPool>(4, n, tr, b, s0, s1, s2, mul, i0);
          else if (k == 6) mk<st::MixedPool>(4, n, tr, b, s0, s1, s2, mul, i0, i1);
          else mk<st::MixedPool>(4, n, tr, b, s0, s1, s2, mul, i0, i1, ali);
          break;
        }
        case 7: mk<st::MonotonicAllocationStrategy>(5, n, tr, b, size_t(20000 + r.below(90000))); break;
        case 8: mk<st::SlotPool>(6, n, tr, b, size_t(r.range(1, 12))); break;
        case 9: mk<st::SizeLimiter>(7, n, tr, b, size_t(2000 + r.below(60000))); break;
        case 10: mk<st::ThreadSafeAllocator>(8, n, tr, b); break;
        default: mk<st::NamedAllocationStrategy>(9, n, tr, b); break;
      }
    } catch (...) { log << "make refused\n"; }
  }
  void alloc()
  {
    size_t i = r.below(al.size()), n = r.chance(1, 12) ? 0 : size();
    if (r.chance(1, 25)) n = size_t(1) << 60;
    n = fits(i, n);
    try {
      void* p;
      if (r.chance(1, 6)) p = al[i].a.allocate("name " + std::to_string(r.below(9)), n);
      else p = al[i].a.allocate(n);
      if (n) std::memset(p, 0x5a, n);
      live.push_back({p, n, i});
      log << "allocate " << al[i].name << " " << n << "\n";
    } catch (...) { log << "allocate refused\n"; }
  }
  void drop(size_t k) { live[k] = live.back(); live.pop_back(); }
  void dealloc()
  {
    if (live.empty()) return;
    size_t k = r.below(live.size());
    auto& L = live[k];
    try {
      if (al[L.ai].tracked && r.chance(1, 3)) rm.deallocate(L.p);
      else al[L.ai].a.deallocate(L.p);
    } catch (...) { log << "deallocate refused\n"; return; }
    log << "deallocate " << al[L.ai].name << " " << L.n << "\n";
    drop(k);
  }
  void realloc()
  {
    size_t n = r.chance(1, 8) ? 0 : size();
    U how = r.below(6);
    if (live.empty() || how == 0) {
      size_t i = r.below(al.size());
      try {
        bool def = r.chance(1, 2) && def_ok;
        if (!def) n = fits(i, n);
        void* p = def ? rm.reallocate(nullptr, n) : rm.reallocate(nullptr, n, al[i].a);
        if (def) {
          auto nm = rm.getDefaultAllocator().getName();
          for (i = 0; i < al.size() && al[i].name != nm;) ++i;
        }
        live.push_back({p, n, i});
        log << "reallocate (new) " << al[i].name << " " << n << "\n";
      } catch (...) { log << "reallocate refused\n"; }
      return;
    }
    size_t k = r.below(live.size());
    auto L = live[k];
    if (!al[L.ai].tracked) return;
    n = fits(L.ai, n);
    if (how == 1 && al[L.ai].type == 3) return;
    try {
      void* p;
      if (how == 1) p = rm.reallocate(L.p, size_t(1) << 60);  // refused
      else if (how == 2 && L.n > 1) p = rm.reallocate(static_cast<char*>(L.p) + 1, fits(L.ai, L.n + 8));  // refused: offset
      else if (how == 3) {  // refused unless it is the owner
        size_t i = r.below(al.size());
        if (al[i].type == 3) i = 0;
        p = rm.reallocate(L.p, n, al[i].a);
      } else p = rm.reallocate(L.p, n);
      live[k] = {p, n, L.ai};
      log << "reallocate " << al[L.ai].name << " " << n << "\n";
    } catch (...) { log << "reallocate refused\n"; }
  }
  void other()
  {
    switch (r.below(9)) {
      case 0: {
        if (live.size() < 2) return;
        auto &a = r.pick(live), &b = r.pick(live);
        if (&a == &b || !al[a.ai].tracked || !al[b.ai].tracked) return;
        try { rm.copy(a.p, b.p, std::min(a.n, b.n)); log << "copy\n"; } catch (...) { log << "copy refused\n"; }
        break;
      }
      case 1: {
        if (live.empty()) return;
        auto& a = r.pick(live);
        if (!al[a.ai].tracked) return;
        try { rm.memset(a.p, 1, a.n); log << "memset\n"; } catch (...) { log << "memset refused\n"; }
        break;
      }
      case 2: {
        if (live.empty()) return;
        size_t k = r.below(live.size()), i = r.below(al.size());
        if (!al[live[k].ai].tracked || !al[i].tracked || (al[i].type == 3 && live[k].n && live[k].n != al[i].max)) return;
        try {
          void* p = rm.move(live[k].p, al[i].a);
          live[k].p = p;
          live[k].ai = i;
          log << "move " << al[i].name << "\n";
        } catch (...) { log << "move refused\n"; }
        break;
      }
      case 3: case 4: {
        A& a = al[r.below(al.size())];
        try {
          if (a.type == 1) util::unwrap_allocator<st::QuickPool>(a.a)->coalesce();
          else if (a.type == 2) util::unwrap_allocator<st::DynamicPoolList>(a.a)->coalesce();
          else return;
          log << "coalesce " << a.name << "\n";
        } catch (...) { log << "coalesce refused\n"; }
        break;
      }
      case 5: {
        A& a = al[r.below(al.size())];
        try { a.a.release(); log << "release " << a.name << "\n"; } catch (...) { log << "release refused\n"; }
        break;
      }
      case 6: {
        A& a = al[r.below(al.size())];
        rm.setDefaultAllocator(a.a);
        def_ok = a.type != 3;
        log << "default " << a.name << "\n";
        break;
      }
      case 7: {
        static char ext[64];
        umpire::register_external_allocation(ext, {ext, 64, rm.getAllocator("HOST").getAllocationStrategy(), "ext"});
        umpire::deregister_external_allocation(ext);
        log << "external\n";
        break;
      }
      default: umpire::mark_event("mark"); log << "mark\n"; break;
    }
  }
  void run(U steps)
  {
    { A h_{rm.getAllocator("HOST"), "HOST", 0, true, ~size_t(0), true}; al.push_back(h_); }
    if (r.chance(1, 4)) { A f_{rm.getAllocator("FILE"), "FILE", 0, true, ~size_t(0), true}; al.push_back(f_); }
    for (U i = r.range(1, 5); i; --i) make();
    for (U i = 0; i < steps; ++i) {
      U k = r.below(20);
      if (k < 8) alloc();
      else if (k < 13) dealloc();
      else if (k < 16) realloc();
      else if (k < 17) make();
      else other();
    }
    if (r.chance(1, 2)) while (!live.empty()) dealloc();
  }
  void stats(const std::string& f)
  {
    std::ofstream o(f);
    json j = json::array();
    for (auto& a : al) j.push_back({{"name", a.name}, {"cur", a.a.getCurrentSize()}, {"hwm", a.a.getHighWatermark()}, {"type", a.base ? 0 : a.type}});
    o << j.dump(-1, ' ', false, json::error_handler_t::replace);
  }
};

// ---------------------------------------------------------------- reading a log
struct Op { std::string what; std::vector<std::string> a; size_t line; };
static bool operator==(const Op& x, const Op& y) { return x.what == y.what && x.a == y.a; }
static std::string show(const Op& o)
{
  std::string s = o.what;
  for (auto& x : o.a) s += " " + (x.size() > 60 ? x.substr(0, 60) + "..." : x);
  return s;
}
static std::string str(const json& j, const char* k) { return j.contains(k) ? (j[k].is_string() ? j[k].get<std::string>() : j[k].dump()) : std::string("?"); }

// The operations of a session: who was created, what was allocated, freed, resized, merged and trimmed.
static std::vector<Op> operations(const std::string& file, bool types, bool args = true)
{
  std::ifstream f(file);
  std::string l;
  std::vector<json> ev;
  while (std::getline(f, l)) ev.push_back(json::parse(l));
  std::map<std::string, std::string> ref;                 // allocator address -> name
  std::map<std::string, size_t> live;                     // allocator + pointer -> ordinal
  std::vector<Op> out;
  size_t ord = 0, skip_to = 0;
  json none = json::object();
  for (size_t i = 0; i < ev.size(); ++i) {
    const json& e = ev[i];
    if (str(e, "category") != "operation") continue;
    auto n = str(e, "name");
    const json& s = e.contains("string_args") ? e["string_args"] : none;
    const json& u = e.contains("numeric_args") ? e["numeric_args"] : none;
    const json& t = e.contains("tags") ? e["tags"] : none;
    auto R = str(s, "allocator_ref");
    if (n == "make_memory_resource") {
      ref[R] = str(t, "allocator_name");
      out.push_back({"resource", {ref[R]}, i + 1});
    } else if (n == "make_allocator") {
      ref[R] = str(t, "allocator_name");
      Op o{"create", {ref[R], str(u, "introspection")}, i + 1};
      if (types) o.a.push_back(str(s, "type"));
      o.a.push_back(str(s, "arg0"));
      for (int k = 1; k < 8 && args; ++k) {
        auto a = "arg" + std::to_string(k);
        if (u.contains(a)) o.a.push_back(a + "=" + str(u, a.c_str()));
      }
      out.push_back(o);
    } else if (n == "allocate" || n == "named_allocate") {
      if (i < skip_to) continue;
      live[R + str(s, "pointer")] = ++ord;
      out.push_back({"allocate", {ref[R], str(u, "size"), "#" + std::to_string(ord)}, i + 1});
    } else if (n == "deallocate") {
      if (i < skip_to) continue;
      auto k = R + str(s, "pointer");
      out.push_back({"deallocate", {ref[R], "#" + std::to_string(live[k])}, i + 1});
      live.erase(k);
    } else if (n == "reallocate" && !s.contains("new_ptr")) {
      size_t j = i + 1;
      while (j < ev.size() && str(ev[j], "name") != "reallocate") ++j;
      if (j == ev.size() || !ev[j]["string_args"].contains("new_ptr")) continue;  // it was refused
      auto k = R + str(s, "current_ptr");
      size_t old = live.count(k) ? live[k] : 0;
      live.erase(k);
      live[R + str(ev[j]["string_args"], "new_ptr")] = ++ord;
      out.push_back({"reallocate", {ref[R], str(u, "size"), "#" + std::to_string(old), "#" + std::to_string(ord)}, i + 1});
      skip_to = j;
    } else if (n == "coalesce") out.push_back({"coalesce", {str(t, "allocator_name")}, i + 1});
    else if (n == "release") out.push_back({"release", {ref[R]}, i + 1});
    else if (n == "set_default_allocator") out.push_back({"default", {ref[R]}, i + 1});
  }
  return out;
}

// ---------------------------------------------------------------- running the parts
static std::string slurp(const std::string& f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); }
static std::string g_dir;

static int child(const std::vector<std::string>& args, const std::string& basename, std::string& out, std::string& err)
{
  std::string fo = g_dir + "/out", fe = g_dir + "/err";
  pid_t p = ::fork();
  if (!p) {
    int o = ::open(fo.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), e = ::open(fe.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    ::dup2(o, 1);
    ::dup2(e, 2);
    if (::chdir(g_dir.c_str())) ::_exit(99);
    if (!basename.empty()) {
      ::setenv("UMPIRE_REPLAY", "On", 1);
      ::setenv("UMPIRE_OUTPUT_DIR", g_dir.c_str(), 1);
      ::setenv("UMPIRE_OUTPUT_BASENAME", basename.c_str(), 1);
    }
    ::alarm(45);
    std::vector<char*> v;
    v.push_back(const_cast<char*>("h_replay"));
    for (auto& a : args) v.push_back(const_cast<char*>(a.c_str()));
    v.push_back(nullptr);
    ::execv("/proc/self/exe", v.data());
    ::_exit(98);
  }
  int s = 0;
  while (::waitpid(p, &s, 0) < 0 && errno == EINTR) {}
  out = slurp(fo);
  err = slurp(fe);
  return WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + WTERMSIG(s);
}
static std::string log_of(const std::string& base)
{
  std::string best;
  if (DIR* d = ::opendir(g_dir.c_str())) {
    while (auto* e = ::readdir(d)) {
      std::string n = e->d_name;
      if (n.compare(0, base.size() + 1, base + ".") == 0 && n.size() > 6 && n.compare(n.size() - 4, 4, ".bin") != 0 && n.compare(n.size() - 4, 4, ".log") != 0 && n.compare(n.size() - 6, 6, ".error") != 0) best = n;
    }
    ::closedir(d);
  }
  return best.empty() ? best : g_dir + "/" + best;
}
static void wipe()
{
  if (DIR* d = ::opendir(g_dir.c_str())) {
    while (auto* e = ::readdir(d)) if (e->d_name[0] != '.') ::unlink((g_dir + "/" + e->d_name).c_str());
    ::closedir(d);
  }
}
static std::string tail(const std::string& s) { return s.size() > 1500 ? s.substr(s.size() - 1500) : s; }
static void died(int rc, const std::string& err, const char* who)
{
  if (rc == 77 || rc >= 1000 || err.find("ERROR: AddressSanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos || err.find("terminate called") != std::string::npos) {
    std::fprintf(stderr, "%s\n", err.c_str());
    auto at = err.find("AddressSanitizer");
    if (at == std::string::npos) at = err.size();
    vh::fail("replay:died", std::string(who) + " died (" + std::to_string(rc) + "): " + tail(err.substr(0, at)) + err.substr(at, 900));
  }
}

static void same(const std::vector<Op>& a, const std::vector<Op>& b, const char* what)
{
  vh::evals(a.size());
  for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
    if (i >= a.size()) vh::fail("replay:extra", std::string(what) + ": the replay did more than the session: " + show(b[i]));
    if (i >= b.size()) vh::fail("replay:lost", std::string(what) + ": not replayed: " + show(a[i]) + " (line " + std::to_string(a[i].line) + ")");
    if (!(a[i] == b[i])) vh::fail("replay:differs", std::string(what) + ": the session did '" + show(a[i]) + "' (line " + std::to_string(a[i].line) + "), its replay '" + show(b[i]) + "'");
  }
}

static void one(vh::Rng& r, U)
{
  wipe();
  std::string out, err;
  U seed = r.next();
  bool plain = r.chance(1, 2);
  U steps = r.range(5, vh::quick() ? 120 : 400);
  int rc = child({"--record", std::to_string(seed), std::to_string(steps), plain ? "1" : "0"}, "rec", out, err);
  died(rc, err, "the recorded session");
  VH_CHECK(rc == 0, "replay:record", "the recorded session ended with " << rc << " " << tail(err));
  auto rec = log_of("rec");
  VH_CHECK(!rec.empty(), "replay:record", "no log was written");
  for (auto& l : vh::split(slurp(g_dir + "/session"), '\n')) (void)l;
  {
    std::ifstream f(g_dir + "/session");
    std::string l;
    while (std::getline(f, l)) vh::tr("%s", l.substr(0, 120).c_str());
  }
  auto ops = operations(rec, true);
  for (auto& o : ops) { vh::count(("op_" + o.what).c_str()); vh::step(o.what.c_str(), o.a.size() > 1 ? vh::hash_str(o.a[1]) : 0); }
  vh::sig("operations " + std::to_string(ops.size() / 10));

  auto replay = [&](std::vector<std::string> extra, const char* base, const char* what, bool types) {
    std::vector<std::string> a{"--replay", "-i", rec};
    a.insert(a.end(), extra.begin(), extra.end());
    int c = child(a, base, out, err);
    died(c, err, what);
    VH_CHECK(c == 0, "replay:refused", what << " of a recorded session ended with " << c << ": " << tail(out) << tail(err));
    auto l = log_of(base);
    VH_CHECK(!l.empty(), "replay:record", "no log of the replay");
    same(types ? ops : operations(rec, false), operations(l, types), what);
    vh::count("replays");
    return l;
  };
  bool stats = r.chance(1, 2);
  std::vector<std::string> opt;
  if (stats) opt.push_back("-s");
  if (r.chance(1, 3)) opt.push_back("-d");
  if (r.chance(1, 3)) opt.push_back("-q");
  if (r.chance(1, 4)) opt.push_back("-t");
  auto rep = replay(opt, "rep", "the replay", true);
  if (std::find(opt.begin(), opt.end(), "-q") == opt.end()) {
    // the summary of what the log holds
    std::map<std::string, U> ev;
    std::ifstream f(rec);
    std::string l;
    while (std::getline(f, l)) ev[str(json::parse(l), "name")]++;
    static const char* rows[][2] = {{" makeMemoryResource operations", "make_memory_resource"}, {" makeAllocator operations", "make_allocator"}, {" external registrations", "register_external_allocation"}, {" copy operations", "copy"}, {" move operations", "move"}, {" memset operations", "memset"}, {" setDefaultAllocator operations", "set_default_allocator"}, {" coalesce operations", "coalesce"}, {" release operations", "release"}};
    for (auto& w : rows) {
      auto p = out.find(w[0]);
      if (p == std::string::npos) continue;
      auto b = out.rfind('\n', p);
      U n = std::strtoull(out.c_str() + (b == std::string::npos ? 0 : b + 1), nullptr, 10);
      VH_CHECK(n == ev[w[1]], "replay:summary", "the summary says" << w[0] << " " << n << ", the log has " << ev[w[1]]);
      vh::count("summary_rows");
    }
  }
  if (stats && plain) {
    // the histogram of an allocator counts its allocations, and no bucket more than there were
    std::map<std::string, U> got_n, want_n;
    std::map<std::string, U> all;
    for (auto& o : ops) {
      if (o.what == "allocate") want_n[o.a[0]]++;
      if (o.what == "allocate" || o.what == "reallocate") all[o.a[0]]++;
    }
    std::istringstream hs(out);
    std::string l, cur;
    while (std::getline(hs, l)) {
      if (l.size() > 1 && l.back() == ':' && l[0] != ' ') cur = l.substr(0, l.size() - 1);
      auto v = [&](const char* k) { auto p = l.find(k); return p == std::string::npos ? std::string() : l.substr(p + std::strlen(k)); };
      auto t = v("Total Allocations:");
      if (!t.empty()) {
        U n = std::strtoull(t.c_str(), nullptr, 10);
        got_n[cur] = n;
        VH_CHECK(n >= want_n[cur] && n <= all[cur], "replay:histogram", "the statistics count " << n << " allocations of " << cur << ", the session had " << want_n[cur] << " and " << all[cur] - want_n[cur] << " reallocations");
      }
      t = v(") = ");
      if (!t.empty() && l.find("[2^") != std::string::npos) {
        U n = std::strtoull(t.c_str(), nullptr, 10);
        VH_CHECK(n <= all[cur], "replay:histogram", "the statistics show " << n << " allocations of one size at a time for " << cur << ", the session had " << all[cur] << " in all");
        vh::count("histogram_buckets");
      }
    }
  }
  if (stats && plain) {
    // the table of sizes the tool prints is the session's
    std::map<std::string, std::pair<U, U>> got;
    std::istringstream is(out);
    std::string l;
    while (std::getline(is, l)) {
      if (l.compare(0, rec.size(), rec) != 0) continue;
      std::istringstream ls(l.substr(rec.size()));
      std::string n;
      U c, a, h;
      if (ls >> n >> c >> a >> h) got[n] = {c, h};
    }
    auto j = json::parse(slurp(g_dir + "/stats"));
    for (auto& e : j) {
      auto n = e["name"].get<std::string>();
      if (e["type"] == 0 || e["hwm"] == 0) continue;
      VH_CHECK(got.count(n), "replay:stats", "allocator " << n << " is missing from the statistics");
      if (!got.count(n)) continue;
      VH_CHECK(got[n].first == e["cur"].get<U>() && got[n].second == e["hwm"].get<U>(), "replay:stats", "allocator " << n << ": the replay reports " << got[n].first << " bytes in use and a high watermark of " << got[n].second << ", the session had " << e["cur"] << " and " << e["hwm"]);
      vh::count("stats_compared");
    }
  }
  if (plain && std::find(opt.begin(), opt.end(), "-d") != opt.end()) {
    // the trace of sizes ends where the session ended
    std::string ult;
    if (DIR* d = ::opendir(g_dir.c_str())) {
      while (auto* e = ::readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > 4 && n.compare(n.size() - 4, 4, ".ult") == 0) ult = g_dir + "/" + n;
      }
      ::closedir(d);
    }
    VH_CHECK(!ult.empty(), "replay:dump", "no memory usage trace was written");
    std::ifstream f(ult);
    std::string l, cur;
    std::map<std::string, U> last;
    while (std::getline(f, l)) {
      if (l[0] == '#') cur = l.substr(2);
      else last[cur] = std::strtoull(l.c_str() + l.find(' '), nullptr, 10);
    }
    std::map<std::string, long> alive;
    std::map<std::string, std::string> owner;
    for (auto& o : ops) {
      if (o.what == "allocate") alive[o.a[0]]++;
      if (o.what == "deallocate" && o.a[1] != "#0") alive[o.a[0]]--;
      if (o.what == "reallocate" && o.a[2] == "#0") alive[o.a[0]]++;
    }
    for (auto& e : json::parse(slurp(g_dir + "/stats"))) {
      auto n = e["name"].get<std::string>();
      VH_CHECK(last.count(n + " allocation count") && last[n + " allocation count"] == U(alive[n]), "replay:dump", "the trace ends with " << last[n + " allocation count"] << " allocations of " << n << ", the session with " << alive[n]);
      if (e["type"] == 0) continue;
      VH_CHECK(last[n + " current_size"] == e["cur"].get<U>() && last[n + " hwm"] == e["hwm"].get<U>(), "replay:dump", "the trace of " << n << " ends with " << last[n + " current_size"] << " bytes and a watermark of " << last[n + " hwm"] << ", the session with " << e["cur"] << " and " << e["hwm"]);
      vh::count("dumps_compared");
    }
  }
  if (r.chance(1, 2)) replay({}, "again", "the replay from the compiled file", true);
  if (r.chance(1, 3)) {
    replay({"-r", "-q"}, "recompiled", "the replay with -r", true);
    if (r.chance(1, 2)) replay({"-d", "-q"}, "after", "the replay after one with -r", true);
  }
  if (r.chance(1, 4)) replay({"-q", "-p", r.chance(1, 2) ? "Quick" : "List"}, "pool", "the replay with another pool", false);
  if (r.chance(1, 4)) {
    static const char* hs[] = {"Block", "Block_hwm", "FreePercentage", "FreePercentage_hwm"};
    std::vector<std::string> a{"--replay", "-i", rec, "-q", "--use-heuristic", hs[r.below(4)], "--heuristic-parm", std::to_string(r.range(2, 100))};
    int c = child(a, "heur", out, err);
    died(c, err, "the replay with a heuristic");
    VH_CHECK(c == 0, "replay:refused", "the replay with a heuristic ended with " << c << tail(err));
    same(operations(rec, true, false), operations(log_of("heur"), true, false), "the replay with a heuristic");
    vh::count("replays");
  }
  // replaydiff
  auto diff = [&](const std::string& a, const std::string& b) {
    int c = child({"--diff", "-q", a, b}, "", out, err);
    died(c, err, "replaydiff");
    vh::count("diffs");
    return c;
  };
  int c = diff(rec, rep);
  VH_CHECK(c == 0, "replay:diff", "replaydiff tells a session from its replay (" << c << "): " << tail(err));
  // a log with one operation changed or dropped is a different session
  std::vector<std::string> lines;
  {
    std::ifstream f(rec);
    std::string l;
    while (std::getline(f, l)) lines.push_back(l);
  }
  std::vector<const Op*> cand;
  for (auto& o : ops)
    if (o.what == "allocate" || o.what == "coalesce" || o.what == "release") cand.push_back(&o);
  if (!cand.empty()) {
    const Op& o = r.chance(1, 2) ? *cand.back() : *r.pick(cand);
    std::string l = lines[o.line - 1];
    json j = json::parse(l);
    std::string how;
    if (o.what == "allocate" && r.chance(1, 2)) {
      j["numeric_args"]["size"] = j["numeric_args"]["size"].get<U>() + 1;
      lines[o.line - 1] = j.dump();
      how = "a size changed";
    } else if (o.what != "allocate" || &o == &ops.back()) {
      lines.erase(lines.begin() + long(o.line - 1));
      how = "an operation dropped";
    }
    if (!how.empty()) {
      auto other = g_dir + "/edited";
      std::ofstream f(other);
      for (auto& x : lines) f << x << "\n";
      f.close();
      bool left = r.chance(1, 2);
      c = left ? diff(other, rep) : diff(rec, other);
      VH_CHECK(c != 0, "replay:diff", "replaydiff calls two sessions equal that differ: " << how << " in line " << o.line << " (" << show(o) << ")");
      vh::count("diffs_unequal");
    }
  }
  wipe();
}

int main(int argc, char** argv)
{
  if (argc > 1 && !std::strcmp(argv[1], "--record")) {
    Sess s(std::strtoull(argv[2], nullptr, 10), argv[4][0] == '1', "session");
    s.run(std::strtoull(argv[3], nullptr, 10));
    s.log.flush();
    s.stats("stats");
    return 0;
  }
  if (argc > 1 && !std::strcmp(argv[1], "--replay")) { argv[1] = argv[0]; return replay_main(argc - 1, argv + 1); }
  if (argc > 1 && !std::strcmp(argv[1], "--diff")) { argv[1] = argv[0]; return replaydiff_main(argc - 1, argv + 1); }
  const char* t = std::getenv("VERIF_SCRATCH");
  g_dir = std::string(t ? t : "/tmp") + "/replay." + std::to_string(::getpid());
  ::mkdir(g_dir.c_str(), 0700);
  int rc = vh::run(argc, argv, "h_replay", one);
  wipe();
  ::rmdir(g_dir.c_str());
  return rc;
}
