// Event recording: the log of a run, judged line by line against what the run did.
#include <dirent.h>
#include <sys/stat.h>

#include <chrono>
#include <memory>
#include <typeinfo>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/event/event.hpp"
#include "umpire/event/event_json.hpp"
#include "umpire/event/event_store_recorder.hpp"
#include "umpire/event/json_file_store.hpp"
#include "umpire/json/json.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

using U = std::uint64_t;
using std::size_t;
using nlohmann::json;
namespace st = umpire::strategy;
namespace ev = umpire::event;

static std::string rand_name(vh::Rng& r, bool* utf8 = nullptr)
{
  static const char* bits[] = {"a", "B7", " ", "\"", "\\", "\n", "\t", "%s", "%n", "{}", "/", "\x01", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "'", ",", ":", "pool", "\x7f"};
  std::string s;
  for (U i = r.range(0, 8); i; --i) s += bits[r.below(sizeof bits / sizeof *bits)];
  if (r.chance(1, 12)) s.append(r.range(100, r.chance(1, 4) ? 9000 : 600), char('a' + r.below(26)));
  if (utf8) {
    *utf8 = !r.chance(1, 12);
    if (!*utf8) s.insert(r.below(s.size() + 1) ? 0 : s.size(), r.chance(1, 2) ? "\xff" : "\xc3");
  }
  return s;
}

static bool to_ptr(const std::string& s, U& v)
{
  if (s == "(nil)" || s == "0" || s == "nullptr") { v = 0; return true; }
  char* e = nullptr;
  v = std::strtoull(s.c_str(), &e, 16);
  return !s.empty() && e && !*e;
}

struct Want {
  std::string name, cat;
  std::map<std::string, std::string> s, tags;
  std::map<std::string, U> n, p;
  bool inner{false};  // the operation is made of others, whose events may come first
  std::string what;
};
static std::vector<Want> wants;
static Want& want(const char* name, const char* cat = "operation")
{
  wants.emplace_back();
  wants.back().name = name;
  wants.back().cat = cat;
  return wants.back();
}
static U up(const void* p) { return reinterpret_cast<U>(p); }

static std::string differs(const Want& w, const json& j)
{
  std::ostringstream o;
  auto str = [&](const json& k, const char* f) { return k.contains(f) && k[f].is_string() ? k[f].get<std::string>() : std::string("?"); };
  if (str(j, "name") != w.name) { o << "the next record is '" << str(j, "name") << "', not '" << w.name << "'"; return o.str(); }
  if (str(j, "category") != w.cat) { o << w.name << ": category " << str(j, "category"); return o.str(); }
  json none = json::object();
  const json& sa = j.contains("string_args") ? j["string_args"] : none;
  const json& na = j.contains("numeric_args") ? j["numeric_args"] : none;
  const json& ta = j.contains("tags") ? j["tags"] : none;
  for (auto& e : w.s) if (!sa.contains(e.first) || str(sa, e.first.c_str()) != e.second) { o << w.name << ": argument " << e.first << " is '" << str(sa, e.first.c_str()) << "', the call had '" << e.second << "'"; return o.str(); }
  for (auto& e : w.tags) if (!ta.contains(e.first) || str(ta, e.first.c_str()) != e.second) { o << w.name << ": tag " << e.first << " is '" << str(ta, e.first.c_str()) << "', expected '" << e.second << "'"; return o.str(); }
  for (auto& e : w.p) {
    U v = 1;
    if (!sa.contains(e.first) || !to_ptr(str(sa, e.first.c_str()), v) || v != e.second) { o << w.name << ": pointer " << e.first << " is '" << str(sa, e.first.c_str()) << "', the call had " << std::hex << e.second; return o.str(); }
  }
  for (auto& e : w.n) {
    if (!na.contains(e.first) || !na[e.first].is_number() || na[e.first].get<U>() != e.second) { o << w.name << ": number " << e.first << " is " << (na.contains(e.first) ? na[e.first].dump() : "missing") << ", the call had " << e.second; return o.str(); }
  }
  return "";
}

static FILE* logf_ = nullptr;
static std::vector<json> new_records()
{
  std::fflush(nullptr);
  std::vector<json> v;
  std::clearerr(logf_);
  char* line = nullptr;
  size_t cap = 0;
  ssize_t k;
  const double now = double(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count());
  while ((k = ::getline(&line, &cap, logf_)) > 0) {
    VH_CHECK(line[k - 1] == '\n', "event:line", "the log ends within a record");
    json j = json::parse(std::string(line, size_t(k)), nullptr, false);
    if (j.is_discarded() || !j.is_object()) {
      std::string s(line, size_t(k - 1));
      std::free(line);
      vh::fail("event:json", "a record is not a JSON object: " + s.substr(0, 300));
      return v;
    }
    VH_CHECK(j.contains("timestamp") && j["timestamp"].is_number_integer(), "event:json", "a record has no timestamp: " << j.dump());
    const double ts = double(j["timestamp"].get<long long>());
    VH_CHECK(ts > now - 3.6e12 && ts < now + 3.6e12, "event:time", "a record's timestamp " << ts << " is not the time in nanoseconds, " << now);
    VH_CHECK(j.contains("name") && j.contains("category") && j.contains("tags"), "event:json", "a record misses a field: " << j.dump());
    v.push_back(std::move(j));
  }
  std::free(line);
  return v;
}

static void judge()
{
  static const std::set<std::string> parts{"allocate", "named_allocate", "deallocate", "copy", "memset", "reallocate"};
  auto got = new_records();
  size_t i = 0;
  for (auto& w : wants) {
    if (w.inner) {
      while (i < got.size() && !differs(w, got[i]).empty() && parts.count(got[i].value("name", "")) && (got[i].value("name", "") != w.name)) { ++i; vh::count("inner_records"); }
    }
    VH_CHECK(i < got.size(), "event:missing", w.what << ": no record '" << w.name << "' in the log");
    std::string d = differs(w, got[i]);
    VH_CHECK(d.empty(), "event:record", w.what << ": " << d << "; record " << got[i].dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 300));
    vh::count(("rec_" + w.name).c_str());
    ++i;
  }
  VH_CHECK(i == got.size(), "event:extra", "a record for nothing that was done: " << got[i].dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 300));
  vh::count("records", got.size());
  wants.clear();
}

struct Live {
  char* p;
  size_t n;
  int a;
  bool ext{false};
};

static void log_case(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  static umpire::Allocator host = rm.getAllocator("HOST");
  static bool first = true;
  if (first) {
    first = false;
    auto v = new_records();
    VH_CHECK(v.size() >= 2 && v[0]["name"] == "version", "event:version", "the log does not start with the version");
    Want w;
    w.name = "version";
    w.cat = "metadata";
    w.n = {{"major", U(umpire::get_major_version())}, {"minor", U(umpire::get_minor_version())}, {"patch", U(umpire::get_patch_version())}};
    VH_CHECK(differs(w, v[0]).empty(), "event:version", differs(w, v[0]));
    Want m;
    m.name = "make_memory_resource";
    m.cat = "operation";
    m.p["allocator_ref"] = up(host.getAllocationStrategy());
    m.tags = {{"allocator_name", "HOST"}, {"replay", "true"}};
    std::string d = differs(m, v[1]);
    VH_CHECK(d.empty(), "event:record", "getAllocator(HOST): " << d);
    rm.setDefaultAllocator(host);
    // helpers of the library may create more of their own; they are in place now
    void* z = host.allocate(0);
    host.deallocate(z);
    new_records();
  }
  wants.clear();
  std::vector<umpire::Allocator> A{host};
  std::vector<std::string> kind{"host"};
  std::vector<size_t> fixed{0};
  auto make = [&](auto tag, const char* k, bool track, umpire::Allocator par, std::vector<U> nums, auto f) {
    using S = typename decltype(tag)::type;
    bool ok8;
    std::string nm = "e" + std::to_string(::getpid()) + "_" + std::to_string(c) + "_" + std::to_string(A.size()) + rand_name(r, &ok8);
    vh::step(k, nums.empty() ? 0 : nums[0]);
    umpire::Allocator a = host;
    try { a = f(nm, track ? umpire::Tracking::Tracked : umpire::Tracking::Untracked); }
    catch (umpire::runtime_error&) { vh::count("refused"); return false; }
    catch (std::exception& e) { vh::fail("event:disturb", std::string("making an allocator failed only because it is recorded: ") + e.what()); return false; }
    Want& w = want("make_allocator");
    w.what = std::string("makeAllocator<") + k + ">";
    w.p["allocator_ref"] = up(a.getAllocationStrategy());
    w.s["type"] = typeid(S).name();
    bool par8 = true;
    try { (void)json(par.getName()).dump(); } catch (...) { par8 = false; }
    if (par8) w.s["arg0"] = par.getName();
    w.n["introspection"] = track;
    for (size_t i = 0; i < nums.size(); ++i) w.n["arg" + std::to_string(i + 1)] = nums[i];
    w.tags["replay"] = "true";
    if (ok8) w.tags["allocator_name"] = nm;
    A.push_back(a);
    kind.push_back(k);
    fixed.push_back(0);
    return true;
  };
  auto build = [&]() {
    umpire::Allocator par = A[r.below(A.size())];
    if (kind[size_t(std::find_if(A.begin(), A.end(), [&](umpire::Allocator& x) { return x.getId() == par.getId(); }) - A.begin())] == "fixed") par = host;
    bool t = !r.chance(1, 5);
    switch (r.below(8)) {
      case 0: { U x = r.range(512, 1u << 16), y = r.range(256, 4096), z = U(16) << r.below(3); make(std::common_type<st::QuickPool>{}, "quick", t, par, {x, y, z}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::QuickPool>(n, k, par, size_t(x), size_t(y), size_t(z)); }); break; }
      case 1: { U x = r.range(512, 1u << 16), y = r.range(256, 4096), z = U(16) << r.below(3); make(std::common_type<st::DynamicPoolList>{}, "list", t, par, {x, y, z}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::DynamicPoolList>(n, k, par, size_t(x), size_t(y), size_t(z)); }); break; }
      case 2: { U x = r.range(1, 12) * 8, y = r.range(64, 640); if (make(std::common_type<st::FixedPool>{}, "fixed", t, par, {x, y}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::FixedPool>(n, k, par, size_t(x), size_t(y)); })) fixed.back() = x; break; }
      case 3: { U x = r.range(1000, 100000); make(std::common_type<st::SizeLimiter>{}, "limit", t, par, {x}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::SizeLimiter>(n, k, par, size_t(x)); }); break; }
      case 4: { U x = U(16) << r.below(4); make(std::common_type<st::AlignedAllocator>{}, "aligned", t, host, {x}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::AlignedAllocator>(n, k, host, size_t(x)); }); break; }
      case 5: make(std::common_type<st::ThreadSafeAllocator>{}, "ts", t, par, {}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::ThreadSafeAllocator>(n, k, par); }); break;
      case 6: make(std::common_type<st::NamedAllocationStrategy>{}, "named", t, par, {}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::NamedAllocationStrategy>(n, k, par); }); break;
      default: make(std::common_type<st::MixedPool>{}, "mixed", t, host, {}, [&](const std::string& n, umpire::Tracking k) { return rm.makeAllocator<st::MixedPool>(n, k, host); }); break;
    }
  };
  for (U i = r.range(1, 4); i; --i) build();
  std::vector<Live> L;
  std::vector<std::unique_ptr<char[]>> ext;
  auto tagname = [&](Want& w, const char* t, umpire::Allocator a) {
    try { (void)json(a.getName()).dump(); w.tags[t] = a.getName(); } catch (...) {}
  };
  auto ref = [&](int a) { return up(A[a].getAllocationStrategy()); };
  auto tracked = [&](int a) { return A[a].isTracked(); };
  const size_t ops = r.range(20, 120);
  auto one = [&]() {
    U k = r.below(30);
    if (k < 8 || L.empty()) {
      int a = int(r.below(A.size()));
      size_t n = fixed[a] ? fixed[a] : (r.chance(1, 12) ? 0 : r.chance(1, 10) ? r.range(1, 200000) : r.range(1, 600));
      if (!n && !tracked(a)) n = 8;
      bool named = r.chance(1, 4), ok8 = true;
      std::string nm = named ? rand_name(r, &ok8) : "";
      void* p = nullptr;
      try {
        p = named ? A[a].allocate(nm, n) : A[a].allocate(n);
      } catch (umpire::runtime_error&) { vh::count("refused"); vh::step("refused", n); return; }
      catch (std::exception& e) { vh::fail("event:disturb", std::string("an allocation failed only because it is recorded: ") + e.what()); return; }
      Want& w = want(named ? "named_allocate" : "allocate");
      w.what = "allocate(" + std::to_string(n) + ") on " + kind[a];
      w.n["size"] = n;
      w.p["allocator_ref"] = ref(a);
      w.p["pointer"] = up(p);
      w.tags["replay"] = "true";
      if (named && ok8) w.s["allocation_name"] = nm;
      L.push_back({static_cast<char*>(p), n, a});
      vh::step(named ? "named" : "alloc", n, U(a));
    } else if (k < 14) {
      size_t x = r.below(L.size());
      Live l = L[x];
      if (l.ext) return;
      L[x] = L.back();
      L.pop_back();
      if (tracked(l.a) && r.chance(1, 3)) rm.deallocate(l.p); else A[l.a].deallocate(l.p);
      Want& w = want("deallocate");
      w.what = "deallocate on " + kind[l.a];
      w.p["allocator_ref"] = ref(l.a);
      w.p["pointer"] = up(l.p);
      w.tags["replay"] = "true";
      vh::step("free", l.n, U(l.a));
    } else if (k < 18) {
      size_t x = r.below(L.size()), y = r.below(L.size());
      if (x == y || !L[x].n || !L[y].n || !tracked(L[x].a) || !tracked(L[y].a)) return;
      size_t so = r.chance(1, 2) ? 0 : r.below(L[x].n), dof = r.chance(1, 2) ? 0 : r.below(L[y].n);
      size_t room = std::min(L[x].n - so, L[y].n - dof);
      bool whole = L[x].n - so <= L[y].n - dof && r.chance(1, 4);
      size_t n = whole ? 0 : r.range(1, room);
      bool as = r.chance(1, 3);
      if (as) {
        camp::resources::Resource ctx{camp::resources::Host{}};
        rm.copy(L[y].p + dof, L[x].p + so, ctx, n);
      } else rm.copy(L[y].p + dof, L[x].p + so, n);
      Want& w = want("copy");
      w.what = "copy of " + std::to_string(n);
      w.p = {{"src", up(L[x].p + so)}, {"dst", up(L[y].p + dof)}, {"src_allocator_ref", ref(L[x].a)}, {"dst_allocator_ref", ref(L[y].a)}};
      w.n = {{"src_offset", so}, {"dst_offset", dof}, {"size", whole ? L[x].n - so : n}};
      tagname(w, "src_allocator_name", A[L[x].a]);
      tagname(w, "dst_allocator_name", A[L[y].a]);
      w.tags["replay"] = "true";
      if (as) w.tags["async"] = "true";
      vh::step("copy", n, so);
    } else if (k < 20) {
      Live& l = L[r.below(L.size())];
      if (!l.n || !tracked(l.a)) return;
      size_t off = r.below(l.n), len = r.chance(1, 3) ? 0 : r.range(1, l.n - off);
      int val = int(r.below(256));
      bool as = r.chance(1, 3);
      if (as) {
        camp::resources::Resource ctx{camp::resources::Host{}};
        rm.memset(l.p + off, val, ctx, len);
      } else rm.memset(l.p + off, val, len);
      Want& w = want("memset");
      w.what = "memset";
      w.p = {{"ptr", up(l.p + off)}, {"allocator_ref", ref(l.a)}};
      w.n = {{"value", U(val)}};
      tagname(w, "allocator_name", A[l.a]);
      w.tags["replay"] = "true";
      if (as) w.tags["async"] = "true";
      vh::step("memset", len, off);
    } else if (k < 23) {
      bool fresh = r.chance(1, 6);
      size_t x = r.below(L.size());
      if (!fresh && (L[x].ext || !tracked(L[x].a))) return;
      int a = fresh ? 0 : L[x].a;
      size_t n = fixed[a] ? fixed[a] : r.chance(1, 8) ? 0 : r.range(1, 900);
      bool give = r.chance(1, 3), as = r.chance(1, 3);
      void* cur = fresh ? nullptr : L[x].p;
      Want w1;
      w1.name = "reallocate";
      w1.cat = "operation";
      w1.what = "reallocate to " + std::to_string(n) + " on " + kind[a];
      w1.p = {{"current_ptr", up(cur)}, {"allocator_ref", ref(a)}};
      w1.n["size"] = n;
      tagname(w1, "allocator_name", A[a]);
      w1.tags["replay"] = "true";
      if (as) w1.tags["async"] = "true";
      wants.push_back(w1);
      void* p = nullptr;
      camp::resources::Resource ctx{camp::resources::Host{}};
      try {
        p = give ? (as ? rm.reallocate(cur, n, A[a], ctx) : rm.reallocate(cur, n, A[a])) : (as ? rm.reallocate(cur, n, ctx) : rm.reallocate(cur, n));
      } catch (umpire::runtime_error&) { vh::count("refused"); return; }
      Want& w2 = want("reallocate");
      w2.what = w1.what + " (result)";
      w2.inner = true;
      w2.p = {{"new_ptr", up(p)}, {"allocator_ref", ref(a)}};
      tagname(w2, "allocator_name", A[a]);
      if (fresh) L.push_back({static_cast<char*>(p), n, a});
      else { L[x].p = static_cast<char*>(p); L[x].n = n; }
      vh::step("realloc", n, U(as * 2 + give));
    } else if (k < 25) {
      size_t x = r.below(L.size());
      int a = int(r.below(A.size()));
      Live& l = L[x];
      if (l.ext || !l.n || !tracked(l.a) || !tracked(a)) return;
      if (fixed[a] && fixed[a] != l.n) return;
      void* p = nullptr;
      char* old = l.p;
      try { p = rm.move(l.p, A[a]); } catch (umpire::runtime_error&) { vh::count("refused"); return; }
      Want& w = want("move");
      w.what = "move from " + kind[l.a] + " to " + kind[a];
      w.inner = true;
      w.p = {{"ptr", up(old)}, {"allocator_ref", ref(a)}};
      if (p != old) w.p["result"] = up(p);
      tagname(w, "allocator_name", A[a]);
      w.tags["replay"] = "true";
      l.p = static_cast<char*>(p);
      l.a = a;
      vh::step("move", l.n, U(a));
    } else if (k == 25) {
      int a = int(r.below(A.size()));
      A[a].release();
      Want& w = want("release");
      w.what = "release";
      w.p["allocator_ref"] = ref(a);
      tagname(w, "allocator_name", A[a]);
      w.tags["replay"] = "true";
      vh::step("release", U(a));
    } else if (k == 26) {
      int a = int(r.below(A.size()));
      if (umpire::try_coalesce(A[a])) {
        Want& w = want("coalesce");
        w.what = "coalesce";
        tagname(w, "allocator_name", A[a]);
        w.tags["replay"] = "true";
      }
      vh::step("coalesce", U(a));
    } else if (k == 27) {
      bool ok8;
      std::string nm = rand_name(r, &ok8);
      try { umpire::mark_event(nm); } catch (std::exception& e) { vh::fail("event:disturb", std::string("mark_event failed: ") + e.what()); return; }
      Want& w = want("event", "metadata");
      w.what = "mark_event";
      if (ok8) w.s["name"] = nm;
      w.tags["replay"] = "true";
      vh::step("mark", vh::hash_str(nm));
    } else if (k == 28) {
      size_t x = r.below(L.size());
      if (L[x].ext) {
        umpire::deregister_external_allocation(L[x].p);
        Want& w = want("deregister_external_allocation");
        w.what = "deregister";
        w.tags["replay"] = "true";
        L[x] = L.back();
        L.pop_back();
        vh::step("deregister");
      } else {
        size_t n = r.range(1, 500);
        ext.emplace_back(new char[n]);
        char* p = ext.back().get();
        int a = 0;
        umpire::register_external_allocation(p, umpire::util::AllocationRecord(p, n, A[a].getAllocationStrategy(), std::string("external")));
        Want& w = want("register_external_allocation");
        w.what = "register";
        w.p = {{"allocator_ref", ref(a)}, {"pointer", up(p)}};
        w.n["size"] = n;
        tagname(w, "allocator_name", A[a]);
        w.tags["replay"] = "true";
        L.push_back({p, n, a, true});
        vh::step("register", n);
      }
    } else {
      // things that are not operations leave no record
      Live& l = L[r.below(L.size())];
      if (tracked(l.a)) { (void)rm.getSize(l.p); (void)rm.hasAllocator(l.p); (void)rm.getAllocator(static_cast<void*>(l.p)); (void)rm.findAllocationRecord(l.p); }
      (void)A[l.a].getCurrentSize();
      (void)A[l.a].getHighWatermark();
      (void)A[l.a].getActualSize();
      (void)rm.getAllocatorNames();
      try { (void)rm.getAllocator("no such allocator"); } catch (umpire::runtime_error&) {}
      if (r.chance(1, 3)) {
        int a = int(r.below(A.size()));
        rm.setDefaultAllocator(A[a]);
        Want& w = want("set_default_allocator");
        w.what = "setDefaultAllocator";
        w.p["allocator_ref"] = ref(a);
        tagname(w, "allocator_name", A[a]);
        w.tags["replay"] = "true";
        rm.setDefaultAllocator(host);
        Want& w2 = want("set_default_allocator");
        w2.what = "setDefaultAllocator(HOST)";
        w2.p["allocator_ref"] = up(host.getAllocationStrategy());
        w2.tags["allocator_name"] = "HOST";
      }
      vh::step("query");
    }
  };
  for (size_t i = 0; i < ops; ++i) {
    one();
    if (r.chance(1, 30) && A.size() < 8) build();
    if (r.chance(1, 25)) judge();
  }
  judge();
  for (auto& l : L) {
    if (l.ext) umpire::deregister_external_allocation(l.p);
    else A[l.a].deallocate(l.p);
  }
  new_records();
  vh::sig("log");
}

struct Capture {
  std::vector<ev::event> e;
  std::vector<ev::allocate> a;
  std::vector<ev::named_allocate> n;
  std::vector<ev::deallocate> d;
};
struct Rec {
  Capture* c;
  void record(const ev::event& x) { c->e.push_back(x); }
  void record(const ev::allocate& x) { c->a.push_back(x); }
  void record(const ev::named_allocate& x) { c->n.push_back(x); }
  void record(const ev::deallocate& x) { c->d.push_back(x); }
};

static std::string g_dir;
static void store_case(vh::Rng& r, U c)
{
  const std::string path = g_dir + "/store" + std::to_string(c) + ".json";
  Capture cap;
  Rec rec{&cap};
  ev::json_file_store w(path);
  ev::event_store_recorder esr(&w);
  struct Exp { std::string name; int cat; std::map<std::string, std::string> s, t; std::map<std::string, U> n, p; long long ts; };
  std::vector<Exp> exp;
  std::ostringstream shape;
  auto num = [&]() -> U { switch (r.below(5)) { case 0: return r.below(100); case 1: return r.next(); case 2: return ~U(0) >> r.below(64); case 3: return U(1) << r.below(64); default: return 0; } };
  auto ptr = [&]() -> void* { return reinterpret_cast<void*>(r.chance(1, 8) ? 0 : num()); };
  for (U i = r.range(1, 40); i; --i) {
    U k = r.below(7);
    Exp x;
    x.cat = 0;
    vh::step("ev", k);
    if (k < 4) {
      ev::builder<> b;
      x.name = rand_name(r);
      if (r.chance(1, 2)) b.name(x.name); else b.name(x.name.c_str());
      x.cat = int(r.below(3));
      b.category(static_cast<ev::category>(x.cat));
      for (U q = r.below(5); q; --q) {
        std::string key = rand_name(r);
        switch (r.below(6)) {
          case 0: { U v = num(); b.arg(key, v); x.n[key] = v; break; }
          case 1: { int v = int(r.below(1000)); b.arg(key.c_str(), v); x.n[key] = U(v); break; }
          case 2: { std::string v = rand_name(r); b.arg(key, v); x.s[key] = v; x.p.erase(key); break; }
          case 3: { std::string v = rand_name(r); b.arg(key.c_str(), v.c_str()); x.s[key] = v; x.p.erase(key); break; }
          case 4: { bool v = r.chance(1, 2); b.arg(key, v); x.n[key] = v; break; }
          default: { void* v = ptr(); if (r.chance(1, 2)) b.arg(key, v); else b.arg(key.c_str(), v); x.p[key] = up(v); x.s.erase(key); break; }
        }
      }
      if (r.chance(1, 3)) {
        U a0 = num();
        std::string a1 = rand_name(r);
        b.args(a0, a1, 7);
        x.n["arg0"] = a0;
        x.s["arg1"] = a1;
        x.n["arg2"] = 7;
      }
      for (U q = r.below(4); q; --q) {
        std::string a = rand_name(r), v = rand_name(r);
        if (r.chance(1, 2)) b.tag(a, v); else b.tag(a.c_str(), v.c_str());
        x.t[a] = v;
      }
      size_t had = cap.e.size();
      b.record(rec);
      VH_CHECK(cap.e.size() == had + 1, "event:record", "building an event recorded " << cap.e.size() - had);
      x.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(cap.e.back().timestamp.time_since_epoch()).count();
      b.record(esr);
    } else if (k == 4) {
      ev::builder<ev::allocate> b;
      U n = num() >> 1;
      void *p = ptr(), *q = ptr();
      b.size(n).ref(p).ptr(q).record(rec);
      b.record(esr);
      x.name = "allocate";
      x.n["size"] = n;
      x.p = {{"allocator_ref", up(p)}, {"pointer", up(q)}};
      x.t["replay"] = "true";
      x.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(cap.a.back().timestamp.time_since_epoch()).count();
    } else if (k == 5) {
      ev::builder<ev::named_allocate> b;
      U n = num() >> 1;
      void *p = ptr(), *q = ptr();
      std::string nm = rand_name(r);
      b.size(n).ref(p).name(nm).ptr(q).record(rec);
      b.record(esr);
      x.name = "named_allocate";
      x.n["size"] = n;
      x.p = {{"allocator_ref", up(p)}, {"pointer", up(q)}};
      x.s["allocation_name"] = nm;
      x.t["replay"] = "true";
      x.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(cap.n.back().timestamp.time_since_epoch()).count();
    } else {
      ev::builder<ev::deallocate> b;
      void *p = ptr(), *q = ptr();
      b.ref(p).ptr(q).record(rec);
      b.record(esr);
      x.name = "deallocate";
      x.p = {{"allocator_ref", up(p)}, {"pointer", up(q)}};
      x.t["replay"] = "true";
      x.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(cap.d.back().timestamp.time_since_epoch()).count();
    }
    exp.push_back(x);
  }
  std::fflush(nullptr);
  ev::json_file_store rd(path, true);
  std::vector<ev::event> got;
  try { got = rd.get_events(); } catch (umpire::runtime_error& e) { vh::fail("event:roundtrip", std::string("a recorded log cannot be read back: ") + std::string(e.what()).substr(0, 200)); return; }
  VH_CHECK(got.size() == exp.size(), "event:roundtrip", exp.size() << " events were recorded, " << got.size() << " are read back");
  for (size_t i = 0; i < exp.size(); ++i) {
    auto& g = got[i];
    auto& x = exp[i];
    VH_CHECK(g.name == x.name, "event:roundtrip", "event " << i << " is read back with name '" << g.name << "', recorded '" << x.name << "'");
    VH_CHECK(int(g.cat) == x.cat, "event:roundtrip", "event " << i << " changes its category");
    VH_CHECK(g.tags == x.t, "event:roundtrip", "event " << i << " (" << x.name << ") changes its tags");
    VH_CHECK(g.numeric_args.size() == x.n.size(), "event:roundtrip", "event " << i << " has " << g.numeric_args.size() << " numbers, recorded " << x.n.size());
    for (auto& e : x.n) VH_CHECK(g.numeric_args.count(e.first) && g.numeric_args[e.first] == e.second, "event:roundtrip", "event " << i << ": number '" << e.first << "' is " << g.numeric_args[e.first] << ", recorded " << e.second);
    VH_CHECK(g.string_args.size() == x.s.size() + x.p.size(), "event:roundtrip", "event " << i << " has " << g.string_args.size() << " texts, recorded " << x.s.size() + x.p.size());
    for (auto& e : x.s) VH_CHECK(g.string_args.count(e.first) && g.string_args[e.first] == e.second, "event:roundtrip", "event " << i << ": text '" << e.first << "' is '" << g.string_args[e.first] << "', recorded '" << e.second << "'");
    for (auto& e : x.p) {
      U v = 1;
      VH_CHECK(g.string_args.count(e.first) && to_ptr(g.string_args[e.first], v) && v == e.second, "event:roundtrip", "event " << i << ": pointer '" << e.first << "' is " << g.string_args[e.first] << ", recorded " << std::hex << e.second);
    }
    auto ts = std::chrono::duration_cast<std::chrono::nanoseconds>(g.timestamp.time_since_epoch()).count();
    VH_CHECK(ts == x.ts, "event:roundtrip", "event " << i << ": timestamp " << ts << ", recorded " << x.ts);
  }
  vh::count("roundtrip_events", exp.size());
  // a damaged line is reported, with its number, and reading does not change the file
  std::vector<std::string> lines;
  {
    FILE* f = std::fopen(path.c_str(), "r");
    char* l = nullptr;
    size_t cp = 0;
    ssize_t k;
    while ((k = ::getline(&l, &cp, f)) > 0) lines.emplace_back(l, size_t(k));
    std::free(l);
    std::fclose(f);
  }
  VH_CHECK(lines.size() == exp.size(), "event:line", lines.size() << " lines for " << exp.size() << " events");
  size_t bad = r.below(lines.size());
  {
    FILE* f = std::fopen((path + "x").c_str(), "w");
    for (size_t i = 0; i < lines.size(); ++i) {
      std::string l = i == bad ? lines[i].substr(0, r.below(lines[i].size() - 2)) + "\n" : lines[i];
      std::fwrite(l.data(), 1, l.size(), f);
    }
    std::fclose(f);
  }
  ev::json_file_store br(path + "x", true);
  try {
    auto v = br.get_events();
    VH_CHECK(false, "event:damaged", "a log with a damaged line " << bad + 1 << " is read without an error: " << v.size() << " events");
  } catch (umpire::runtime_error& e) {
    VH_CHECK(std::string(e.what()).find("#" + std::to_string(bad + 1)) != std::string::npos, "event:damaged", "the error does not name line " << bad + 1 << ": " << std::string(e.what()).substr(0, 200));
  }
  ev::json_file_store nofile(g_dir + "/absent" + std::to_string(c), true);
  try {
    (void)nofile.get_events();
    VH_CHECK(false, "event:absent", "reading an absent log is no error");
  } catch (umpire::runtime_error&) { vh::evals(); }
  ::unlink(path.c_str());
  ::unlink((path + "x").c_str());
  vh::sig("store");
}

static std::vector<std::string> ls(const std::string& d)
{
  std::vector<std::string> v;
  if (DIR* h = ::opendir(d.c_str())) {
    while (dirent* e = ::readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
    ::closedir(h);
  }
  return v;
}
static void wipe(const std::string& d)
{
  for (auto& n : ls(d)) ::unlink((d + "/" + n).c_str());
  ::rmdir(d.c_str());
}

// Recording off: the same calls leave no file.
static void off_case(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  auto a = rm.makeAllocator<st::QuickPool>("off" + std::to_string(c), rm.getAllocator("HOST"), size_t(4096), size_t(1024));
  std::vector<void*> v;
  bool called = false;
  for (U i = r.range(1, 50); i; --i) {
    vh::step("off", i);
    void* p = a.allocate(r.range(1, 500));
    v.push_back(p);
    rm.memset(p, 0);
    v.back() = rm.reallocate(p, r.range(1, 600));
    umpire::mark_event("off");
    ev::record([&](auto& e) { called = true; e.name("never"); });
  }
  for (auto p : v) a.deallocate(p);
  a.release();
  std::fflush(nullptr);
  auto f = ls(g_dir);
  VH_CHECK(f.empty(), "event:off", "recording is off, yet the output directory holds " << f[0]);
  VH_CHECK(!called, "event:off", "recording is off, yet an event was built");
  vh::sig("off");
}

static void one_case(vh::Rng& r, U c)
{
  const std::string m = vh::st().opt["mode"];
  if (m == "store") store_case(r, c);
  else if (m == "off") off_case(r, c);
  else log_case(r, c);
}

int main(int argc, char** argv)
{
  std::string mode = "log";
  U start = 0;
  for (int i = 1; i + 1 < argc; ++i) {
    if (std::string(argv[i]) == "--opt" && std::string(argv[i + 1]).rfind("mode=", 0) == 0) mode = argv[i + 1] + 5;
    if (std::string(argv[i]) == "--start") start = std::strtoull(argv[i + 1], nullptr, 10);
  }
  if (!std::getenv("VERIF_EV_DIR")) {
    const char* base = std::getenv("TMPDIR");
    std::string t = std::string(base && *base ? base : "/tmp") + "/vh_ev_XXXXXX";
    if (!::mkdtemp(&t[0])) { std::perror("mkdtemp"); return 2; }
    ::setenv("VERIF_EV_DIR", t.c_str(), 1);
    ::setenv("UMPIRE_OUTPUT_DIR", t.c_str(), 1);
    ::unsetenv("UMPIRE_EVENTS");
    ::unsetenv("UMPIRE_REPLAY");
    ::unsetenv("UMPIRE_LOG_LEVEL");
    if (mode == "log") ::setenv(start % 2 ? "UMPIRE_EVENTS" : "UMPIRE_REPLAY", "On", 1);
    ::execv("/proc/self/exe", argv);
    std::perror("execv");
    return 2;
  }
  g_dir = std::getenv("VERIF_EV_DIR");
  if (mode == "log") {
    umpire::ResourceManager::getInstance();
    std::fflush(nullptr);
    auto f = ls(g_dir);
    std::string found;
    for (auto& n : f) if (n.size() > 6 && n.substr(n.size() - 6) == ".stats") found = n;
    if (found.empty()) {
      wipe(g_dir);
      // judged in the first case, so that it is reported like any other violation
      return vh::run(argc, argv, "events", [](vh::Rng&, U) { vh::fail("event:file", "recording is on, but no log appears in the output directory"); });
    }
    logf_ = std::fopen((g_dir + "/" + found).c_str(), "r");
    if (!logf_) { std::perror("fopen"); return 2; }
    wipe(g_dir);  // both ends are open: nothing is left behind whatever happens
  }
  int rc = vh::run(argc, argv, "events", one_case);
  wipe(g_dir);
  return rc;
}
