// Call stacks: every record and every error carries the stack of the call that made it.
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <functional>
#include <sstream>
#include <unordered_map>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/config.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/AllocationRecord.hpp"
#include "umpire/util/backtrace.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

using U = std::uint64_t;
using std::size_t;
namespace st = umpire::strategy;
using Frames = std::vector<void*>;

static Frames g_here;  // the stack as the call site itself sees it
static Frames capture()
{
  void* b[4096];
  int n = ::backtrace(b, 4096);
  return Frames(b, b + n);
}
using Fn = std::function<void()>;
#define SITE(n)                                                          \
  extern "C" __attribute__((noinline, visibility("default"))) void vsite_##n(const Fn& f) \
  {                                                                      \
    g_here = capture();                                                  \
    f();                                                                 \
    asm volatile("" ::: "memory");                                       \
  }
SITE(0) SITE(1) SITE(2) SITE(3) SITE(4) SITE(5) SITE(6) SITE(7)
static void (*const SITES[])(const Fn&) = {vsite_0, vsite_1, vsite_2, vsite_3, vsite_4, vsite_5, vsite_6, vsite_7};
__attribute__((noinline)) void vdeeper(int d, const Fn& f)
{
  if (d == 0) f();
  else vdeeper(d - 1, f);
  asm volatile("" ::: "memory");
}
static void* function_of(void* frame)
{
  static std::unordered_map<void*, void*> known;
  auto k = known.find(frame);
  if (k != known.end()) return k->second;
  Dl_info i;
  return known[frame] = ::dladdr(static_cast<char*>(frame) - 1, &i) && i.dli_sname && std::strncmp(i.dli_sname, "vsite_", 6) == 0 ? i.dli_saddr : nullptr;
}
// index of the frame inside a site, or -1
static int find_site(const Frames& f, int s)
{
  for (size_t i = 0; i < f.size(); ++i)
    if (function_of(f[i]) == reinterpret_cast<void*>(SITES[s])) return int(i);
  return -1;
}
struct Call {
  int site{0};
  Frames outer;  // what called the site
};
// the frames of a stack, outermost last, are those of the call
static void judge(const Frames& f, const Call& c, const char* key, const std::string& what)
{
  VH_CHECK(f.size() > 1 && f.size() <= 128, key, what << ": a stack of " << f.size() << " frames");
  int i = find_site(f, c.site);
  VH_CHECK(i >= 0, key, what << ": the stack of " << f.size() << " frames does not pass through site " << c.site << " that made the call");
  for (int o = 0; o < 8; ++o)
    if (o != c.site) VH_CHECK(find_site(f, o) < 0, key, what << ": the stack of a call from site " << c.site << " passes through site " << o);
  size_t n = f.size() - size_t(i) - 1;
  VH_CHECK(n == c.outer.size() || (f.size() == 128 && n < c.outer.size()), key, what << ": the stack has " << n << " callers of the site, there were " << c.outer.size());
  for (size_t k = 0; k < n; ++k) VH_CHECK(f[size_t(i) + 1 + k] == c.outer[k], key, what << ": caller " << k << " in the stack is another than made the call");
}
static std::string hex(void* p)
{
  std::ostringstream o;
  o << p;
  return o.str();
}
// a printed stack names its frames, all of them and in order
static void printed(const std::string& s, const Frames* f, const Call& c, const char* key, const std::string& what)
{
  size_t at = s.find("Backtrace: ");
  VH_CHECK(at != std::string::npos, key, what << ": no stack in the text");
  size_t n = std::strtoul(s.c_str() + at + 11, nullptr, 10);
  std::istringstream is(s.substr(at));
  std::string line;
  std::getline(is, line);
  Frames g;
  std::vector<std::string> text;
  while (g.size() < n && std::getline(is, line)) {
    size_t x = line.find("0x");
    if (x == std::string::npos) break;
    g.push_back(reinterpret_cast<void*>(std::strtoull(line.c_str() + x, nullptr, 16)));
    text.push_back(line);
  }
  VH_CHECK(g.size() == n, key, what << ": the text announces " << n << " frames and shows " << g.size());
  if (f) VH_CHECK(g == *f, key, what << ": the frames in the text are not those of the record");
  judge(g, c, key, what);
  int i = find_site(g, c.site);
  VH_CHECK(text[size_t(i)].find("vsite_" + std::to_string(c.site)) != std::string::npos || text[size_t(i)].find('[') != std::string::npos, key, what << ": the frame of the site is not named: " << text[size_t(i)]);
#if defined(UMPIRE_ENABLE_BACKTRACE_SYMBOLS)
  VH_CHECK(text[size_t(i)].find("vsite_" + std::to_string(c.site)) != std::string::npos, key, what << ": the frame of the site is not named: " << text[size_t(i)]);
#endif
}
static bool expect_on()
{
  const char* e = std::getenv("UMPIRE_BACKTRACE");
  if (!e) return false;
  std::string s = e;
  for (auto& c : s) c = char(::toupper(c));
  return s == "ON";
}
static Call at_site(vh::Rng& r, const Fn& f)
{
  Call c;
  c.site = int(r.below(8));
  int depth = r.chance(1, 12) ? int(r.range(100, 400)) : int(r.below(12));
  vdeeper(depth, [&] {
    SITES[c.site](f);
  });
  int i = find_site(g_here, c.site);
  if (i < 0) std::abort();
  c.outer.assign(g_here.begin() + i + 1, g_here.end());
  return c;
}
struct L {
  unsigned char* p;
  size_t n;
  int a;
  Call c;
  bool ext{false};
};

static std::vector<umpire::Allocator> allocators(vh::Rng& r, const std::string& tag)
{
  auto& rm = umpire::ResourceManager::getInstance();
  std::vector<umpire::Allocator> as{rm.getAllocator("HOST")};
  for (U i = r.range(1, 4); i; --i) {
    std::string n = "bt" + tag + "_" + std::to_string(i);
    umpire::Allocator par = as[r.below(as.size())];
    switch (r.below(5)) {
      case 0: as.push_back(rm.makeAllocator<st::QuickPool>(n, par, 4096, 1024)); break;
      case 1: as.push_back(rm.makeAllocator<st::DynamicPoolList>(n, par, 4096, 1024)); break;
      case 2: as.push_back(rm.makeAllocator<st::NamedAllocationStrategy>(n, par)); break;
      case 3: as.push_back(rm.makeAllocator<st::ThreadSafeAllocator>(n, par)); break;
      default: as.push_back(rm.makeAllocator<st::SizeLimiter>(n, par, 10000000)); break;
    }
  }
  return as;
}

static void live_case(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  auto as = allocators(r, std::to_string(::getpid()) + "_" + std::to_string(c));
  std::vector<L> v;
  std::vector<std::unique_ptr<unsigned char[]>> ext;
  const bool on = expect_on();
  (void)on;
  auto check = [&](const L& l) {
    void* in = l.p + (l.n ? r.below(l.n) : 0);
    std::string s = umpire::get_backtrace(in);
#if defined(UMPIRE_ENABLE_BACKTRACE)
    const Frames& f = rm.findAllocationRecord(in)->allocation_backtrace.frames;
    if (on) {
      judge(f, l.c, "bt:record", "an allocation of " + std::to_string(l.n) + " bytes");
      printed(s, &f, l.c, "bt:printed", "get_backtrace");
    } else {
      VH_CHECK(f.empty(), "bt:off", "a stack of " << f.size() << " frames is kept although they are not asked for");
      VH_CHECK(s.find("Backtrace:") == std::string::npos && !s.empty(), "bt:off", "a stack is printed although they are not asked for: " << s.substr(0, 80));
    }
#else
    VH_CHECK(s.find("Backtrace:") == std::string::npos && !s.empty(), "bt:off", "a stack is printed by a build without them: " << s.substr(0, 80));
#endif
  };
  for (U s = r.range(20, 90); s; --s) {
    int k = int(r.below(20));
    if (k < 7 || v.empty()) {
      int a = int(r.below(as.size()));
      size_t n = r.chance(1, 12) ? 0 : r.range(1, 600);
      void* p = nullptr;
      bool named = r.chance(1, 5), null = !named && r.chance(1, 6);
      L l{nullptr, n, a};
      l.c = at_site(r, [&] { p = named ? as[a].allocate("some name", n) : null ? rm.reallocate(nullptr, n, as[a]) : as[a].allocate(n); });
      l.p = static_cast<unsigned char*>(p);
      v.push_back(l);
      vh::step("alloc", n, U(l.c.site));
    } else if (k < 11) {
      size_t i = r.below(v.size());
      L l = v[i];
      v.erase(v.begin() + long(i));
      if (l.ext) rm.deregisterAllocation(l.p);
      else if (r.chance(1, 2)) rm.deallocate(l.p);
      else as[l.a].deallocate(l.p);
      vh::step("free", l.n);
    } else if (k < 13) {
      L& l = v[r.below(v.size())];
      if (l.ext) continue;
      size_t n = r.range(1, 900);
      void* p = nullptr;
      l.c = at_site(r, [&] { p = rm.reallocate(l.p, n); });
      l.p = static_cast<unsigned char*>(p);
      l.n = n;
      vh::step("realloc", n);
    } else if (k == 13) {
      L& l = v[r.below(v.size())];
      int a = int(r.below(as.size()));
      if (l.ext || l.n == 0 || a == l.a) continue;
      void* p = nullptr;
      l.c = at_site(r, [&] { p = rm.move(l.p, as[a]); });
      l.p = static_cast<unsigned char*>(p);
      l.a = a;
      vh::step("move", l.n);
    } else if (k == 14) {
      size_t n = r.range(1, 200);
      ext.emplace_back(new unsigned char[n]);
      L l{ext.back().get(), n, int(r.below(as.size()))};
      l.ext = true;
      l.c = at_site(r, [&] { rm.registerAllocation(l.p, {l.p, n, as[l.a].getAllocationStrategy()}); });
      v.push_back(l);
      vh::step("external", n);
    } else if (k == 15) {
      // errors carry a stack in every build, asked for or not
      std::string what;
      int how = int(r.below(4));
      static unsigned char unknown[64];
      Call e = at_site(r, [&] {
        try {
          if (how == 0) rm.deallocate(unknown + 5);
          else if (how == 1) rm.getAllocator("no such allocator");
          else if (how == 2) rm.getSize(unknown);
          else as[0].allocate(size_t(1) << 62);
        } catch (const umpire::runtime_error& x) {
          what = x.what();
        }
      });
      VH_CHECK(!what.empty(), "bt:error", "a wrong call raises no error");
      printed(what, nullptr, e, "bt:error", "an error");
      vh::step("error", U(how));
      vh::count("errors");
    } else if (k == 16) {
      // stacks taken by hand
      umpire::util::backtrace o, a;
      Call e = at_site(r, [&] {
        umpire::util::backtracer<umpire::util::trace_optional>::get_backtrace(o);
        umpire::util::backtracer<umpire::util::trace_always>::get_backtrace(a);
      });
      judge(a.frames, e, "bt:always", "trace_always");
      printed(umpire::util::backtracer<umpire::util::trace_always>::print(a), &a.frames, e, "bt:always", "trace_always");
      if (on) judge(o.frames, e, "bt:optional", "trace_optional");
      else VH_CHECK(o.frames.empty(), "bt:off", "trace_optional takes a stack although they are not asked for");
      vh::step("hand");
    } else if (k == 17) {
      umpire::Allocator a = as[r.below(as.size())];
      std::ostringstream o;
      umpire::print_allocator_records(a, o);
      std::string t = o.str();
      for (auto& l : v)
        if (as[l.a].getId() == a.getId()) {
          VH_CHECK(t.find(hex(l.p)) != std::string::npos, "bt:records", "the records of an allocator lack an allocation");
#if defined(UMPIRE_ENABLE_BACKTRACE)
          if (on) VH_CHECK(t.find(umpire::get_backtrace(l.p)) != std::string::npos, "bt:records", "the records of an allocator lack the stack of an allocation");
#endif
        }
      vh::step("records", v.size());
    } else {
      for (int t = 0; t < 3; ++t) check(v[r.below(v.size())]);
      vh::step("look");
      vh::count("looks");
    }
  }
  for (auto& l : v) {
    check(l);
    if (l.ext) rm.deregisterAllocation(l.p);
    else as[l.a].deallocate(l.p);
  }
  vh::sig("live" + std::to_string(as.size()) + (on ? "on" : "off"));
}

// ---- what a process forgot is reported, with the stack, when it ends
struct Left {
  U p, n;
  int site;
  U address[128];
  int frames;
};
struct Board {
  int n, done;
  Left l[64];
};
static std::string slurp(const std::string& f)
{
  std::ifstream i(f);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
static void exit_case(vh::Rng& r, U c)
{
  static Board* B = static_cast<Board*>(::mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const char* t = std::getenv("TMPDIR");
  const std::string dir = t ? t : "/tmp";
  std::memset(B, 0, sizeof *B);
  std::fflush(nullptr);
  vh::step("process", c);
  pid_t pid = ::fork();
  if (pid == 0) {
    int fd = ::open("/dev/null", O_WRONLY);
    ::dup2(fd, 1);
    ::dup2(fd, 2);
    ::setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
    ::setenv("UMPIRE_LOG_LEVEL", "Error", 1);
    ::alarm(60);
    auto& rm = umpire::ResourceManager::getInstance();
    auto as = allocators(r, "x");
    (void)rm;
    for (U s = r.range(1, 40); s; --s) {
      umpire::Allocator a = as[r.below(as.size())];
      size_t n = r.range(1, 500);
      void* p = nullptr;
      Call k = at_site(r, [&] { p = a.allocate(n); });
      if (r.chance(1, 2) && a.getId() != as[0].getId()) {
        Left& l = B->l[B->n];
        l.p = U(p);
        l.n = n;
        l.site = k.site;
#if defined(UMPIRE_ENABLE_BACKTRACE)
        for (void* x : rm.findAllocationRecord(p)->allocation_backtrace.frames) l.address[l.frames++] = U(x);
#endif
        ++B->n;
      } else a.deallocate(p);
    }
    B->done = 1;
    std::exit(0);
  }
  int st = 0;
  ::waitpid(pid, &st, 0);
  const std::string log = dir + "/umpire." + std::to_string(pid) + ".0.log";
  std::string text = slurp(log);
  ::unlink(log.c_str());
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && B->done, "bt:exit", "the process fails with status " << st);
  for (int i = 0; i < B->n; ++i) {
    Left& l = B->l[i];
    std::ostringstream o;
    o << "size: " << l.n << ", range: " << (void*)l.p << " -- ";
    size_t at = text.find(o.str());
    VH_CHECK(at != std::string::npos, "bt:exit", "the report at the end lacks \"" << o.str() << "\"");
    if (!expect_on()) continue;
    size_t end = text.find("size: ", at + 6);
    std::string part = text.substr(at, end == std::string::npos ? end : end - at);
    VH_CHECK(l.frames > 1, "bt:exit", "a forgotten allocation has a stack of " << l.frames << " frames");
    size_t from = part.find("Backtrace: ");
    VH_CHECK(from != std::string::npos, "bt:exit", "the report at the end lacks the stack of an allocation");
    for (int k = 0; k < l.frames; ++k) {
      from = part.find(hex((void*)l.address[k]), from);
      VH_CHECK(from != std::string::npos, "bt:exit", "the report at the end lacks frame " << k << " of an allocation's stack");
    }
    VH_CHECK(part.find("vsite_" + std::to_string(l.site)) != std::string::npos, "bt:exit", "the report at the end does not name the site that forgot");
    vh::count("stacks reported at exit");
  }
  vh::sig("exit" + std::to_string(B->n));
}
int main(int argc, char** argv)
{
  return vh::run(argc, argv, "bt", [](vh::Rng& r, U c) {
    if (vh::st().opt["mode"] == "exit") exit_case(r, c);
    else live_case(r, c);
  });
}
