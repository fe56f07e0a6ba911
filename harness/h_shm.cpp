// Shared memory: real processes (forked) on one segment, judged by a model in the parent.
#include <dirent.h>
#include <dlfcn.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <atomic>
#include <cerrno>
#include <fstream>
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/HostSharedMemoryResource.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

using U = std::uint64_t;
using std::size_t;

// ---- delays and faults around the calls that create a segment
static int g_fault = 0;
static U g_delay = 0;
static void jitter()
{
  if (!g_delay) return;
  g_delay = vh::mix(g_delay, 77) | 1;
  if (g_delay % 3) usleep(useconds_t((g_delay >> 8) % 1500));
}
template <typename F>
static F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
extern "C" int ftruncate(int fd, __off_t n)
{
  jitter();
  if (g_fault) { errno = g_fault; g_fault = 0; return -1; }
  static auto f = next<int (*)(int, __off_t)>("ftruncate");
  int r = f(fd, n);
  jitter();
  return r;
}
extern "C" int fchmod(int fd, mode_t m)
{
  static auto f = next<int (*)(int, mode_t)>("fchmod");
  jitter();
  return f(fd, m);
}
extern "C" int shm_open(const char* n, int fl, mode_t m)
{
  static auto f = next<int (*)(const char*, int, mode_t)>("shm_open");
  jitter();
  int r = f(n, fl, m);
  int e = errno;
  jitter();
  errno = e;
  return r;
}

static std::string key(const char* k) { return std::string("shm:") + k; }

enum Op { ATTACH = 1, ALLOC, FREE, FIND, WRITE, HASH, ACTUAL, STATS, SHIM, SHIMFREE, SIZEOF, BYE };
struct Cmd {
  int op;
  U size, ptr, seed;
  U len;
  char name[600];
};
struct Reply {
  int err;  // 0 ok, 1 runtime_error, 2 out_of_memory_error, 3 something else
  U a, b, c;
  char msg[300];
};

static unsigned char pat(U seed, size_t i) { return static_cast<unsigned char>(vh::mix(seed, i >> 3) >> ((i & 7) * 8)); }
static U hash_bytes(const unsigned char* p, size_t n)
{
  U h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
  return h;
}
static bool find_map(const std::string& seg, U& lo, U& hi)
{
  std::ifstream f("/proc/self/maps");
  std::string l;
  bool got = false;
  while (std::getline(f, l)) {
    if (l.find(seg) == std::string::npos) continue;
    unsigned long a, b;
    if (sscanf(l.c_str(), "%lx-%lx", &a, &b) != 2) continue;
    if (!got) { lo = a; got = true; }
    hi = b;
  }
  return got;
}

static bool read_all(int fd, void* p, size_t n)
{
  char* c = static_cast<char*>(p);
  while (n) {
    ssize_t k = ::read(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= size_t(k);
  }
  return true;
}

// ---------------------------------------------------------------- a worker process
[[noreturn]] static void worker(int fd)
{
  umpire::Allocator a, shim;
  bool haveShim = false;
  std::string seg;
  auto& rm = umpire::ResourceManager::getInstance();
  for (;;) {
    Cmd c;
    if (!read_all(fd, &c, sizeof c)) _exit(0);
    Reply r;
    std::memset(&r, 0, sizeof r);
    std::string name(c.name, c.len);
    try {
      switch (c.op) {
        case ATTACH: {
          g_delay = c.seed;
          auto t = umpire::get_default_resource_traits("SHARED");
          t.size = c.size;
          seg = name;
          a = rm.makeResource(name, t);
          g_delay = 0;
          r.c = find_map(seg, r.a, r.b);
          break;
        }
        case ALLOC: r.a = U(a.allocate(name, c.size)); break;
        case FREE: a.deallocate(reinterpret_cast<void*>(c.ptr)); break;
        case FIND: r.a = U(umpire::find_pointer_from_name(a, name)); break;
        case WRITE:
          for (size_t i = 0; i < c.size; ++i) reinterpret_cast<unsigned char*>(c.ptr)[i] = pat(c.seed, i);
          break;
        case HASH: r.a = hash_bytes(reinterpret_cast<unsigned char*>(c.ptr), c.size); break;
        case ACTUAL: r.a = a.getActualSize(); break;
        case STATS:
          r.a = a.getAllocationCount();
          r.b = a.getCurrentSize();
          r.c = a.getHighWatermark();
          break;
        case SHIM:
          if (!haveShim) {
            shim = rm.makeAllocator<umpire::strategy::NamingShim>("shim", a);
            haveShim = true;
          }
          r.a = U(shim.allocate(c.size));
          break;
        case SHIMFREE: shim.deallocate(reinterpret_cast<void*>(c.ptr)); break;
        case SIZEOF: r.a = rm.getSize(reinterpret_cast<void*>(c.ptr)); break;
        case BYE: _exit(0);
      }
    } catch (umpire::out_of_memory_error& e) {
      r.err = 2;
      std::snprintf(r.msg, sizeof r.msg, "%s", e.what());
      r.a = e.requested_size();
      r.b = U(e.get_allocator_id());
      r.c = U(a.getId());
    } catch (const umpire::runtime_error& e) {
      r.err = 1;
      std::snprintf(r.msg, sizeof r.msg, "%s", e.what());
    } catch (const std::exception& e) {
      r.err = 3;
      std::snprintf(r.msg, sizeof r.msg, "%s", e.what());
    }
    if (::write(fd, &r, sizeof r) != ssize_t(sizeof r)) _exit(0);
  }
}

struct Proc {
  pid_t pid{0};
  int fd{-1};
  bool alive{false};
  U anchor{0}, lo{0}, hi{0};
  bool mapped{false};
  size_t count{0}, size{0}, hwm{0};
  size_t shims{0};
  bool shimOk{true};
  std::map<std::string, std::vector<size_t>> held;  // requested sizes, newest last
};
struct Named {
  U off;
  size_t n;
  size_t refs;
  std::vector<unsigned char> bytes;
};

struct World {
  vh::Rng& r;
  std::string seg;
  size_t segsize;
  std::vector<std::unique_ptr<Proc>> ps;
  std::map<std::string, Named> live;
  std::vector<std::string> names;
  std::string errfile;
  U base{0};  // actual size when only the anchor is allocated
  bool immortal{false};

  World(vh::Rng& rng, U c) : r(rng)
  {
    char b[80];
    std::snprintf(b, sizeof b, "SHARED::verif_%d_%llu", int(getpid()), (unsigned long long)c);
    seg = b;
    errfile = std::string(std::getenv("VERIF_SCRATCH") ? std::getenv("VERIF_SCRATCH") : ".") + "/worker.err";
    unlink(errfile.c_str());
    names = {"a", "ab", "abc", "b", "A", "", "name with space", std::string(17, 'x'), std::string(300, 'L'), "ab ", "size_1", "size_10", "\xc3\xa9t\xc3\xa9", "0"};
  }
  ~World()
  {
    for (auto& p : ps) reap(*p);
    shm_unlink(("/" + seg).c_str());
  }
  void reap(Proc& p)
  {
    if (p.fd >= 0) close(p.fd);
    if (p.pid > 0) {
      kill(p.pid, SIGKILL);
      waitpid(p.pid, nullptr, 0);
    }
    p.fd = -1;
    p.pid = 0;
    p.alive = false;
  }
  std::string worker_err()
  {
    std::ifstream f(errfile);
    std::stringstream s;
    s << f.rdbuf();
    std::string t = s.str();
    auto k = t.find("ERROR: ");
    return k == std::string::npos ? t.substr(0, 300) : t.substr(k, 900);
  }
  Proc& spawn()
  {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) vh::fail("unexpected:harness", "socketpair");
    std::vector<int> others;
    for (auto& p : ps) if (p->fd >= 0) others.push_back(p->fd);
    pid_t pid = fork();
    if (pid == 0) {
      close(sv[0]);
      for (int o : others) close(o);
      int e = open(errfile.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
      dup2(e, 2);
      int z = open("/dev/null", O_WRONLY);
      dup2(z, 1);
      signal(SIGPIPE, SIG_DFL);
      worker(sv[1]);
    }
    close(sv[1]);
    ps.emplace_back(new Proc);
    ps.back()->pid = pid;
    ps.back()->fd = sv[0];
    ps.back()->alive = true;
    return *ps.back();
  }
  void send(Proc& p, int op, const std::string& name = "", U size = 0, U ptr = 0, U seed = 0)
  {
    Cmd c;
    std::memset(&c, 0, sizeof c);
    c.op = op;
    c.size = size;
    c.ptr = ptr;
    c.seed = seed;
    c.len = name.size();
    std::memcpy(c.name, name.data(), name.size());
    if (::send(p.fd, &c, sizeof c, MSG_NOSIGNAL) != ssize_t(sizeof c)) died(p, op);
  }
  void died(Proc& p, int op)
  {
    int s = 0;
    waitpid(p.pid, &s, 0);
    p.pid = 0;
    vh::fail(key("died"), "a process died in operation " + std::to_string(op) + " (status " + std::to_string(s) + "): " + worker_err());
  }
  Reply recv(Proc& p, int op)
  {
    Reply r;
    struct pollfd f{p.fd, POLLIN, 0};
    int k = poll(&f, 1, 90000);
    if (k == 0) vh::fail(key("hang"), "operation " + std::to_string(op) + " of a process did not return in 90 s");
    if (!read_all(p.fd, &r, sizeof r)) died(p, op);
    return r;
  }
  Reply ask(Proc& p, int op, const std::string& name = "", U size = 0, U ptr = 0, U seed = 0)
  {
    send(p, op, name, size, ptr, seed);
    return recv(p, op);
  }

  // ---- attaching: all new processes race to create the segment
  void attach(size_t n, bool first)
  {
    std::vector<Proc*> np;
    for (size_t i = 0; i < n; ++i) np.push_back(&spawn());
    for (auto p : np) send(*p, ATTACH, seg, first ? segsize : (r.chance(1, 2) ? segsize : size_t(r.range(1, 1 << 20))), 0, r.next() | 1);
    for (auto p : np) {
      Reply a = recv(*p, ATTACH);
      VH_CHECK(a.err == 0, key("attach"), "creating or attaching a segment of " << segsize << " bytes failed: " << a.msg);
      p->mapped = a.c != 0;
      p->lo = a.a;
      p->hi = a.b;
      vh::count("attachments");
    }
    for (auto p : np) {
      Reply b = ask(*p, ALLOC, "anchor of all", 32);
      VH_CHECK(b.err == 0 && b.a, key("attach"), "the first named allocation failed: " << b.msg);
      p->anchor = b.a;
      p->count = 1;
      p->size = p->hwm = 32;
      if (p->mapped) VH_CHECK(b.a >= p->lo && b.a + 32 <= p->hi, key("outside"), "an allocation lies outside the segment");
      if (p->mapped && ps[0]->mapped)
        VH_CHECK(b.a - p->lo == ps[0]->anchor - ps[0]->lo, key("share"), "two processes got different memory under one name");
      // prove that it is the same memory
      U seed = r.next();
      Reply w = ask(*p, WRITE, "", 32, p->anchor, seed);
      (void)w;
      unsigned char exp[32];
      for (size_t i = 0; i < 32; ++i) exp[i] = pat(seed, i);
      for (auto& q : ps)
        if (q->alive && q->anchor) {
          Reply h = ask(*q, HASH, "", 32, q->anchor);
          VH_CHECK(h.a == hash_bytes(exp, 32), key("share"), "what one process wrote into shared memory is not seen by another");
        }
    }
  }

  bool room(size_t n, size_t namelen)
  {
    // the largest stretch certainly free, from the places of live blocks only
    Proc* p = any();
    if (!p || !p->mapped) return false;
    std::vector<std::pair<U, U>> b;
    auto overhead = [](size_t len) { return U(160 + len); };
    for (auto& l : live) {
      U o = p->anchor + l.second.off - p->lo;
      b.push_back({o > 96 ? o - 96 : 0, o + l.second.n + overhead(l.first.size())});
    }
    b.push_back({0, 512});
    U ao = p->anchor - p->lo;
    b.push_back({ao > 96 ? ao - 96 : 0, ao + 32 + overhead(16)});
    std::sort(b.begin(), b.end());
    U at = 0, best = 0, end = segsize;
    for (auto& x : b) {
      if (x.first > at) best = std::max(best, std::min<U>(x.first, end) - std::min<U>(at, end));
      at = std::max(at, x.second);
    }
    if (end > at) best = std::max(best, end - at);
    return n <= segsize && best >= n + namelen + 160;
  }
  Proc* any()
  {
    std::vector<Proc*> c;
    for (auto& p : ps) if (p->alive) c.push_back(p.get());
    return c.empty() ? nullptr : c[r.below(c.size())];
  }

  void took(Proc& p, const std::string& nm, size_t n, U ptr)
  {
    p.held[nm].push_back(n);
    p.count++;
    p.size += n;
    p.hwm = std::max(p.hwm, p.size);
    U off = ptr - p.anchor;
    auto it = live.find(nm);
    VH_CHECK(ptr % 16 == 0 || p.anchor % 16, key("align"), "a shared allocation is not aligned to 16 bytes");
    if (p.mapped)
      VH_CHECK(ptr >= p.lo && ptr + n <= p.lo + segsize, key("outside"), "an allocation of " << n << " bytes lies outside the segment of " << segsize);
    if (it != live.end()) {
      VH_CHECK(off == it->second.off, key("share"), "a name that is allocated gave other memory");
      it->second.refs++;
      vh::count("shared by name");
      return;
    }
    for (auto& o : live) {
      std::int64_t x = std::int64_t(o.second.off), y = std::int64_t(off);
      VH_CHECK(y + std::int64_t(n) <= x || x + std::int64_t(o.second.n) <= y, key("overlap"),
               "a new allocation of " << n << " bytes overlaps a live one of " << o.second.n << " under another name");
    }
    std::int64_t y = std::int64_t(off);
    VH_CHECK(y + std::int64_t(n) <= 0 || y >= 32, key("overlap"), "a new allocation of " << n << " bytes overlaps a live one");
    Named nn{off, n, 1, std::vector<unsigned char>(n)};
    U seed = r.next();
    ask(p, WRITE, "", n, ptr, seed);
    for (size_t i = 0; i < n; ++i) nn.bytes[i] = pat(seed, i);
    live[nm] = nn;
    vh::count("new shared allocations");
  }

  void alloc()
  {
    Proc* p = any();
    const std::string& nm = r.pick(names);
    size_t n;
    switch (r.below(8)) {
      case 0: n = r.range(1, 64); break;
      case 1: n = segsize / (1 + r.below(6)); break;
      case 2: n = segsize - std::min<size_t>(segsize - 1, r.below(2000)); break;
      case 3: n = size_t(1) << r.range(0, 20); break;
      case 4: n = ~size_t(0) - r.below(100); break;
      default: n = r.range(1, std::max<size_t>(2, segsize / 8)); break;
    }
    auto it = live.find(nm);
    if (it != live.end() && r.chance(3, 4)) n = r.chance(1, 2) ? it->second.n : r.range(1, it->second.n);
    bool fits = room(n, nm.size());
    vh::tr("p%d allocate \"%.20s\" %zu (%s)", int(p->pid), nm.c_str(), n, it != live.end() ? "live" : "new");
    Reply a = ask(*p, ALLOC, nm, n);
    if (a.err == 0) {
      VH_CHECK(a.a != 0, key("null"), "null was returned");
      if (it != live.end())
        VH_CHECK(n <= it->second.n + 64, key("small"), "a name allocated with " << it->second.n << " bytes was handed out for " << n);
      VH_CHECK(n <= segsize, key("outside"), "an allocation of " << n << " bytes was made in a segment of " << segsize);
      took(*p, nm, n, a.a);
      vh::step("alloc", n, vh::hash_str(nm));
    } else {
      if (it != live.end()) {
        VH_CHECK(n > it->second.n, key("refused"), "sharing an allocation of " << it->second.n << " bytes by name was refused for " << n << ": " << a.msg);
        VH_CHECK(a.err <= 2, key("error"), "the wrong error: " << a.msg);
      } else {
        VH_CHECK(!fits, key("refused"), "an allocation of " << n << " bytes was refused though there is room: " << a.msg);
        VH_CHECK(a.err == 2, key("error"), "running out of shared memory is not reported as such: " << a.msg);
        VH_CHECK(a.a == n && a.b == a.c, key("error"), "the out-of-memory error carries size " << a.a << " instead of " << n);
      }
      vh::step("refused", n, vh::hash_str(nm));
      vh::count("refusals");
    }
  }
  void shim()
  {
    Proc* p = any();
    if (!p->shimOk) return;
    std::string nm = "\x01shim" + std::to_string(p->shims);
    auto it = live.find(nm);
    size_t n = it != live.end() ? it->second.n : r.range(1, std::max<size_t>(2, segsize / 10));
    bool fits = room(n, 40);
    Reply a = ask(*p, SHIM, "", n);
    vh::tr("p%d shim %zu", int(p->pid), p->shims);
    if (a.err) {
      VH_CHECK(it == live.end() && !fits, key("refused"), "an unnamed allocation of " << n << " bytes was refused: " << a.msg);
      p->shimOk = false;  // which number comes next is not promised
      return;
    }
    p->shims++;
    took(*p, nm, n, a.a);
    vh::step("shim", n);
    vh::count("unnamed allocations through a shim");
  }
  void free_()
  {
    Proc* p = any();
    std::vector<std::string> h;
    for (auto& x : p->held) h.push_back(x.first);
    if (h.empty()) return;
    drop(*p, r.pick(h));
  }
  void drop(Proc& p, std::string nm)
  {
    auto& L = live[nm];
    size_t n = p.held[nm].back();
    bool sh = nm[0] == '\x01';
    vh::tr("p%d free \"%.20s\"", int(p.pid), nm.c_str());
    Reply a = ask(p, sh ? SHIMFREE : FREE, "", 0, p.anchor + L.off);
    VH_CHECK(a.err == 0, key("free"), "deallocation failed: " << a.msg);
    p.held[nm].pop_back();
    if (p.held[nm].empty()) p.held.erase(nm);
    p.count--;
    p.size -= n;
    if (--L.refs == 0) live.erase(nm);
    vh::step("free", n, vh::hash_str(nm));
    vh::count("deallocations");
  }
  void find()
  {
    Proc* p = any();
    const std::string& nm = r.pick(names);
    auto it = live.find(nm);
    Reply a = ask(*p, FIND, nm);
    if (it == live.end()) {
      VH_CHECK(a.err != 0 || a.a == 0, key("find"), "a name that is not allocated was found");
    } else {
      VH_CHECK(a.err == 0 && a.a == p->anchor + it->second.off, key("find"), "a live allocation was not found by its name: " << a.msg);
    }
    vh::step("find", it != live.end(), vh::hash_str(nm));
    vh::count("lookups");
  }
  void rewrite()
  {
    Proc* p = any();
    std::vector<std::string> h;
    for (auto& x : p->held) h.push_back(x.first);
    if (h.empty()) return;
    auto nm = r.pick(h);
    auto& L = live[nm];
    size_t n = std::min(p->held[nm].back(), L.n);
    U seed = r.next();
    ask(*p, WRITE, "", n, p->anchor + L.off, seed);
    for (size_t i = 0; i < n; ++i) L.bytes[i] = pat(seed, i);
    vh::step("write", n);
  }
  void verify_all()
  {
    for (auto& l : live) {
      Proc* p = any();
      Reply h = ask(*p, HASH, "", l.second.n, p->anchor + l.second.off);
      VH_CHECK(h.a == hash_bytes(l.second.bytes.data(), l.second.n), key("content"), "an allocation of " << l.second.n << " bytes changed");
      vh::count("blocks verified");
    }
    U seen = 0;
    size_t sum = 0;
    for (auto& l : live) sum += l.second.n;
    for (auto& p : ps) {
      if (!p->alive) continue;
      Reply s = ask(*p, STATS);
      VH_CHECK(s.a == p->count, key("stats"), "a process counts " << s.a << " allocations and made " << p->count);
      VH_CHECK(s.b == p->size, key("stats"), "a process reports " << s.b << " bytes and holds " << p->size);
      VH_CHECK(s.c == p->hwm, key("stats"), "a process reports a high watermark of " << s.c << " instead of " << p->hwm);
      Reply a = ask(*p, ACTUAL);
      VH_CHECK(!seen || a.a == seen, key("actual"), "two processes report different sizes of one segment");
      seen = a.a;
      VH_CHECK(a.a >= sum && a.a <= segsize, key("actual"), "the actual size " << a.a << " does not cover the live " << sum << " bytes of " << segsize);
      if (live.empty() && base) VH_CHECK(a.a == base, key("actual"), "with everything deallocated " << a.a << " bytes remain in use, at first " << base);
    }
  }
  void die()
  {
    // a process is killed while it is idle: what it held stays as it is
    size_t n = 0;
    for (auto& p : ps) n += p->alive;
    if (n < 2) return;
    Proc* p = any();
    vh::tr("p%d killed", int(p->pid));
    bool held = !p->held.empty();
    reap(*p);
    if (held) immortal = true;
    vh::step("die", held);
    vh::count("processes killed");
  }
};

static void run_serial(vh::Rng& r, U c)
{
  World w(r, c);
  static const size_t sz[] = {4096, 5000, 65536, 100003, 1 << 20, 1 << 22};
  w.segsize = r.chance(2, 3) ? sz[r.below(6)] : r.range(3000, 300000);
  w.attach(r.range(1, 4), true);
  w.base = w.ask(*w.ps[0], ACTUAL).a;
  bool deaths = r.chance(1, 4);
  U steps = r.range(30, 150);
  vh::sig("procs=" + std::to_string(w.ps.size()) + " seg=" + std::to_string(w.segsize / 4096) + " deaths=" + std::to_string(deaths));
  for (U s = 0; s < steps; ++s) {
    U x = r.below(100);
    if (x < 38) w.alloc();
    else if (x < 66) w.free_();
    else if (x < 72) w.shim();
    else if (x < 82) w.find();
    else if (x < 92) w.rewrite();
    else if (x < 95) w.verify_all();
    else if (x < 97 && deaths) w.die();
    else if (x < 98 && w.ps.size() < 7) w.attach(r.range(1, 2), false);
    if (r.chance(1, 40))
      for (auto& p : w.ps) while (p->alive && !p->held.empty()) w.drop(*p, p->held.begin()->first);
  }
  w.verify_all();
  for (auto& p : w.ps) while (p->alive && !p->held.empty()) w.drop(*p, p->held.begin()->first);
  w.verify_all();
  if (!w.immortal) {
    VH_CHECK(w.live.empty(), "unexpected:harness", "model not empty");
    for (auto& n : w.names) {
      Reply a = w.ask(*w.any(), FIND, n);
      VH_CHECK(a.err != 0 || a.a == 0, key("find"), "a deallocated name was found");
    }
    // one piece again: nearly everything can be allocated at once
    size_t big = w.segsize - w.base - 512;
    if (w.segsize > w.base + 1024) {
      Proc* p = w.any();
      Reply a = w.ask(*p, ALLOC, "everything", big);
      VH_CHECK(a.err == 0, key("coalesce"), "with nothing live, " << big << " of " << w.segsize << " bytes cannot be allocated: " << a.msg);
      w.ask(*p, WRITE, "", big, a.a, 5);
      Reply f = w.ask(*p, FREE, "", 0, a.a);
      VH_CHECK(f.err == 0, key("free"), "deallocation failed: " << f.msg);
      vh::count("whole segments allocated again");
    }
  }
}

// ---------------------------------------------------------------- processes at the same time
struct Board {
  std::atomic<int> ready, go, done, phase;
  std::atomic<int> violation;
  char msg[400];
  std::atomic<U> events, shared, refused, founds;
  struct Name {
    std::atomic<U> state;  // (offset+1) << 16 | holders
  } name[16];
  std::atomic<std::uint32_t> owner[1 << 16];  // per 16 bytes: name+1 << 16 | holders
  std::atomic<U> actual0, order;
};

static void board_fail(Board* b, const char* k, const std::string& m)
{
  int z = 0;
  if (b->violation.compare_exchange_strong(z, 1)) {
    std::snprintf(b->msg, sizeof b->msg, "%s\x01%s", k, m.c_str());
    b->violation = 2;
  }
}
[[noreturn]] static void racer(Board* B, int me, U seed, const std::string& seg, size_t segsize, int nproc, U steps)
{
  vh::Rng r(seed);
  auto wait = [&](std::atomic<int>& a, int v) {
    for (U i = 0; a.load() < v; ++i) {
      if (B->violation.load()) _exit(0);
      if (i > 64) usleep(100);
    }
  };
  try {
    auto& rm = umpire::ResourceManager::getInstance();
    B->ready++;
    wait(B->ready, nproc);
    g_delay = r.next() | 1;
    auto t = umpire::get_default_resource_traits("SHARED");
    t.size = segsize;
    auto a = rm.makeResource(seg, t);
    g_delay = 0;
    auto* anchor = static_cast<unsigned char*>(a.allocate("anchor of all", 32));
    B->phase++;
    wait(B->phase, nproc);
    U lo = 0, hi = 0;
    find_map(seg, lo, hi);
    U org = lo ? lo : U(anchor);
    if (me == 0) B->actual0 = a.getActualSize();
    B->phase++;
    wait(B->phase, 2 * nproc);
    struct Held { int n; unsigned char* p; size_t size; };
    std::vector<Held> held;
    // one size per name, so that sharing never depends on who came first
    auto size_of = [&](int n) { return size_t(vh::mix(77, U(n)) % (segsize / 6) + 1); };
    auto claim = [&](const Held& h, bool on) {
      U off = U(h.p) - org;
      // the name: one place while anybody holds it
      auto& s = B->name[h.n].state;
      for (;;) {
        U v = s.load();
        U holders = v & 0xffff;
        if (on && holders && (v >> 16) != off + 1) { board_fail(B, "share", "two processes hold one name at different places"); return; }
        U nv = on ? ((off + 1) << 16 | (holders + 1)) : (holders == 1 ? 0 : (v - 1));
        if (s.compare_exchange_weak(v, nv)) break;
      }
      for (U g = off / 16; g <= (off + h.size - 1) / 16 && g < (1u << 16); ++g) {
        auto& o = B->owner[g];
        for (;;) {
          std::uint32_t v = o.load();
          if (v && int(v >> 16) != h.n + 1) { board_fail(B, "overlap", "two names hold overlapping memory at the same time"); return; }
          std::uint32_t nv = on ? (std::uint32_t(h.n + 1) << 16 | ((v & 0xffff) + 1)) : ((v & 0xffff) == 1 ? 0 : v - 1);
          if (o.compare_exchange_weak(v, nv)) break;
        }
      }
    };
    auto fill = [&](const Held& h) {
      for (size_t i = 0; i < h.size; ++i) reinterpret_cast<volatile unsigned char*>(h.p)[i] = pat(U(h.n) + 1000, i);
    };
    auto good = [&](const Held& h) {
      for (size_t i = 0; i < h.size; ++i)
        if (reinterpret_cast<volatile unsigned char*>(h.p)[i] != pat(U(h.n) + 1000, i)) { board_fail(B, "content", "a held allocation changed at byte " + std::to_string(i)); return; }
    };
    auto drop = [&](size_t i) {
      Held h = held[i];
      good(h);
      claim(h, false);
      a.deallocate(h.p);
      held.erase(held.begin() + long(i));
    };
    for (U s = 0; s < steps && !B->violation.load(); ++s) {
      U x = r.below(10);
      if (x < 5) {
        int n = int(r.below(16));
        Held h{n, nullptr, size_of(n)};
        try {
          h.p = static_cast<unsigned char*>(a.allocate("race" + std::to_string(n), h.size));
        } catch (const umpire::out_of_memory_error&) {
          B->refused++;
          for (auto& o : held) if (o.n == n) board_fail(B, "refused", "sharing a name this process holds was refused");
          if (!held.empty()) drop(r.below(held.size()));
          continue;
        }
        claim(h, true);
        fill(h);
        held.push_back(h);
        U v = B->order.load();
        B->order = vh::mix(v, U(me) * 31 + U(n));
      } else if (x < 8) {
        if (!held.empty()) drop(r.below(held.size()));
      } else if (x < 9) {
        if (!held.empty()) {
          auto& h = held[r.below(held.size())];
          if (umpire::find_pointer_from_name(a, "race" + std::to_string(h.n)) != h.p) board_fail(B, "find", "a held allocation was not found by its name");
          good(h);
          B->founds++;
        }
      } else if (!held.empty()) {
        auto& h = held[r.below(held.size())];
        fill(h);
        good(h);
      }
      if (r.chance(1, 20)) usleep(useconds_t(r.below(60)));
      B->events++;
    }
    while (!held.empty() && !B->violation.load()) drop(0);
    B->done++;
    wait(B->done, nproc);
    if (me == 0 && !B->violation.load()) {
      if (a.getActualSize() != B->actual0.load())
        board_fail(B, "actual", "with everything deallocated " + std::to_string(a.getActualSize()) + " bytes remain in use, at first " + std::to_string(B->actual0.load()));
      for (int n = 0; n < 16; ++n)
        if (umpire::find_pointer_from_name(a, "race" + std::to_string(n))) board_fail(B, "find", "a deallocated name was found");
      try {
        void* p = a.allocate("everything", segsize - B->actual0.load() - 512);
        a.deallocate(p);
      } catch (const umpire::out_of_memory_error&) {
        board_fail(B, "coalesce", "with nothing live, the segment cannot be allocated in one piece");
      }
    }
  } catch (const std::exception& e) {
    board_fail(B, "exception", std::string("a process failed: ") + e.what());
  }
  _exit(0);
}
static void run_race(vh::Rng& r, U c)
{
  auto* B = static_cast<Board*>(mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset(static_cast<void*>(B), 0, sizeof(Board));
  char b[80];
  std::snprintf(b, sizeof b, "SHARED::vrace_%d_%llu", int(getpid()), (unsigned long long)c);
  std::string seg = b;
  size_t segsize = r.range(8192, 600000);
  int n = int(r.range(2, 6));
  std::string errfile = std::string(std::getenv("VERIF_SCRATCH") ? std::getenv("VERIF_SCRATCH") : ".") + "/racer.err";
  unlink(errfile.c_str());
  std::vector<pid_t> pids;
  U steps = r.range(50, 250);
  for (int i = 0; i < n; ++i) {
    U s = r.next();
    pid_t p = fork();
    if (p == 0) {
      int e = open(errfile.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
      dup2(e, 2);
      int z = open("/dev/null", O_WRONLY);
      dup2(z, 1);
      racer(B, i, s, seg, segsize, n, steps);
    }
    pids.push_back(p);
  }
  std::string bad;
  for (int waited = 0; !pids.empty();) {
    for (size_t i = pids.size(); i--;) {
      int s = 0;
      if (waitpid(pids[i], &s, WNOHANG) == pids[i]) {
        pids.erase(pids.begin() + long(i));
        if (s != 0) {
          std::ifstream f(errfile);
          std::stringstream t;
          t << f.rdbuf();
          std::string e = t.str();
          auto k = e.find("ERROR: ");
          board_fail(B, "died", "a process died (status " + std::to_string(s) + "): " + (k == std::string::npos ? e.substr(0, 200) : e.substr(k, 300)));
        }
      }
    }
    usleep(500);
    if (++waited > 180000) { board_fail(B, "hang", "the processes did not finish in 90 s"); break; }
  }
  for (auto p : pids) { kill(p, SIGKILL); waitpid(p, nullptr, 0); }
  shm_unlink(("/" + seg).c_str());
  std::string msg = B->violation.load() ? B->msg : "";
  vh::count("concurrent operations", B->events.load());
  vh::count("concurrent refusals", B->refused.load());
  vh::count("concurrent lookups", B->founds.load());
  vh::step("race", U(n), B->order.load());
  vh::evals(B->events.load() * 2 + 20);
  munmap(B, sizeof(Board));
  if (!msg.empty()) {
    auto k = msg.find('\x01');
    vh::fail(key(msg.substr(0, k).c_str()), msg.substr(k + 1));
  }
}

// ---------------------------------------------------------------- life of a segment
static bool exists(const std::string& seg)
{
  struct stat s;
  return stat(("/dev/shm/" + seg).c_str(), &s) == 0;
}
static size_t open_fds()
{
  size_t n = 0;
  DIR* D = opendir("/proc/self/fd");
  while (readdir(D)) ++n;
  closedir(D);
  return n;
}
static int g_id = 500;
static void life(vh::Rng& r, U c)
{
  using umpire::resource::HostSharedMemoryResource;
  char b[80];
  std::snprintf(b, sizeof b, "SHARED::vlife_%d_%llu", int(getpid()), (unsigned long long)c);
  std::string seg = b;
  struct Clean {
    std::string s;
    ~Clean() { shm_unlink(("/" + s).c_str()); }
  } clean{seg};
  auto make = [&](size_t n) {
    auto t = umpire::get_default_resource_traits("SHARED");
    t.size = n;
    return std::unique_ptr<HostSharedMemoryResource>(new HostSharedMemoryResource{umpire::Platform::host, seg, g_id++, t});
  };
  { auto x = make(8192); }
  size_t fds = open_fds();
  U steps = r.range(4, 20);
  for (U s = 0; s < steps; ++s) {
    int how = int(r.below(4));
    if (how == 0) {
      // too small to hold anything, or more than a file can be
      size_t n = r.chance(1, 2) ? r.below(80) : (size_t(1) << 63) + r.below(5000);
      bool threw = false;
      vh::tr("segment of %zu bytes", n);
      std::unique_ptr<HostSharedMemoryResource> x;
      try { x = make(n); } catch (const umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw, key("create"), "a segment of " << n << " bytes was created");
      vh::step("refuse", n);
    } else if (how == 1) {
      g_fault = r.chance(1, 2) ? ENOSPC : EINTR;
      bool threw = false;
      std::unique_ptr<HostSharedMemoryResource> x;
      vh::tr("segment fails with errno %d", g_fault);
      try { x = make(65536); } catch (const umpire::runtime_error&) { threw = true; }
      g_fault = 0;
      VH_CHECK(threw, key("create"), "a segment whose size could not be set was created");
      vh::step("fault");
    } else {
      size_t n = r.range(1024, 200000);
      vh::tr("segment of %zu bytes", n);
      auto x = make(n);
      VH_CHECK(exists(seg), key("create"), "a segment was created but is not there");
      U a0 = x->getActualSize();
      VH_CHECK(a0 < n, key("actual"), "an empty segment of " << n << " bytes reports " << a0 << " in use");
      std::map<std::string, std::pair<unsigned char*, size_t>> live;
      for (U k = 0; k < r.range(1, 20); ++k) {
        std::string nm = "n" + std::to_string(k);
        size_t z = r.range(1, n / 4);
        try {
          auto* p = static_cast<unsigned char*>(x->allocate_named(nm, z));
          for (auto& l : live) VH_CHECK(p + z <= l.second.first || l.second.first + l.second.second <= p, key("overlap"), "two names hold overlapping memory");
          std::memset(p, int(k), z);
          live[nm] = {p, z};
        } catch (const umpire::out_of_memory_error&) {
        }
      }
      // one memory under many references: it lives until the last is gone
      if (!live.empty() && r.chance(1, 3)) {
        auto it = live.begin();
        std::advance(it, long(r.below(live.size())));
        const size_t refs = r.chance(1, 4) ? r.range(65530, 66500) : r.chance(1, 2) ? r.range(250, 800) : r.range(1, 40);
        U a1 = x->getActualSize();
        for (size_t k = 0; k < refs; ++k) VH_CHECK(x->allocate_named(it->first, it->second.second) == it->second.first, key("same"), "reference " << k + 2 << " to a name gives other memory");
        for (size_t k = 0; k < refs; ++k) {
          x->deallocate(it->second.first, it->second.second);
          if (x->getActualSize() != a1 || x->find_pointer_from_name(it->first) != it->second.first) {
            VH_CHECK(false, key("refs"), "memory with " << refs + 1 << " references is gone after " << k + 1 << " deallocations");
            break;
          }
        }
        for (size_t i = 0; i < it->second.second; i += 97) VH_CHECK(it->second.first[i] == it->second.first[0], key("content"), "memory changed while references to it came and went");
        vh::step("refs", refs);
        vh::count("references", refs);
      }
      bool threw = false;
      try { x->allocate(10); } catch (const umpire::runtime_error&) { threw = true; }
      VH_CHECK(threw, key("error"), "an allocation without a name was accepted");
      if (how == 2)
        for (auto& l : live) x->deallocate(l.second.first, l.second.second);
      if (how == 2) VH_CHECK(x->getActualSize() == a0, key("actual"), "with everything deallocated " << x->getActualSize() << " bytes remain in use");
      x.reset();
      vh::step("life", n, live.size());
      vh::count("segments created and destroyed");
    }
    VH_CHECK(!exists(seg), key("left"), "the segment is still there after " << (how == 0 || how == 1 ? "its creation failed" : "its resource was destroyed"));
    VH_CHECK(open_fds() == fds, key("descriptor"), open_fds() << " descriptors are open, " << fds << " at the start");
    U lo, hi;
    VH_CHECK(!find_map(seg, lo, hi), key("mapping"), "the segment is still mapped");
    shm_unlink(("/" + seg).c_str());
  }
}

// ---- operations on shared memory through the resource manager: reallocate, move, copy, memset
static void ops(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  static umpire::Allocator* shp = nullptr;
  static umpire::Allocator* poolp = nullptr;
  if (!shp) {
    char b[80];
    std::snprintf(b, sizeof b, "SHARED::vops_%d", int(getpid()));
    auto t = umpire::get_default_resource_traits("SHARED");
    t.size = 1 << 20;
    t.scope = umpire::MemoryResourceTraits::shared_scope::node;
    shp = new umpire::Allocator(rm.makeResource(b, t));
    shm_unlink((std::string("/") + b).c_str());
    poolp = new umpire::Allocator(rm.makeAllocator<umpire::strategy::QuickPool>("vops_pool", rm.getAllocator("HOST")));
  }
  umpire::Allocator sh = *shp, pool = *poolp;
  struct M {
    unsigned char* p;
    std::vector<unsigned char> d;
    bool shared;
    std::string name;
  };
  std::vector<M> v;
  auto K = [](const char* k) { return std::string("realloc:") + k; };
  auto fill = [&](M& m) { for (auto& b : m.d) b = (unsigned char)r.next(); if (!m.d.empty()) std::memcpy(m.p, m.d.data(), m.d.size()); };
  auto intact = [&](const M& m, const char* w) {
    VH_CHECK(rm.hasAllocator(m.p) && rm.getSize(m.p) == m.d.size() && rm.getAllocator(static_cast<void*>(m.p)).getId() == (m.shared ? sh : pool).getId(), K("shared-record"), w << ": an allocation of " << m.d.size() << " bytes is not known as it was");
    VH_CHECK(m.d.empty() || std::memcmp(m.p, m.d.data(), m.d.size()) == 0, K("shared-content"), w << ": the contents of an allocation of " << m.d.size() << " bytes changed");
  };
  auto books = [&](const char* w) {
    size_t n[2] = {0, 0}, z[2] = {0, 0};
    for (auto& m : v) { ++n[m.shared]; z[m.shared] += m.d.size(); }
    VH_CHECK(sh.getAllocationCount() == n[1] && sh.getCurrentSize() == z[1], K("shared-stats"), w << ": shared memory counts " << sh.getAllocationCount() << " allocations of " << sh.getCurrentSize() << " bytes, live are " << n[1] << " of " << z[1]);
    VH_CHECK(pool.getAllocationCount() == n[0] && pool.getCurrentSize() == z[0], K("shared-stats"), w << ": the pool counts " << pool.getAllocationCount() << " allocations of " << pool.getCurrentSize() << " bytes, live are " << n[0] << " of " << z[0]);
    for (auto& m : v) intact(m, w);
  };
  camp::resources::Resource ctx{camp::resources::Host{}};
  U names = 0;
  for (U s = r.range(10, 60); s; --s) {
    int k = int(r.below(9));
    const char* w = "";
    if (k < 3 || v.empty()) {
      M m{nullptr, std::vector<unsigned char>(r.range(1, 4000)), r.chance(2, 3), "n" + std::to_string(c) + "_" + std::to_string(names++)};
      w = "allocate";
      if (m.shared) {
        try { m.p = static_cast<unsigned char*>(sh.allocate(m.name, m.d.size())); } catch (const umpire::out_of_memory_error&) { continue; }
      } else m.p = static_cast<unsigned char*>(pool.allocate(m.d.size()));
      fill(m);
      v.push_back(m);
    } else if (k == 3) {
      size_t i = r.below(v.size());
      w = "deallocate";
      (v[i].shared ? sh : pool).deallocate(v[i].p);
      v.erase(v.begin() + long(i));
    } else if (k < 6) {
      size_t i = r.below(v.size());
      M& m = v[i];
      size_t n = r.chance(1, 10) ? (size_t(1) << 62) : r.range(1, 5000), off = r.chance(1, 8) ? r.below(m.d.size()) : 0;
      int form = int(r.below(4));
      bool wrong = form >= 2 && r.chance(1, 4);
      umpire::Allocator own = (m.shared != wrong) ? sh : pool;
      w = "reallocate";
      vh::tr("reallocate %s %zu to %zu, form %d%s", m.shared ? "shared" : "pooled", m.d.size(), n, form, wrong ? " with the wrong allocator" : off ? " at an offset" : "");
      unsigned char* q = nullptr;
      bool threw = false;
      try {
        void* x = m.p + off;
        q = static_cast<unsigned char*>(form == 0 ? rm.reallocate(x, n) : form == 1 ? rm.reallocate(x, n, ctx) : form == 2 ? rm.reallocate(x, n, own) : rm.reallocate(x, n, own, ctx));
      } catch (const umpire::runtime_error&) { threw = true; } catch (const umpire::out_of_memory_error&) { threw = true; }
      if (!m.shared && !wrong && !off && n < 10000) VH_CHECK(!threw, K("shared-pool"), "reallocating pooled memory was refused");
      if (wrong || off || n > 10000) VH_CHECK(threw, K("shared-accept"), "a reallocation that is to be refused was accepted");
      if (!threw) {
        size_t common = std::min(n, m.d.size());
        VH_CHECK(q && rm.getSize(q) == n && std::memcmp(q, m.d.data(), common) == 0, K("shared-content"), "reallocated memory has other contents or another size");
        m.p = q;
        m.d.resize(n);
        fill(m);
      }
      vh::count(threw ? "reallocations refused" : "reallocations");
    } else if (k < 8) {
      size_t i = r.below(v.size());
      M& m = v[i];
      bool to = r.chance(1, 2);
      w = "move";
      vh::tr("move %s %zu to %s", m.shared ? "shared" : "pooled", m.d.size(), to ? "shared" : "pool");
      unsigned char* q = nullptr;
      bool threw = false;
      try { q = static_cast<unsigned char*>(rm.move(m.p, to ? sh : pool)); } catch (const umpire::runtime_error&) { threw = true; }
      if (!to || m.shared) VH_CHECK(!threw, K("shared-move"), "a move was refused");
      if (!threw) {
        VH_CHECK((q == m.p) == (to == m.shared), K("shared-move"), "a move within an allocator changes the address, or one across does not");
        m.p = q;
        m.shared = to;
      }
      vh::count(threw ? "moves refused" : "moves");
    } else {
      M &a = v[r.below(v.size())], &b = v[r.below(v.size())];
      w = "copy";
      if (&a != &b) {
        size_t n = r.range(1, std::min(a.d.size(), b.d.size()));
        rm.copy(a.p, b.p, n);
        std::copy_n(b.d.begin(), n, a.d.begin());
      } else {
        rm.memset(a.p, int(s));
        std::fill(a.d.begin(), a.d.end(), (unsigned char)s);
      }
    }
    vh::step(w, U(k), v.size());
    books(w);
  }
  for (auto& m : v) (m.shared ? sh : pool).deallocate(m.p);
  v.clear();
  books("the end");
}

int main(int argc, char** argv)
{
  signal(SIGPIPE, SIG_IGN);
  return vh::run(argc, argv, "h_shm", [](vh::Rng& r, U c) {
    auto& m = vh::st().opt["mode"];
    if (m == "race") run_race(r, c);
    else if (m == "life") life(r, c);
    else if (m == "ops") ops(r, c);
    else run_serial(r, c);
  });
}
