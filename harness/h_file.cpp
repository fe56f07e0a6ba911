// The file resource: every live allocation is one file of its own, nothing is left behind.
#include <dirent.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>

#include <cerrno>
#include <fstream>
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/FileMemoryResource.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/util/error.hpp"
#include "vh.hpp"

using U = std::uint64_t;
using std::size_t;
static int g_fault = 0;  // errno the next ftruncate returns
extern "C" int ftruncate64(int fd, __off64_t n)
{
  if (g_fault) { errno = g_fault; g_fault = 0; return -1; }
  static auto f = reinterpret_cast<int (*)(int, __off64_t)>(dlsym(RTLD_NEXT, "ftruncate64"));
  return f(fd, n);
}
extern "C" int ftruncate(int fd, __off_t n)
{
  if (g_fault) { errno = g_fault; g_fault = 0; return -1; }
  static auto f = reinterpret_cast<int (*)(int, __off_t)>(dlsym(RTLD_NEXT, "ftruncate"));
  return f(fd, n);
}

static size_t page() { static size_t p = size_t(sysconf(_SC_PAGE_SIZE)); return p; }

static std::map<std::string, U> list(const std::string& d)
{
  std::map<std::string, U> r;
  DIR* D = opendir(d.c_str());
  if (!D) return r;
  while (dirent* e = readdir(D)) {
    struct stat s;
    std::string p = d + "/" + e->d_name;
    if (e->d_name[0] != '.' && stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode)) r[e->d_name] = U(s.st_size);
  }
  closedir(D);
  return r;
}
static size_t open_fds()
{
  size_t n = 0;
  DIR* D = opendir("/proc/self/fd");
  while (readdir(D)) ++n;
  closedir(D);
  return n;
}
// Mappings of files below `dir`.
static std::vector<std::pair<U, U>> maps(const std::vector<std::string>& dirs)
{
  std::vector<std::pair<U, U>> r;
  std::ifstream f("/proc/self/maps");
  std::string l;
  while (std::getline(f, l)) {
    for (auto& d : dirs)
      if (l.find(d + "/") != std::string::npos) {
        unsigned long a, b;
        if (sscanf(l.c_str(), "%lx-%lx", &a, &b) == 2) r.push_back({a, b});
        break;
      }
  }
  return r;
}

static std::string key(const char* k) { return std::string("file:") + k; }

struct Block {
  unsigned char* p;
  size_t n;
  U seed;
  int dir;
  std::string file;
  bool gone{false};
  int res;
  size_t lo, hi;  // the part that is filled: [0,lo) and [n-hi,n)
};

static unsigned char pat(U seed, size_t i) { return static_cast<unsigned char>(vh::mix(seed, i >> 3) >> ((i & 7) * 8)); }

struct World {
  vh::Rng& r;
  std::vector<std::string> dirs;
  std::string shm;
  std::vector<Block> live;
  std::vector<std::set<std::string>> stale;  // our own bystander files per directory
  std::vector<std::unique_ptr<umpire::resource::FileMemoryResource>> res;
  umpire::Allocator viaAlloc;
  bool useAlloc{false};
  size_t fds0{0};

  explicit World(vh::Rng& rng, U c) : r(rng)
  {
    std::string base = std::getenv("VERIF_SCRATCH") ? std::getenv("VERIF_SCRATCH") : ".";
    char b[64];
    std::snprintf(b, sizeof b, "/fd%d_%llu", int(getpid()), (unsigned long long)c);
    base += b;
    mkdir(base.c_str(), 0700);
    dirs.push_back(base + "/cwd");
    dirs.push_back(base + "/one");
    dirs.push_back(base + "/two with space");
    for (auto& d : dirs) mkdir(d.c_str(), 0700);
    std::snprintf(b, sizeof b, "/dev/shm/verif_file_%d_%llu", int(getpid()), (unsigned long long)c);
    shm = b;
    mkdir(shm.c_str(), 0700);
    dirs.push_back(shm);
    if (chdir(dirs[0].c_str())) vh::fail("unexpected:harness", "chdir failed");
    stale.resize(dirs.size());
    for (size_t i = 0; i < dirs.size(); ++i)
      if (r.chance(1, 2)) {
        std::string n = "umpire_mem_1_" + std::to_string(r.below(5));
        std::ofstream(dirs[i] + "/" + n) << "bystander";
        stale[i].insert(n);
      }
  }
  ~World()
  {
    unsetenv("UMPIRE_MEMORY_FILE_DIR");
    for (auto& d : dirs) {
      for (auto& f : list(d)) unlink((d + "/" + f.first).c_str());
      rmdir(d.c_str());
    }
    if (chdir("/tmp")) {}
    std::string base = dirs[1].substr(0, dirs[1].rfind('/'));
    for (auto& d : dirs) rmdir(d.c_str());
    rmdir(base.c_str());
  }

  int setdir(int want = -1)
  {
    int d = want >= 0 ? want : int(r.below(dirs.size()));
    if (d == 0) unsetenv("UMPIRE_MEMORY_FILE_DIR");
    else setenv("UMPIRE_MEMORY_FILE_DIR", (dirs[d] + "/").c_str(), 1);
    return d;
  }

  void fill(Block& b)
  {
    for (size_t i = 0; i < b.lo; ++i) b.p[i] = pat(b.seed, i);
    for (size_t i = b.n - b.hi; i < b.n; ++i) b.p[i] = pat(b.seed, i);
  }
  void verify(const Block& b)
  {
    for (size_t i = 0; i < b.lo; ++i)
      if (b.p[i] != pat(b.seed, i)) vh::fail(key("content"), "byte " + std::to_string(i) + " of a live allocation of " + std::to_string(b.n) + " bytes changed");
    for (size_t i = b.n - b.hi; i < b.n; ++i)
      if (b.p[i] != pat(b.seed, i)) vh::fail(key("content"), "byte " + std::to_string(i) + " of a live allocation of " + std::to_string(b.n) + " bytes changed");
    vh::evals(1);
    vh::count("bytes verified", b.lo + b.hi);
  }
  void verify_file(const Block& b)
  {
    if (b.gone) return;
    std::string path = dirs[b.dir] + "/" + b.file;
    int fd = open(path.c_str(), O_RDONLY);
    VH_CHECK(fd >= 0, key("missing"), "the file of a live allocation is not there: " << b.file);
    std::vector<unsigned char> v(std::max(b.lo, b.hi) + 1);
    bool ok = pread(fd, v.data(), b.lo, 0) == ssize_t(b.lo);
    for (size_t i = 0; ok && i < b.lo; ++i) ok = v[i] == pat(b.seed, i);
    if (ok && b.hi) {
      ok = pread(fd, v.data(), b.hi, off_t(b.n - b.hi)) == ssize_t(b.hi);
      for (size_t i = 0; ok && i < b.hi; ++i) ok = v[i] == pat(b.seed, b.n - b.hi + i);
    }
    close(fd);
    VH_CHECK(ok, key("backing"), "the file of an allocation of " << b.n << " bytes does not hold what was written to the memory");
    vh::count("files compared with memory");
  }

  // Exactly the files of the live allocations, each large enough; exactly their mappings; no descriptor kept.
  void audit(const char* after)
  {
    vh::check_flags();
    for (size_t d = 0; d < dirs.size(); ++d) {
      auto l = list(dirs[d]);
      std::map<std::string, const Block*> want;
      for (auto& b : live) if (b.dir == int(d) && !b.gone) want[b.file] = &b;
      for (auto& f : l) {
        if (stale[d].count(f.first)) {
          VH_CHECK(f.second == 9, key("bystander"), "a file the library did not create changed size after " << after);
          std::ifstream s(dirs[d] + "/" + f.first);
          std::string got;
          std::getline(s, got);
          VH_CHECK(got == "bystander", key("bystander"), "a file the library did not create changed after " << after);
          continue;
        }
        auto it = want.find(f.first);
        VH_CHECK(it != want.end(), key("leftover"), "file " << f.first << " (" << f.second << " bytes) belongs to no live allocation after " << after);
        VH_CHECK(f.second >= it->second->n, key("short"), "the file of an allocation of " << it->second->n << " bytes has only " << f.second);
      }
      for (auto& w : want) VH_CHECK(l.count(w.first), key("missing"), "the file of a live allocation is gone after " << after);
      for (auto& s : stale[d]) VH_CHECK(l.count(s), key("bystander"), "a file the library did not create was removed after " << after);
    }
    auto m = maps(dirs);
    U total = 0, want = 0;
    for (auto& x : m) total += x.second - x.first;
    for (auto& b : live) {
      want += (b.n + page() - 1) / page() * page();
      bool in = false;
      for (auto& x : m) in = in || (x.first <= U(b.p) && U(b.p) < x.second);
      VH_CHECK(in, key("unmapped"), "a live allocation is not mapped after " << after);
    }
    VH_CHECK(total == want, key("mapping"), "after " << after << " " << total << " bytes of files are mapped, the live allocations need " << want);
    VH_CHECK(open_fds() == fds0, key("descriptor"), "after " << after << " " << open_fds() << " descriptors are open, " << fds0 << " at the start");
    vh::count("audits");
    std::map<int, int> per;
    int gone = 0;
    for (auto& b : live) per[b.dir]++, gone += b.gone;
    std::string s = "live per directory";
    for (auto& p : per) s += " " + std::to_string(p.first) + ":" + std::to_string(p.second);
    vh::sig(s + " lost:" + std::to_string(gone) + " after " + after);
  }

  void* get(int which, size_t n) { return useAlloc ? viaAlloc.allocate(n) : res[which]->allocate(n); }
  void put(int which, void* p, size_t n) { if (useAlloc) viaAlloc.deallocate(p); else res[which]->deallocate(p, n); }

  void alloc()
  {
    static const size_t sizes[] = {1, 7, 100, 4095, 4096, 4097, 8192, 12289, 65536, 1000003};
    size_t n = r.chance(1, 2) ? sizes[r.below(10)] : r.range(1, 40000);
    int d = setdir();
    if (r.chance(1, 30)) n = r.range(1ull << 30, 1ull << 33);  // sparse
    int which = int(r.below(res.size() ? res.size() : 1));
    auto before = list(dirs[d]);
    vh::tr("allocate %zu in dir %d", n, d);
    unsigned char* p;
    try {
      p = static_cast<unsigned char*>(get(which, n));
    } catch (const std::exception& e) {
      vh::fail(key("refused"), std::string("an allocation of ") + std::to_string(n) + " bytes failed: " + e.what());
      return;
    }
    VH_CHECK(p != nullptr, key("null"), "null was returned for " << n << " bytes");
    VH_CHECK(U(p) % 16 == 0, key("align"), "the memory is not aligned");
    for (auto& b : live)
      VH_CHECK(p + n <= b.p || b.p + b.n <= p, key("overlap"), "a new allocation of " << n << " bytes overlaps a live one of " << b.n);
    auto now = list(dirs[d]);
    std::vector<std::string> added;
    for (auto& f : now) if (!before.count(f.first)) added.push_back(f.first);
    VH_CHECK(added.size() == 1, key("onefile"), "an allocation created " << added.size() << " files in its directory");
    Block b{p, n, r.next(), d, added[0], false, which, std::min<size_t>(n, 20000), 0};
    b.hi = std::min<size_t>(n - b.lo, 5000);
    fill(b);
    verify_file(b);
    live.push_back(b);
    vh::step("alloc", n, U(d));
    vh::count("allocations");
    audit("an allocation");
  }
  void refuse()
  {
    size_t n = 0;
    int d = setdir();
    int which = int(r.below(res.size() ? res.size() : 1));
    const char* what = "";
    bool must = true;
    switch (r.below(6)) {
      case 0: n = ~size_t(0) - r.below(3 * page()); what = "the largest sizes"; break;
      case 1: n = (size_t(1) << 63) + r.below(1 << 20); what = "a size past the file size limit"; break;
      case 2: d = setdir(3); n = (size_t(1) << 50) + r.below(100000); what = "a size past the address space"; break;
      case 3:
        setenv("UMPIRE_MEMORY_FILE_DIR", (dirs[1] + "/absent/").c_str(), 1);
        n = r.range(1, 100000);
        what = "a directory that does not exist";
        break;
      case 4: g_fault = r.chance(1, 2) ? ENOSPC : EFBIG; n = r.range(1, 100000); what = "a full disk"; break;
      case 5:
        if (useAlloc) return;  // zero-byte allocations never reach the resource
        n = 0;
        what = "no bytes";
        break;
    }
    vh::tr("refuse %zu (%s)", n, what);
    bool threw = false;
    try {
      void* p = get(which, n);
      (void)p;
    } catch (const umpire::runtime_error&) {
      threw = true;
    } catch (const umpire::out_of_memory_error&) {
      threw = true;
    }
    g_fault = 0;
    VH_CHECK(threw == must, key("accepted"), "an allocation of " << n << " bytes (" << what << ") was not refused");
    vh::step("refuse", n, U(d));
    vh::count("refusals");
    audit("a refused allocation");
  }
  void dealloc()
  {
    if (live.empty()) return;
    size_t i = r.below(live.size());
    Block b = live[i];
    verify(b);
    verify_file(b);
    setdir();
    vh::tr("deallocate %zu", b.n);
    try {
      put(b.res, b.p, b.n);
    } catch (const umpire::runtime_error& e) {
      if (!b.gone) vh::fail(key("dealloc"), std::string("deallocation of a live allocation failed: ") + e.what());
      vh::count("removed files reported");
    }
    live.erase(live.begin() + long(i));
    vh::step("dealloc", b.n, b.gone);
    vh::count("deallocations");
    audit(b.gone ? "a deallocation whose file somebody had removed" : "a deallocation");
  }
  void lose()
  {
    // Somebody cleans the directory: the memory must stay usable, and nothing else may suffer.
    std::vector<size_t> c;
    for (size_t i = 0; i < live.size(); ++i) if (!live[i].gone) c.push_back(i);
    if (c.empty()) return;
    Block& b = live[r.pick(c)];
    unlink((dirs[b.dir] + "/" + b.file).c_str());
    b.gone = true;
    vh::tr("somebody removes the file of %zu bytes", b.n);
    vh::step("lose", b.n);
    vh::count("files removed by somebody else");
    audit("a file was removed");
  }
  void intrude()
  {
    // Another process (of another node, or one that crashed) has files of the names that come next.
    if (live.empty()) return;
    const Block& b = live[r.below(live.size())];
    size_t k = b.file.size();
    while (k && isdigit((unsigned char)b.file[k - 1])) --k;
    if (k == b.file.size()) return;
    U top = 0;
    for (auto& d : dirs)
      for (auto& f : list(d))
        if (f.first.compare(0, k, b.file, 0, k) == 0) top = std::max<U>(top, std::strtoull(f.first.c_str() + k, nullptr, 10));
    for (auto& o : live)
      if (o.file.compare(0, k, b.file, 0, k) == 0) top = std::max<U>(top, std::strtoull(o.file.c_str() + k, nullptr, 10));
    U many = 1 + r.below(3);
    for (U i = 1; i <= many; ++i)
      for (size_t d = 0; d < dirs.size(); ++d) {
        std::string n = b.file.substr(0, k) + std::to_string(top + i);
        std::ofstream(dirs[d] + "/" + n) << "bystander";
        stale[d].insert(n);
      }
    vh::step("intrude");
    vh::count("files of others in the way");
  }
  void rewrite()
  {
    if (live.empty()) return;
    Block& b = live[r.below(live.size())];
    verify(b);
    b.seed = r.next();
    fill(b);
    vh::step("rewrite", b.n);
  }
};

static int g_id = 1000;
static void run_direct(vh::Rng& r, U c)
{
  World w(r, c);
  size_t nr = r.range(1, 3);
  for (size_t i = 0; i < nr; ++i)
    w.res.emplace_back(new umpire::resource::FileMemoryResource{umpire::Platform::undefined, "FILE" + std::to_string(i), g_id++, umpire::MemoryResourceTraits{}});
  { void* p = w.res[0]->allocate(1); w.res[0]->deallocate(p, 1); }
  w.fds0 = open_fds();
  bool losing = r.chance(1, 4);
  U steps = r.range(10, 60);
  for (U s = 0; s < steps; ++s) {
    U x = r.below(100);
    if (x < 40) w.alloc();
    else if (x < 75) w.dealloc();
    else if (x < 88) w.refuse();
    else if (x < 92 && losing) w.lose();
    else if (x < 94) w.intrude();
    else w.rewrite();
  }
  for (auto& b : w.live) w.verify(b), w.verify_file(b);
  // Whatever is still live is cleaned up with its resource.
  if (r.chance(1, 2)) while (!w.live.empty()) w.dealloc();
  if (losing) while (!w.live.empty()) w.dealloc();  // a removed file is reported by its deallocation only
  while (!w.res.empty()) {
    int i = int(w.res.size()) - 1;
    w.res.pop_back();
    for (size_t k = w.live.size(); k--;)
      if (w.live[k].res == i) w.live.erase(w.live.begin() + long(k));
    vh::step("destroy", w.live.size());
    w.audit("destruction of a resource");
  }
}

static void run_alloc(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  World w(r, c);
  w.useAlloc = true;
  w.viaAlloc = rm.getAllocator("FILE");
  { void* p = w.viaAlloc.allocate(1); w.viaAlloc.deallocate(p); }
  w.fds0 = open_fds();
  size_t count0 = w.viaAlloc.getAllocationCount();
  U steps = r.range(10, 60);
  bool losing = c == vh::st().start + vh::st().count - 1;
  for (U s = 0; s < steps; ++s) {
    U x = r.below(100);
    if (x < 40) w.alloc();
    else if (x < 75) w.dealloc();
    else if (x < 88) w.refuse();
    else if (x < 90 && losing) w.lose();
    else if (x < 92) w.intrude();
    else w.rewrite();
    size_t sum = 0;
    for (auto& b : w.live) sum += b.n;
    if (!losing) {
      VH_CHECK(w.viaAlloc.getAllocationCount() == count0 + w.live.size(), key("count"), "the allocator counts " << w.viaAlloc.getAllocationCount() - count0 << " allocations, " << w.live.size() << " are live");
      VH_CHECK(w.viaAlloc.getCurrentSize() == sum, key("size"), "the allocator reports " << w.viaAlloc.getCurrentSize() << " bytes, " << sum << " are live");
      if (!w.live.empty()) {
        auto& b = w.live[r.below(w.live.size())];
        VH_CHECK(rm.getSize(b.p) == b.n, key("size"), "getSize gives " << rm.getSize(b.p) << " for an allocation of " << b.n);
      }
    }
  }
  while (!w.live.empty()) w.dealloc();
}

// Memory of this resource cannot be copied: what is refused must leave nothing behind.
static void run_move(vh::Rng& r, U c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  World w(r, c);
  w.useAlloc = true;
  w.viaAlloc = rm.getAllocator("FILE");
  auto host = rm.getAllocator("HOST");
  { void* p = w.viaAlloc.allocate(1); w.viaAlloc.deallocate(p); }
  w.fds0 = open_fds();
  U steps = r.range(10, 40);
  for (U s = 0; s < steps; ++s) {
    U x = r.below(100);
    if (x < 35) { w.alloc(); continue; }
    if (x < 55) { w.dealloc(); continue; }
    if (w.live.empty()) continue;
    Block b = w.live[r.below(w.live.size())];
    size_t hc = host.getAllocationCount(), hs = host.getCurrentSize(), fc = w.viaAlloc.getAllocationCount(), fs = w.viaAlloc.getCurrentSize();
    bool threw = false;
    int how = int(r.below(3));
    int d = w.setdir();
    (void)d;
    auto rsrc = camp::resources::Resource{camp::resources::Host{}};
    void* other = nullptr;
    try {
      if (how == 0) rm.reallocate(b.p, r.range(1, 50000));
      else if (how == 1) rm.reallocate(b.p, r.range(1, 50000), w.viaAlloc);
      else rm.move(b.p, host);
    } catch (const umpire::runtime_error&) {
      threw = true;
    }
    (void)other;
    if (!threw) std::exit((vh::emit_done(), 0));  // this build can: nothing was refused
    vh::tr("refused %s", how == 2 ? "move" : "reallocate");
    VH_CHECK(host.getAllocationCount() == hc && host.getCurrentSize() == hs, "realloc:leak",
             "a refused " << (how == 2 ? "move" : "reallocate") << " left memory allocated from the host");
    VH_CHECK(w.viaAlloc.getAllocationCount() == fc && w.viaAlloc.getCurrentSize() == fs, "realloc:leak",
             "a refused " << (how == 2 ? "move" : "reallocate") << " left file memory allocated or lost the old one");
    w.verify(b);
    vh::step("refused", U(how), b.n);
    vh::count("refused moves and reallocations");
  }
  while (!w.live.empty()) w.dealloc();
}

int main(int argc, char** argv)
{
  return vh::run(argc, argv, "h_file", [](vh::Rng& r, U c) {
    auto& m = vh::st().opt["mode"];
    if (m == "alloc") run_alloc(r, c);
    else if (m == "move") run_move(r, c);
    else run_direct(r, c);
  });
}
