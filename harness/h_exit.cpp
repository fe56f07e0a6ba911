// The end of a process that used the library.  Every case is a process of its
// own that builds allocators over recording resources, works, forgets some
// memory and ends; the parent reads what the resources saw up to the very end
// (a log in shared memory), the exit status and the text that was written.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <sstream>
#include <thread>

#include "umpire/resource/MemoryResource.hpp"
#include "umpire/resource/MemoryResourceFactory.hpp"
#include "umpire/resource/MemoryResourceRegistry.hpp"
#include "umpire/util/make_unique.hpp"
#include "world.hpp"
using namespace world;
using umpire::Allocator;
using umpire::ResourceManager;
using U = std::uintptr_t;

namespace {
enum What { MAKE = 1, GET, PUT, END };
struct Ent { int what, res; U p; size_t n; };
struct Note { char name[40]; size_t bytes; size_t count; int res; int leaf; int mono; };  // what the child expects of one allocator
struct Live { U p; size_t n; int note; char name[24]; };
struct Board {
  volatile size_t n;
  volatile int done;
  int nnotes, nlive;
  size_t refusals;
  Note notes[32];
  Live live[512];
  Ent e[60000];
};
Board* B;
void log(int what, int res, void* p = nullptr, size_t n = 0)
{
  if (B->n < sizeof B->e / sizeof B->e[0]) { B->e[B->n] = Ent{what, res, U(p), n}; B->n = B->n + 1; }
}

class Res : public umpire::resource::MemoryResource {
 public:
  Res(const std::string& name, int id, umpire::MemoryResourceTraits t, int k) : MemoryResource{name, id, t}, m_k{k}, m_canary{new std::string("alive")} { log(MAKE, k); }
  ~Res() override { log(END, m_k); delete m_canary; m_canary = nullptr; }
  void* allocate(size_t n) override
  {
    if (m_canary->size() != 5) std::abort();  // used after its end: the sanitizer sees this read
    if (n > (size_t(1) << 33)) UMPIRE_ERROR(umpire::out_of_memory_error, "too much");
    void* p = std::malloc(n ? n : 1);
    log(GET, m_k, p, n);
    return p;
  }
  void deallocate(void* p, size_t n) override
  {
    if (m_canary->size() != 5) std::abort();
    log(PUT, m_k, p, n);
    std::free(p);
  }
  Platform getPlatform() noexcept override { return Platform::host; }
  bool isAccessibleFrom(Platform p) noexcept override { return p == Platform::host; }

 private:
  int m_k;
  std::string* m_canary;
};
class Fac : public umpire::resource::MemoryResourceFactory {
 public:
  bool isValidMemoryResourceFor(const std::string& n) noexcept override { return n.compare(0, 7, "VEXIT::") == 0; }
  std::unique_ptr<umpire::resource::MemoryResource> create(const std::string& n, int id) override { return create(n, id, getDefaultTraits()); }
  std::unique_ptr<umpire::resource::MemoryResource> create(const std::string& n, int id, umpire::MemoryResourceTraits t) override
  {
    return umpire::util::make_unique<Res>(n, id, t, std::atoi(n.c_str() + 7));
  }
  umpire::MemoryResourceTraits getDefaultTraits() override { umpire::MemoryResourceTraits t; t.tracking = true; return t; }
};

struct A { Allocator a; Kind k; size_t fx; int res; bool parent; bool mono; std::map<U, std::pair<size_t, std::string>> live; std::string name; };

void child(vh::Rng& r)
{
  using namespace umpire::strategy;
  umpire::resource::MemoryResourceRegistry::getInstance().registerMemoryResource(umpire::util::make_unique<Fac>());
  auto& rm = ResourceManager::getInstance();
  std::vector<A> as;
  const int nr = int(r.range(1, 3));
  auto mkres = [&](int i) {
    std::string nm = "VEXIT::" + std::to_string(i + 1);
    as.push_back(A{rm.makeResource(nm), ROOT, 0, i + 1, false, false, {}, nm});
  };
  mkres(0);
  const size_t na = r.range(1, 9);
  int made = 1;
  for (size_t i = 0; i < na; ++i) {
    // resources are also made after allocators of other resources
    if (made < nr && r.chance(1, 2)) mkres(made++);
    size_t pi = r.below(as.size());
    if (as[pi].fx || as[pi].k == SLOT || as[pi].mono) pi = 0;
    Allocator p = as[pi].a;
    static const Kind ks[] = {QUICK, LIST, FIXED, MIXED, LIMIT, ALIGN, TSAFE, NAMED, SHIM, SLOT, MONO, QUICK, LIST, FIXED};
    Kind k = ks[r.below(14)];
    std::string nm = "exit " + std::to_string(i) + " " + kname(k);
    size_t f = r.range(1, 5000), n = r.range(1, 5000), fx = 0;
    Allocator a;
    try {
      switch (k) {
        case QUICK: a = rm.makeAllocator<QuickPool>(nm, p, f, n, 16); break;
        case LIST: a = rm.makeAllocator<DynamicPoolList>(nm, p, f, n, 16); break;
        case FIXED: fx = r.range(8, 200); a = rm.makeAllocator<FixedPool>(nm, p, fx, r.range(1, 100)); break;
        case MIXED: a = rm.makeAllocator<MixedPool>(nm, p, 16, 256, 4096, 4, f, n, 16); break;
        case LIMIT: a = rm.makeAllocator<SizeLimiter>(nm, p, f * 4); break;
        case ALIGN: a = rm.makeAllocator<AlignedAllocator>(nm, p, 64); break;
        case TSAFE: a = rm.makeAllocator<ThreadSafeAllocator>(nm, p); break;
        case NAMED: a = rm.makeAllocator<NamedAllocationStrategy>(nm, p); break;
        case SLOT: a = rm.makeAllocator<SlotPool>(nm, p, r.range(1, 30)); break;
        case MONO: a = rm.makeAllocator<MonotonicAllocationStrategy>(nm, p, f); break;
        default: a = rm.makeAllocator<NamingShim>(nm, p); break;
      }
    } catch (umpire::runtime_error&) {
      B->refusals++;
      continue;
    }
    as[pi].parent = true;
    as.push_back(A{a, k, fx, as[pi].res, false, k == MONO, {}, nm});
  }
  const size_t ops = r.range(0, 80);
  size_t total = 0;
  for (size_t i = 0; i < ops; ++i) {
    A& a = as[r.below(as.size())];
    if (r.chance(3, 5)) {
      size_t n = a.fx ? a.fx : r.range(1, r.chance(1, 8) ? 6000 : 300);
      std::string nm = r.chance(1, 3) ? "block" + std::to_string(i) : "";
      try {
        void* p = nm.empty() ? a.a.allocate(n) : a.a.allocate(nm, n);
        a.live[U(p)] = {n, nm};
        std::memset(p, 7, n);
        ++total;
      } catch (umpire::runtime_error&) {
        B->refusals++;
      }
    } else if (!a.live.empty()) {
      auto it = a.live.begin();
      std::advance(it, r.below(a.live.size()));
      void* p = (void*)it->first;
      a.live.erase(it);
      a.a.deallocate(p);
    } else if (r.chance(1, 4)) a.a.release();
  }
  // what is left behind: nothing, something anywhere, or everything
  int left = int(r.below(3));
  std::set<int> dirty;
  for (auto& a : as) {
    bool keep = left == 2 || (left == 1 && r.chance(1, 3));
    if (!keep) {
      for (auto& l : a.live) a.a.deallocate((void*)l.first);
      a.live.clear();
    }
    Note& t = B->notes[B->nnotes];
    std::snprintf(t.name, sizeof t.name, "%s", a.name.c_str());
    t.bytes = 0;
    t.count = a.live.size();
    t.res = a.res;
    t.leaf = !a.parent;
    t.mono = a.mono;
    for (auto& l : a.live) {
      t.bytes += l.second.first;
      if (B->nlive < 512) {
        Live& v = B->live[B->nlive++];
        v.p = l.first;
        v.n = l.second.first;
        v.note = B->nnotes;
        std::snprintf(v.name, sizeof v.name, "%s", l.second.second.c_str());
      }
    }
    ++B->nnotes;
  }
  if (r.chance(1, 3)) rm.addAlias("exit alias", as[r.below(as.size())].a);
  if (r.chance(1, 3)) rm.setDefaultAllocator(as[r.below(as.size())].a);
  if (r.chance(1, 5)) { Allocator h = rm.getAllocator("HOST"); h.deallocate(h.allocate(0)); }
  B->done = 1;
  as.clear();
  if (r.chance(1, 6)) {
    std::thread t([] { std::exit(0); });
    t.join();
  }
  std::exit(0);
}

std::string slurp(const std::string& f)
{
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

void one(vh::Rng& r, std::uint64_t c)
{
  static std::string dir;
  if (!B) {
    B = static_cast<Board*>(::mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (B == MAP_FAILED) std::abort();
    const char* t = std::getenv("TMPDIR");
    std::string d = std::string(t ? t : "/tmp") + "/umpire-verif-exit-XXXXXX";
    if (!::mkdtemp(&d[0])) std::abort();
    dir = d;
    std::atexit([] { std::string x = dir + "/out"; ::unlink(x.c_str()); ::rmdir(dir.c_str()); });
  }
  B->n = 0;
  B->done = 0;
  B->nnotes = B->nlive = 0;
  B->refusals = 0;
  const std::string out = dir + "/out";
  const bool logging = r.chance(3, 4);
  vh::step("process", c, logging);
  std::fflush(nullptr);
  pid_t pid = ::fork();
  if (pid == 0) {
    dir = "/nonexistent";
    int fd = ::open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    ::dup2(fd, 1);
    ::dup2(fd, 2);
    ::setenv("UMPIRE_OUTPUT_DIR", (out.substr(0, out.rfind('/'))).c_str(), 1);
    if (logging) ::setenv("UMPIRE_LOG_LEVEL", "Error", 1);
    else ::unsetenv("UMPIRE_LOG_LEVEL");
    ::alarm(60);
    child(r);
    ::_exit(3);
  }
  int st = 0;
  ::waitpid(pid, &st, 0);
  std::string text = slurp(out);
  const std::string logfile = dir + "/umpire." + std::to_string(pid) + ".0.log";
  const std::string written = slurp(logfile);
  ::unlink(logfile.c_str());
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    std::string brief;
    std::istringstream is(text);
    std::string line;
    int kept = 0;
    while (std::getline(is, line) && kept < 14)
      if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos || (line.find("    #") == 0) || line.find("what()") != std::string::npos) { brief += line.substr(0, 160) + "\n"; ++kept; }
    VH_CHECK(false, B->done ? "exit:crash" : "exit:work", (B->done ? "the process does not end in order" : "the work before the end fails") << " (status " << st << "): " << brief);
    return;
  }
  vh::evals();
  // what the resources saw
  std::map<int, std::map<U, size_t>> live;
  std::map<int, int> ends, makes;
  size_t given = 0, at_exit = 0;
  for (size_t i = 0; i < B->n; ++i) {
    Ent& e = B->e[i];
    switch (e.what) {
      case MAKE: makes[e.res]++; break;
      case END:
        VH_CHECK(++ends[e.res] == 1, "exit:twice", "resource " << e.res << " is destroyed twice");
        break;
      case GET:
        VH_CHECK(!ends[e.res], "exit:late", "resource " << e.res << " is asked for memory after its end");
        live[e.res][e.p] = e.n;
        ++given;
        break;
      default: {
        VH_CHECK(!ends[e.res], "exit:late", "memory is returned to resource " << e.res << " after its end");
        auto it = live[e.res].find(e.p);
        VH_CHECK(it != live[e.res].end(), "exit:unknown", "resource " << e.res << " is given back memory it did not hand out, or twice");
        VH_CHECK(it->second == e.n, "exit:size", "resource " << e.res << " is given back " << e.n << " bytes of a block of " << it->second);
        live[e.res].erase(it);
        ++at_exit;
      }
    }
  }
  std::map<int, size_t> forgotten;
  std::map<int, bool> slots;
  for (int i = 0; i < B->nnotes; ++i) forgotten[B->notes[i].res] += B->notes[i].count;
  for (auto& m : makes) {
    VH_CHECK(m.second == 1 && ends[m.first] == 1, "exit:resource", "resource " << m.first << " is not destroyed at the end of the process");
    if (!forgotten[m.first])
      VH_CHECK(live[m.first].empty(), "exit:held", "nothing over resource " << m.first << " is allocated any more, but " << live[m.first].size() << " blocks (the first of " << live[m.first].begin()->second << " bytes) are not given back at the end");
  }
  // the report of what was forgotten
  for (int i = 0; i < B->nnotes; ++i) {
    Note& t = B->notes[i];
    std::string want = std::string(t.name) + " Allocator still has ";
    size_t at = written.find(want), n = 0;
    for (size_t q = at; q != std::string::npos; q = written.find(want, q + 1)) ++n;
    if (!logging) {
      VH_CHECK(n == 0, "exit:noise", "a report is written although logging is off");
      continue;
    }
    bool must = t.bytes, may = t.mono || (!t.leaf && forgotten[t.res]);
    if (must) {
      VH_CHECK(n == 1, "exit:report", t.count << " forgotten allocations of '" << t.name << "' are reported " << n << " times");
      size_t v = std::strtoull(written.c_str() + at + want.size(), nullptr, 10);
      VH_CHECK(v == t.bytes || ((t.mono || !t.leaf) && v > t.bytes), "exit:report", "'" << t.name << "' is reported to have " << v << " bytes left, forgotten were " << t.bytes);
      for (int j = 0; j < B->nlive; ++j)
        if (B->live[j].note == i) {
          std::ostringstream o;
          o << "size: " << B->live[j].n << ", range: " << (void*)B->live[j].p << " -- " << (void*)(B->live[j].p + B->live[j].n);
          VH_CHECK(written.find(o.str(), at) != std::string::npos, "exit:report", "the report of '" << t.name << "' lacks \"" << o.str() << "\"");
        }
      vh::count("leaks_reported");
    } else if (!may) VH_CHECK(n == 0, "exit:report", "'" << t.name << "' is reported although nothing of it is left");
    vh::count("reports_judged");
  }
  vh::count("resource_events", B->n);
  vh::count("refusals", B->refusals);
  std::string sg;
  for (int i = 0; i < B->nnotes; ++i) sg += std::string(B->notes[i].name).substr(0, 12) + (B->notes[i].count ? "!" : ".");
  vh::sig(sg);
  (void)given; (void)at_exit;
}
} // namespace
int main(int argc, char** argv) { return vh::run(argc, argv, "exit", one); }
