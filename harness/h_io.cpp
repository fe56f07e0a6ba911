// Diagnostics: OutputBuffer, Logger, error types, log/error streams and files.
#include <dirent.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <cctype>
#include <fstream>
#include <iostream>
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/Logger.hpp"
#include "umpire/util/MPI.hpp"
#include "umpire/util/Macros.hpp"
#include "umpire/util/OutputBuffer.hpp"
#include "umpire/util/backtrace.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/find_first_set.hpp"
#include "umpire/util/io.hpp"
#include "vh.hpp"

using U = std::uint64_t;
using umpire::util::OutputBuffer;
namespace msg = umpire::util::message;

// A destination that records every byte it is given, may refuse bytes, may have
// a put area of its own, and counts (or refuses) syncs.
struct Sink : std::streambuf {
  std::string got;           // bytes that reached the destination, put area excluded
  std::vector<char> area;
  bool refuse{false}, refuse_sync{false};
  unsigned syncs{0};
  explicit Sink(std::size_t buf = 0) : area(buf)
  {
    if (buf) setp(area.data(), area.data() + buf);
  }
  void drain()
  {
    if (pptr() && pptr() > pbase()) { got.append(pbase(), pptr()); setp(area.data(), area.data() + area.size()); }
  }
  std::string all() const { return got + (pptr() ? std::string(pbase(), pptr()) : std::string()); }
  int_type overflow(int_type c) override
  {
    if (refuse) return traits_type::eof();
    drain();
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (!area.empty()) { *pptr() = traits_type::to_char_type(c); pbump(1); }
    else got.push_back(traits_type::to_char_type(c));
    return c;
  }
  int sync() override
  {
    ++syncs;
    if (refuse_sync) return -1;
    drain();
    return 0;
  }
};

static std::string bytes(vh::Rng& r, std::size_t max)
{
  std::string s;
  std::size_t n = r.below(max + 1);
  bool wide = r.chance(1, 2);
  for (std::size_t i = 0; i < n; ++i) {
    U k = r.below(20);
    if (k == 0) s += char(0xff);
    else if (k == 1) s += '\n';
    else if (k == 2) s += '\0';
    else if (wide) s += char(r.below(256));
    else s += char('a' + r.below(26));
  }
  return s;
}
static std::string text(vh::Rng& r, std::size_t max)
{
  static const char alpha[] = "abcXYZ 0129 {}%s%n:[]\"'\\<>#$\t.,;!";
  std::string s;
  std::size_t n = r.below(max + 1);
  for (std::size_t i = 0; i < n; ++i) s += r.chance(1, 25) ? char(0x80 + r.below(128)) : alpha[r.below(sizeof alpha - 1)];
  return s;
}

// ------------------------------------------------------------ OutputBuffer
static void buffer_case(vh::Rng& r)
{
  // prior contents of the storage must not matter
  struct Mem { alignas(OutputBuffer) unsigned char m[sizeof(OutputBuffer)]; };
  std::unique_ptr<Mem> mem(new Mem);
  std::memset(mem->m, r.chance(1, 2) ? 0xA5 : int(r.below(256)), sizeof mem->m);
  auto* ob = new (mem->m) OutputBuffer;
  const int N = 4;
  std::vector<std::unique_ptr<Sink>> sink;
  std::vector<std::unique_ptr<std::ostream>> os;
  std::vector<std::string> want(N);
  for (int i = 0; i < N; ++i) {
    sink.emplace_back(new Sink(r.chance(1, 3) ? r.range(1, 9) : 0));
    os.emplace_back(new std::ostream(sink.back().get()));
  }
  int con = -1, fil = -1;
  bool dead = false;
  std::size_t ops = r.range(10, 120);
  auto check = [&](const char* when) {
    for (int i = 0; i < N; ++i)
      VH_CHECK(sink[i]->all() == want[i], "buf:content", "after " << when << " destination " << i << " holds " << sink[i]->all().size() << " bytes, expected " << want[i].size()
               << (sink[i]->all().size() == want[i].size() ? " (different bytes)" : ""));
  };
  std::ostream front(ob);
  for (std::size_t k = 0; k < ops && !dead; ++k) {
    switch (r.below(9)) {
      case 0: con = int(r.below(N + 1)) - 1; ob->setConsoleStream(con < 0 ? nullptr : os[con].get()); vh::step("console", U(con + 1)); vh::tr("console -> %d", con); break;
      case 1: {
        fil = int(r.below(N + 1)) - 1;
        ob->setFileStream(fil < 0 ? nullptr : os[fil].get());
        vh::step("file", U(fil + 1));
        vh::tr("file -> %d", fil);
        break;
      }
      case 2: {  // one byte straight in
        unsigned char c = r.chance(1, 3) ? 0xff : (unsigned char)r.below(256);
        bool ok = !((con >= 0 && sink[con]->refuse) || (fil >= 0 && sink[fil]->refuse));
        // a refusing destination with room in its own buffer does not refuse yet
        if (!ok && ((con >= 0 && !sink[con]->area.empty()) || (fil >= 0 && !sink[fil]->area.empty()))) break;
        if (con >= 0 && !sink[con]->refuse) want[con] += char(c);
        if (fil >= 0 && !sink[fil]->refuse) want[fil] += char(c);
        int x = ob->sputc(char(c));
        vh::step("sputc", c, ok);
        vh::tr("sputc 0x%02x con=%d fil=%d ok=%d -> %d", c, con, fil, ok, x);
        VH_CHECK((x != EOF) == ok, "buf:result", "writing byte " << int(c) << " reports " << x << " though " << (ok ? "no" : "an") << " attached destination failed");
        vh::count(ok ? "bytes_ok" : "bytes_refused");
        break;
      }
      case 3: case 4: {  // a run of bytes, when nothing refuses
        if ((con >= 0 && sink[con]->refuse) || (fil >= 0 && sink[fil]->refuse)) break;
        std::string s = bytes(r, 60);
        if (con >= 0) want[con] += con == fil ? std::string() : s;
        if (fil >= 0 && fil != con) want[fil] += s;
        if (con >= 0 && con == fil) {
          // attached twice: every byte arrives twice; the order inside one write is not promised, so use single bytes
          for (char c : s) { ob->sputc(c); want[con] += std::string(2, c); }
        } else if (r.chance(1, 2)) {
          std::streamsize n = ob->sputn(s.data(), std::streamsize(s.size()));
          VH_CHECK(n == std::streamsize(s.size()), "buf:result", "sputn of " << s.size() << " bytes accepted " << n);
        } else {
          front.write(s.data(), std::streamsize(s.size()));
          VH_CHECK(front.good(), "buf:result", "a stream over the buffer failed without cause");
        }
        vh::step("run", vh::hash_str(s));
        vh::tr("run of %zu con=%d fil=%d", s.size(), con, fil);
        vh::count("runs");
        break;
      }
      case 5: {
        bool ok = !((con >= 0 && sink[con]->refuse_sync) || (fil >= 0 && sink[fil]->refuse_sync));
        std::vector<unsigned> s0;
        for (auto& s : sink) s0.push_back(s->syncs);
        int x = ob->pubsync();
        vh::step("sync", ok);
        vh::tr("sync con=%d fil=%d ok=%d -> %d", con, fil, ok, x);
        VH_CHECK((x == 0) == ok, "buf:sync", "sync returns " << x << " though " << (ok ? "no" : "an") << " attached destination failed");
        if (!ok) VH_CHECK(x == -1, "buf:sync", "a failing sync returns " << x);
        for (int i = 0; i < N; ++i) {
          bool att = i == con || i == fil;
          VH_CHECK(att ? sink[i]->syncs > s0[i] : sink[i]->syncs == s0[i], "buf:sync", "sync " << (att ? "did not reach attached" : "reached detached") << " destination " << i);
          if (att && !sink[i]->refuse_sync) VH_CHECK(sink[i]->got == want[i], "buf:sync", "bytes are still pending in an attached destination after sync");
        }
        break;
      }
      case 6: {
        int i = int(r.below(N));
        if (sink[i]->area.empty()) sink[i]->refuse = r.chance(1, 2);
        sink[i]->refuse_sync = r.chance(1, 3);
        vh::step("refuse", U(i), sink[i]->refuse);
        break;
      }
      case 7: {
        int x = ob->overflow(EOF);
        vh::step("eof");
        VH_CHECK(x != EOF, "buf:result", "overflow(EOF) reports failure");
        break;
      }
      default: {
        if ((con >= 0 && (sink[con]->refuse || sink[con]->refuse_sync)) || (fil >= 0 && (sink[fil]->refuse || sink[fil]->refuse_sync)) || con == fil) break;
        std::string s = text(r, 40);
        front << s << 42 << std::endl;
        s += "42\n";
        if (con >= 0) want[con] += s;
        if (fil >= 0) want[fil] += s;
        vh::step("line", vh::hash_str(s));
        VH_CHECK(front.good(), "buf:result", "a stream over the buffer failed without cause");
        break;
      }
    }
    check("an operation");
  }
  std::vector<unsigned> s0;
  for (auto& s : sink) s0.push_back(s->syncs);
  ob->~OutputBuffer();
  for (int i = 0; i < N; ++i) {
    bool att = i == con || i == fil;
    VH_CHECK(att ? sink[i]->syncs > s0[i] : sink[i]->syncs == s0[i], "buf:destroy", "destruction " << (att ? "did not sync attached" : "touched detached") << " destination " << i);
  }
  check("destruction");
  vh::sig("buffer|" + std::to_string(con) + "|" + std::to_string(fil));
}

// ------------------------------------------------------------------ Logger
static const char* LEVELS[4] = {"ERROR", "WARNING", "INFO", "DEBUG"};
struct Capture {
  Sink sink;
  std::streambuf* old;
  Capture() : old(umpire::log().rdbuf(&sink)) {}
  ~Capture() { umpire::log().rdbuf(old); }
  std::string take()
  {
    umpire::log().flush();
    std::string s = sink.all();
    sink.got.clear();
    return s;
  }
};
static void logger_case(vh::Rng& r)
{
  auto* L = umpire::util::Logger::getActiveLogger();
  VH_CHECK(L && L == umpire::util::Logger::getActiveLogger(), "log:single", "the active logger changes");
  Capture cap;
  int cur = -1;
  std::size_t ops = r.range(10, 60);
  for (std::size_t i = 0; i < ops; ++i) {
    if (cur < 0 || r.chance(1, 4)) {
      cur = int(r.below(8));
      L->setLoggingMsgLevel(msg::Level(cur));
      vh::step("level", U(cur));
      vh::tr("level %d", cur);
      VH_CHECK(cap.take().empty(), "log:noise", "setting the level writes output");
    }
    for (int l = 0; l < 8; ++l)
      VH_CHECK(L->logLevelEnabled(msg::Level(l)) == (l < 4 && l <= cur), "log:enabled", "with level " << cur << ", level " << l << " is reported " << (L->logLevelEnabled(msg::Level(l)) ? "enabled" : "disabled"));
    int l = int(r.below(r.chance(1, 5) ? 8 : 4));
    std::string m = text(r, r.chance(1, 20) ? 4000 : 60), f = "dir/" + text(r, 12) + ".cpp";
    if (!m.empty() && r.chance(1, 6)) m[r.below(m.size())] = '\0';
    int line = int(r.next());
    L->logMessage(msg::Level(l), m, f, line);
    unsigned s0 = cap.sink.syncs;
    std::string out = cap.take();
    vh::step("log", U(l), vh::hash_str(m));
    if (l < 4 && l <= cur) {
      vh::count("messages_written");
      VH_CHECK(out.find(std::string("[") + LEVELS[l] + "]") == 0, "log:format", "a message does not start with its level: " << out.substr(0, 60));
      VH_CHECK(out.find(f + ":" + std::to_string(line)) != std::string::npos, "log:format", "a message does not name its place: " << out.substr(0, 90));
      VH_CHECK(out.size() > m.size() && out.compare(out.size() - m.size() - 1, std::string::npos, m + "\n") == 0, "log:format", "a message is not complete: " << out);
      VH_CHECK(out.size() <= m.size() + f.size() + 40, "log:format", "a message is written more than once or with something else");
      VH_CHECK(s0 >= 1, "log:flush", "a message is not flushed");
    } else {
      vh::count("messages_suppressed");
      VH_CHECK(out.empty(), "log:filter", "with level " << cur << " a message of level " << l << " is written");
    }
    // the macro evaluates its message exactly when it is written
    int ev = 0;
    auto side = [&]() { ++ev; return m; };
    int k = int(r.below(4));
    switch (k) {
      case 0: UMPIRE_LOG(Error, side()); break;
      case 1: UMPIRE_LOG(Warning, side()); break;
      case 2: UMPIRE_LOG(Info, side()); break;
      default: UMPIRE_LOG(Debug, side()); break;
    }
    out = cap.take();
    VH_CHECK(ev == (k <= cur ? 1 : 0), "log:macro", "UMPIRE_LOG evaluated its message " << ev << " times at level " << cur);
    VH_CHECK(out.empty() == !(k <= cur), "log:macro", "UMPIRE_LOG and the level disagree");
    if (k <= cur) VH_CHECK(out.find(LEVELS[k]) != std::string::npos && out.find(m) != std::string::npos && out.find("h_io.cpp") != std::string::npos, "log:macro", "UMPIRE_LOG lost something: " << out);
  }
  vh::sig("logger|" + std::to_string(cur));
}

// ------------------------------------------------------------------ errors
template <typename E>
static void error_type(vh::Rng& r, const char* nm)
{
  auto* L = umpire::util::Logger::getActiveLogger();
  int cur = int(r.below(4));
  L->setLoggingMsgLevel(msg::Level(cur));
  Capture cap;
  std::string m = text(r, r.chance(1, 20) ? 3000 : 80);
  bool caught = false;
  int ln = 0, evald = 0;
  auto once = [&]() { ++evald; return m; };
  vh::step(nm, vh::hash_str(m));
  unsigned s0 = cap.sink.syncs;
  std::string kept;
  std::unique_ptr<E> copy;
  try {
    ln = __LINE__ + 1;
    UMPIRE_ERROR(E, once());
  } catch (const E& e) {
    caught = true;
    VH_CHECK(typeid(e) == typeid(E), "err:type", nm << " thrown as something else");
    kept = e.what();
    copy.reset(new E(e));
  } catch (...) {
  }
  VH_CHECK(caught, "err:type", nm << " cannot be caught as itself");
  VH_CHECK(evald == 1, "err:once", "the message of an error is computed " << evald << " times");
  VH_CHECK(kept.find(m) != std::string::npos, "err:what", nm << "::what() does not contain its message");
  VH_CHECK(kept.find("h_io.cpp:" + std::to_string(ln)) != std::string::npos, "err:what", nm << "::what() does not name the line it was thrown at (" << ln << "): " << kept.substr(0, 200));
  VH_CHECK(kept == copy->what(), "err:copy", "a copy of " << nm << " says something else");
  VH_CHECK(copy->message().find(m) != std::string::npos, "err:copy", "message() of a copied " << nm << " lost the message");
  {
    umpire::runtime_error* b = copy.get();
    std::exception* x = copy.get();
    VH_CHECK(std::string(b->what()) == kept && std::string(x->what()) == kept, "err:hierarchy", "what() through a base class differs");
    bool asstd = false;
    try { throw *copy; } catch (const std::runtime_error& e) { asstd = std::string(e.what()) == kept; }
    VH_CHECK(asstd, "err:hierarchy", nm << " is not a std::runtime_error");
  }
  E moved(std::move(*copy));
  copy.reset();
  VH_CHECK(kept == moved.what(), "err:copy", "a moved " << nm << " says something else");
  std::string out = cap.take();
  VH_CHECK(out.find("[ERROR]") == 0 && out.find(m) != std::string::npos, "err:logged", "an error is not in the log");
  VH_CHECK(cap.sink.syncs > s0, "err:flush", "the streams are not flushed when an error is thrown");
  vh::count("errors_thrown");
}
static void errors_case(vh::Rng& r)
{
  for (int i = 0; i < 6; ++i) switch (r.below(5)) {
      case 0: error_type<umpire::runtime_error>(r, "runtime_error"); break;
      case 1: error_type<umpire::out_of_memory_error>(r, "out_of_memory_error"); break;
      case 2: error_type<umpire::unknown_pointer_error>(r, "unknown_pointer_error"); break;
      case 3: error_type<umpire::resource_error>(r, "resource_error"); break;
      default: {
        umpire::util::AllocationMap map;
        std::vector<std::uintptr_t> bases;
        for (U k = r.below(4); k; --k) {
          std::uintptr_t b = (r.next() & 0x7fffffffff00ull) | 0x100;
          map.insert(reinterpret_cast<void*>(b), umpire::util::AllocationRecord{reinterpret_cast<void*>(b), 16, nullptr});
          bases.push_back(b);
        }
        std::uintptr_t q = (r.next() & 0x7fffffffffffull) | 0x1000000;
        bool hit = false;
        for (auto b : bases) hit |= q >= b && q < b + 16;
        if (hit) break;
        bool ok = false;
        void* got = nullptr;
        std::string w;
        try { map.find(reinterpret_cast<void*>(q)); } catch (umpire::unknown_pointer_error& e) { ok = true; got = e.get_pointer(); w = e.what(); }
        vh::step("unknown", q);
        char hex[32];
        std::snprintf(hex, sizeof hex, "%lx", (unsigned long)q);
        VH_CHECK(ok, "err:unknown", "looking up an unknown pointer does not throw unknown_pointer_error");
        VH_CHECK(got == reinterpret_cast<void*>(q), "err:unknown", "unknown_pointer_error::get_pointer() is " << got << ", looked up 0x" << hex);
        VH_CHECK(w.find(hex) != std::string::npos, "err:unknown", "the error does not name the pointer");
        vh::count("unknown_pointers");
      }
    }
  // out_of_memory_error through an allocator
  auto& rm = umpire::ResourceManager::getInstance();
  auto h = rm.getAllocator("HOST");
  std::size_t n = (std::size_t(1) << 47) + r.below(1000000);
  bool ok = false;
  try { h.deallocate(h.allocate(n)); } catch (umpire::out_of_memory_error& e) {
    ok = true;
    VH_CHECK(e.requested_size() == n && e.get_allocator_id() == h.getId(), "err:oom", "out_of_memory_error says " << e.requested_size() << " bytes of allocator " << e.get_allocator_id());
    umpire::out_of_memory_error c(e);
    VH_CHECK(c.requested_size() == n && c.get_allocator_id() == h.getId(), "err:oom", "a copied out_of_memory_error lost what it carries");
  }
  VH_CHECK(ok, "err:oom", "no out_of_memory_error");
  vh::sig("errors");
}

// ----------------------------------------------------- names, bits, backtrace
static std::string scratch() { const char* s = std::getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
static void rmtree(const std::string& d)
{
  if (d.compare(0, scratch().size(), scratch()) != 0) return;
  if (DIR* h = opendir(d.c_str())) {
    while (auto* e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d + "/" + n;
      struct stat s;
      if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) rmtree(p);
      else unlink(p.c_str());
    }
    closedir(h);
  }
  rmdir(d.c_str());
}
static std::string fresh_dir(const char* tag)
{
  static int n = 0;
  std::string d = scratch() + "/" + tag + std::to_string(getpid()) + "_" + std::to_string(n++);
  mkdir(d.c_str(), 0755);
  return d;
}
static std::string slurp(const std::string& p)
{
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static bool exists(const std::string& p) { struct stat s; return !lstat(p.c_str(), &s); }
static void files_case(vh::Rng& r)
{
  std::string d = fresh_dir("names");
  std::string base = "b" + std::string(r.below(30), 'x') + (r.chance(1, 3) ? ".y" : ""), ext = r.chance(1, 2) ? "log" : "error";
  int pid = int(r.below(100000));
  std::set<std::string> made;
  auto nm = [&](int i) { return d + "/" + base + "." + std::to_string(pid) + "." + std::to_string(i) + "." + ext; };
  std::set<int> used;
  for (U k = r.below(12); k; --k) { int i = int(r.below(14)); used.insert(i); std::ofstream(nm(i)) << "keep" << i; }
  for (int k = 0; k < 10; ++k) {
    std::string f = umpire::util::make_unique_filename(d, base, pid, ext);
    vh::step("unique", used.size());
    VH_CHECK(!exists(f), "name:unique", "make_unique_filename returned a file that exists: " << f);
    bool shape = f.compare(0, d.size() + base.size() + 1, d + "/" + base) == 0 && f.size() > ext.size() && f.compare(f.size() - ext.size() - 1, std::string::npos, "." + ext) == 0 && f.find("." + std::to_string(pid) + ".") != std::string::npos;
    VH_CHECK(shape, "name:shape", "make_unique_filename lost a part of the name: " << f);
    VH_CHECK(f.substr(0, f.rfind('/')) == d, "name:shape", "the file is outside its directory: " << f);
    std::ofstream(f) << "mine";
    VH_CHECK(made.insert(f).second, "name:unique", "make_unique_filename repeated itself");
    VH_CHECK(umpire::util::file_exists(f) && !umpire::util::directory_exists(f), "name:exists", "an existing file is not recognised");
    vh::count("unique_names");
  }
  for (int i : used) VH_CHECK(slurp(nm(i)) == "keep" + std::to_string(i), "name:kept", "an existing file was changed");
  VH_CHECK(umpire::util::directory_exists(d), "name:exists", "an existing directory is not recognised");
  VH_CHECK(!umpire::util::directory_exists(d + "/none") && !umpire::util::file_exists(d + "/none") && !umpire::util::file_exists(d + "/no/dir"), "name:exists", "a missing path is reported to exist");
  std::ofstream(d + "/empty");
  VH_CHECK(umpire::util::file_exists(d + "/empty") && !umpire::util::directory_exists(d + "/empty"), "name:exists", "an empty file is not recognised");
  if (symlink(d.c_str(), (d + "/ln").c_str()) == 0) VH_CHECK(umpire::util::directory_exists(d + "/ln"), "name:exists", "a link to a directory is not recognised");
  rmtree(d);

  auto ref = [](int x) { unsigned u = unsigned(x); for (int i = 0; i < 32; ++i) if (u >> i & 1) return i + 1; return 0; };
  auto t = [&](int x) { VH_CHECK(umpire::util::find_first_set(x) == ref(x), "bits:ffs", "find_first_set(" << x << ") = " << umpire::util::find_first_set(x)); };
  t(0);
  for (int i = 0; i < 32; ++i) { t(int(1u << i)); t(int(~((1u << i) - 1))); for (int j = 0; j < 4; ++j) t(int((1u << i) | (unsigned(r.next()) << i))); }
  for (int k = 0; k < 300; ++k) t(int(unsigned(r.next()) << r.below(32)));
  vh::count("ffs_values", 500);
  vh::sig("files|" + std::to_string(used.size()));
}

// ---------------------------------------------------------- whole processes
// A child with a chosen environment uses the library; the parent judges what
// the child left in its log file, on its standard output and standard error.
struct Child {
  std::string dir, out, err, rep;
  int status{0};
  template <typename F>
  void run(F f)
  {
    rep = dir + "/child.report";
    out = dir + "/child.out";
    err = dir + "/child.err";
    pid_t p = fork();
    if (p == 0) {
      int o = open(out.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600), e = open(err.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
      dup2(o, 1);
      dup2(e, 2);
      std::string w;
      try { w = f(); } catch (const vh::Violation& v) { w = "V" + v.key + "\x01" + v.msg; } catch (const std::exception& x) { w = std::string("X") + x.what(); }
      int fd = open(rep.c_str(), O_CREAT | O_WRONLY, 0600);
      if (::write(fd, w.data(), w.size()) < 0) _exit(9);
      close(fd);
      _exit(0);
    }
    pid_ = p;
    waitpid(p, &status, 0);
    std::string w = slurp(rep);
    if (!w.empty() && w[0] == 'V') {
      auto q = w.find('\x01');
      vh::fail(w.substr(1, q - 1), w.substr(q + 1));
    }
    result = w;
    VH_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "proc:crash", "the process died (status " << status << "): " << slurp(err).substr(0, 1500));
  }
  pid_t pid_{0};
  std::string result;
};

static void env_case(vh::Rng& r)
{
  // 1. the level the environment asks for
  std::string v;
  int want = 2;  // Info when unset or not understood
  bool set = true;
  U k = r.below(10);
  if (k < 6) {
    int l = int(r.below(4));
    v = LEVELS[l];
    for (auto& c : v) if (r.chance(1, 2)) c = char(std::tolower(c));
    want = l;
    if (r.chance(1, 4)) {
      switch (r.below(4)) {
        case 0: v += ' '; break;
        case 1: v.pop_back(); break;
        case 2: v = " " + v; break;
        default: v += v.back(); break;
      }
      want = 2;
      for (int i = 0; i < 4; ++i) if (!strcasecmp(v.c_str(), LEVELS[i])) want = i;
    }
  } else if (k == 6) v = "";
  else if (k == 7) { v = text(r, 10); while (v.find('\0') != std::string::npos) v.erase(v.find('\0'), 1); for (int i = 0; i < 4; ++i) if (!strcasecmp(v.c_str(), LEVELS[i])) want = i; }
  else set = false;
  std::string d = fresh_dir("proc");
  std::string base = r.chance(1, 2) ? "umpire" : "n" + std::to_string(r.below(1000));
  int pre = int(r.below(4));
  bool dir_missing = r.chance(1, 5), use_mpi = r.chance(1, 2), dir_is_file = !dir_missing && r.chance(1, 8);
  std::string od = d + "/o";
  if (!dir_missing) { if (dir_is_file) std::ofstream(od) << "x"; else mkdir(od.c_str(), 0755); }
  std::string bt = r.pick(std::vector<std::string>{"ON", "on", "Off", "", "1", "yes,on", "oN"});
  bool bton = strcasestr(bt.c_str(), "on") != nullptr;
  std::string m1 = "first " + text(r, 50), m2 = "second " + text(r, 50);
  bool as_rm = r.chance(1, 3);  // through the ResourceManager rather than directly
  vh::step("env", vh::hash_str(v), U(want));
  vh::tr("UMPIRE_LOG_LEVEL=%s set=%d expect level %d missing=%d mpi=%d file=%d rm=%d pre=%d", v.c_str(), set, want, dir_missing, use_mpi, dir_is_file, as_rm, pre);
  Child c;
  c.dir = d;
  c.run([&]() -> std::string {
    if (set) setenv("UMPIRE_LOG_LEVEL", v.c_str(), 1); else unsetenv("UMPIRE_LOG_LEVEL");
    setenv("UMPIRE_OUTPUT_DIR", od.c_str(), 1);
    if (base != "umpire") setenv("UMPIRE_OUTPUT_BASENAME", base.c_str(), 1); else unsetenv("UMPIRE_OUTPUT_BASENAME");
    setenv("UMPIRE_BACKTRACE", bt.c_str(), 1);
    if (!dir_missing && !dir_is_file)
      for (int i = 0; i < pre; ++i) std::ofstream(od + "/" + base + "." + std::to_string(getpid()) + "." + std::to_string(i) + ".log") << "older" << i;
    auto* L = umpire::util::Logger::getActiveLogger();
    for (int i = 0; i < 4; ++i) VH_CHECK(L->logLevelEnabled(msg::Level(i)) == (i <= want), "env:level", "UMPIRE_LOG_LEVEL=" << (set ? v : "(unset)") << ": level " << i << " is " << (i <= want ? "not " : "") << "enabled");
    {
      umpire::util::backtrace b, e;
      using T = umpire::util::backtracer<umpire::util::trace_optional>;
      T::get_backtrace(b);
      VH_CHECK(b.frames.empty() == !bton, "env:backtrace", "UMPIRE_BACKTRACE=" << bt << " records " << b.frames.size() << " frames");
      std::string s = T::print(b), s2 = T::print(e);
      VH_CHECK(bton ? s.find(std::to_string(b.frames.size()) + " frames") != std::string::npos : s.find("Off") != std::string::npos, "env:backtrace", "UMPIRE_BACKTRACE=" << bt << " prints " << s.substr(0, 60));
      VH_CHECK(!s2.empty(), "env:backtrace", "an empty backtrace prints nothing");
    }
    if (use_mpi) umpire::util::MPI::initialize();
    std::string init = "ok";
    try {
      if (as_rm) umpire::ResourceManager::getInstance();
      else umpire::util::initialize_io(set);
    } catch (const umpire::runtime_error&) { init = "refused"; }
    if (init != "ok") return init;
    for (int i = 0; i < 4; ++i) L->logMessage(msg::Level(i), m1 + std::to_string(i), "place.cpp", 7);
    umpire::error() << "complaint " << m1 << std::endl;
    try { UMPIRE_ERROR(umpire::runtime_error, m2); } catch (umpire::runtime_error&) {}
    // what an error wrote is on disk by now: the process ends without flushing anything
    return init;
  });
  bool refuse = (dir_missing && !use_mpi) || dir_is_file;
  VH_CHECK((c.result == "refused") == refuse, "io:dir", "with an output directory that is " << (dir_missing ? "missing" : dir_is_file ? "a file" : "there") << (use_mpi ? " (MPI on)" : "") << " the library says '" << c.result << "'");
  if (!refuse) {
    std::string lf = od + "/" + base + "." + std::to_string(c.pid_) + "." + std::to_string(dir_missing ? 0 : pre) + ".log";
    std::set<std::string> fs;
    if (DIR* h = opendir(od.c_str())) { while (auto* e = readdir(h)) if (e->d_name[0] != '.') fs.insert(e->d_name); closedir(h); }
    std::size_t logs = fs.size();
    VH_CHECK(logs == (dir_missing ? 0u : unsigned(pre)) + (set ? 1u : 0u), "io:file", logs << " files in the output directory, expected " << pre << " older and " << set << " new");
    for (int i = 0; !dir_missing && i < pre; ++i) VH_CHECK(slurp(od + "/" + base + "." + std::to_string(c.pid_) + "." + std::to_string(i) + ".log") == "older" + std::to_string(i), "io:file", "an older log was overwritten");
    if (set) {
      VH_CHECK(exists(lf), "io:file", "no log file " << lf);
      std::string s = slurp(lf);
      for (int i = 0; i < 4; ++i) {
        std::size_t n = 0;
        std::string line = std::string("[") + LEVELS[i] + "][place.cpp:7]:" + m1 + std::to_string(i) + "\n";
        for (std::size_t p = s.find(line); p != std::string::npos; p = s.find(line, p + 1)) ++n;
        VH_CHECK(n == (i <= want ? 1u : 0u), "io:log", "the log file holds the " << LEVELS[i] << " message " << n << " times with level " << LEVELS[want]);
      }
      VH_CHECK(s.find(m2) != std::string::npos, "io:flush", "an error that was thrown is not in the log file");
      VH_CHECK(s.find("complaint " + m1) == std::string::npos, "io:mix", "text for the error stream is in the log");
      vh::count("log_files");
    }
    std::string so = slurp(c.out), se = slurp(c.err);
    // before initialisation the log goes to standard output; afterwards nothing does
    VH_CHECK(so.find("place.cpp") == std::string::npos && so.find("complaint ") == std::string::npos, "io:stdout", "the library wrote to standard output: " << so.substr(0, 100));
    VH_CHECK(se.find("complaint " + m1) != std::string::npos, "io:stderr", "text for the error stream did not reach standard error");
    VH_CHECK(se.find(m1 + "0\n") == std::string::npos || se.find("place.cpp") == std::string::npos, "io:mix", "log text is on standard error");
  }
  rmtree(d);

  // 2. finalize: everything written is out, nothing is referenced afterwards
  std::string d2 = fresh_dir("fin");
  std::string t1 = "one " + text(r, 60), t2 = "two " + text(r, 60);
  Child f;
  f.dir = d2;
  bool again = r.chance(1, 2);
  vh::step("finalize", again);
  f.run([&]() -> std::string {
    setenv("UMPIRE_LOG_LEVEL", "debug", 1);
    setenv("UMPIRE_OUTPUT_DIR", d2.c_str(), 1);
    unsetenv("UMPIRE_OUTPUT_BASENAME");
    auto own = std::unique_ptr<Sink>(new Sink);
    auto* old = std::cerr.rdbuf(own.get());
    umpire::util::initialize_io(true);
    umpire::log() << t1 << "\n";
    umpire::error() << t1 << "\n";
    umpire::util::finalize_io();
    VH_CHECK(own->got == t1 + "\n", "io:finalize", "the error stream lost text at finalize");
    std::cerr.rdbuf(old);
    own.reset();  // the custom buffer is gone: nothing may touch it any more
    umpire::log() << t2 << std::endl;
    umpire::error() << t2 << std::endl;
    umpire::util::flush_files();
    std::string s = slurp(d2 + "/umpire." + std::to_string(getpid()) + ".0.log");
    VH_CHECK(s.find(t1) != std::string::npos, "io:finalize", "the log lost text at finalize");
    VH_CHECK(s.find("two ") == std::string::npos || t1.find("two ") != std::string::npos, "io:finalize", "the log is still attached after finalize");
    if (again) {
      umpire::util::initialize_io(true);
      umpire::log() << t2 << "\n";
      umpire::error() << t2 << std::endl;
      umpire::util::flush_files();
      s = slurp(d2 + "/umpire." + std::to_string(getpid()) + ".0.log");
      VH_CHECK(s.find(t2) != std::string::npos, "io:finalize", "the log is not attached after initialising again");
    }
    return "ok";
  });
  VH_CHECK(f.result == "ok", "io:finalize", "initialise/finalise failed: " << f.result);
  std::string se = slurp(f.err);
  VH_CHECK((se.find(t2) != std::string::npos) == again, "io:finalize", "text reached standard error " << (again ? "not at all" : "after finalize"));
  vh::count("finalized");
  rmtree(d2);
  vh::sig("env|" + std::to_string(want) + "|" + std::to_string(dir_missing) + std::to_string(use_mpi) + std::to_string(set) + std::to_string(as_rm));
}

static void one_case(vh::Rng& r, std::uint64_t)
{
  const std::string m = vh::st().opt["mode"];
  if (m == "buffer") buffer_case(r);
  else if (m == "logger") logger_case(r);
  else if (m == "errors") errors_case(r);
  else if (m == "files") files_case(r);
  else env_case(r);
}
int main(int argc, char** argv) { return vh::run(argc, argv, "io", one_case); }
