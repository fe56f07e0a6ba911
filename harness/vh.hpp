// Common runtime for every monitor: deterministic RNG, violation reporting,
// evidence counters, case loop.  A harness is one executable; the driver
// (/verif/check.py) runs it with
//   --seed S --start A --count N [--prop Cxx] [--tier quick|thorough] [--opt k=v]...
// and reads JSON lines from the descriptor $VERIF_FD (default: stdout).
#ifndef VERIF_VH_HPP
#define VERIF_VH_HPP
#include <fnmatch.h>

#include <fcntl.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace vh {

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  std::uint64_t next()
  {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  std::uint64_t range(std::uint64_t a, std::uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename C>
  auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
  Rng r(a ^ (b * 0x9E3779B97F4A7C15ull + 0x7F4A7C15ull));
  return r.next();
}
inline std::uint64_t hash_str(const std::string& s)
{
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

inline std::string jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

struct Violation {
  std::string key, msg;
};

struct State {
  std::string harness, prop, tier{"quick"};
  std::uint64_t seed{1}, start{0}, count{1}, cur_case{0};
  std::map<std::string, std::string> opt;
  std::set<std::string> known;   // violation keys listed as known findings
  std::map<std::string, std::uint64_t> known_hits;
  std::map<std::string, std::string> known_msg;
  std::set<std::string> cats;    // categories that decide this property (empty: all)
  std::map<std::string, std::uint64_t> ignored;
  std::vector<Violation> pending;
  std::mutex mu;
  std::uint64_t evals{0};
  std::map<std::string, std::uint64_t> counters;
  std::set<std::uint64_t> sigs;   // distinct observed states
  std::set<std::uint64_t> csigs;  // distinct non-trivial cases
  std::uint64_t csig{0}, csteps{0};
  std::vector<std::string> samples;
  std::vector<std::string> trace;  // textual trace of the current case
  bool tracing{false};
  int fd{1};
};
inline State& st()
{
  static State* s = new State;
  return *s;
}

inline void emit(const std::string& line)
{
  std::string l = line + "\n";
  const char* p = l.data();
  std::size_t n = l.size();
  while (n) {
    ssize_t w = ::write(st().fd, p, n);
    if (w <= 0) break;
    p += w;
    n -= std::size_t(w);
  }
}

// Evaluate one oracle decision.
inline void evals(std::uint64_t n = 1) { st().evals += n; }
inline void count(const char* k, std::uint64_t n = 1) { st().counters[k] += n; }
// One step of the current case: what was done and how it came out (no addresses).
// A case with at least one step is non-trivial; two cases are distinct when
// their step sequences differ.
inline void step(const char* what, std::uint64_t a = 0, std::uint64_t b = 0)
{
  std::uint64_t h = 1469598103934665603ull;
  for (; *what; ++what) { h ^= (unsigned char)*what; h *= 1099511628211ull; }
  st().csig = (st().csig ^ h ^ (a * 0x9E3779B97F4A7C15ull) ^ (b * 0xC2B2AE3D27D4EB4Full)) * 1099511628211ull + 0x9E37;
  st().csig ^= st().csig >> 29;
  st().csteps++;
}
// Record a distinct observed state/scenario signature.
inline void sig(const std::string& s)
{
  if (st().sigs.insert(hash_str(s)).second && st().samples.size() < 12) st().samples.push_back(s);
}

inline std::string category(const std::string& key)
{
  auto p = key.find(':');
  return p == std::string::npos ? key : key.substr(0, p);
}
inline bool relevant(const std::string& key)
{
  if (st().cats.empty() || st().cats.count(category(key))) return true;
  for (auto& c : st().cats)  // an entry with a colon is a pattern for whole keys
    if (c.find(':') != std::string::npos && ::fnmatch(c.c_str(), key.c_str(), 0) == 0) return true;
  return false;
}
inline bool soft(const std::string& key, const std::string& msg)
{
  if (st().known.count(key)) {
    st().known_hits[key]++;
    st().known_msg[key] = msg;
    return true;
  }
  if (!relevant(key)) {
    st().ignored[key]++;
    return true;
  }
  return false;
}

// Flag from a context that must not throw (destructors, noexcept callbacks).
inline void flag(const std::string& key, const std::string& msg)
{
  std::lock_guard<std::mutex> l(st().mu);
  if (soft(key, msg)) return;
  if (st().pending.size() < 16) st().pending.push_back({key, msg});
}
inline void fail(const std::string& key, const std::string& msg)
{
  {
    std::lock_guard<std::mutex> l(st().mu);
    if (soft(key, msg)) return;
  }
  throw Violation{key, msg};
}
inline void check_flags()
{
  if (!st().pending.empty()) {
    Violation v = st().pending.front();
    st().pending.clear();
    throw v;
  }
}
#define VH_CHECK(cond, key, msgexpr)                 \
  do {                                               \
    ::vh::evals();                                   \
    if (!(cond)) {                                   \
      std::ostringstream vh_oss_;                    \
      vh_oss_ << msgexpr << "  [" #cond "]";         \
      ::vh::fail((key), vh_oss_.str());              \
    }                                                \
  } while (0)
#define VH_FLAG(cond, key, msgexpr)                  \
  do {                                               \
    ::vh::evals();                                   \
    if (!(cond)) {                                   \
      std::ostringstream vh_oss_;                    \
      vh_oss_ << msgexpr << "  [" #cond "]";         \
      ::vh::flag((key), vh_oss_.str());              \
    }                                                \
  } while (0)

inline void tr(const char* f, ...)
{
  char b[512];
  va_list ap;
  va_start(ap, f);
  std::vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (st().tracing) std::fprintf(stderr, "  %s\n", b);
  if (st().trace.size() > 400) st().trace.erase(st().trace.begin(), st().trace.begin() + 200);
  st().trace.push_back(b);
}

inline void emit_violation(const Violation& v)
{
  std::ostringstream o;
  o << "{\"t\":\"viol\",\"case\":" << st().cur_case << ",\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg)
    << "\",\"trace\":[";
  std::size_t n = st().trace.size(), b = n > 60 ? n - 60 : 0;
  for (std::size_t i = b; i < n; ++i) o << (i > b ? "," : "") << "\"" << jesc(st().trace[i]) << "\"";
  o << "]}";
  emit(o.str());
}

inline void emit_done()
{
  std::ostringstream o;
  o << "{\"t\":\"done\",\"evals\":" << st().evals << ",\"counters\":{";
  bool f = true;
  for (auto& c : st().counters) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"ignored\":{";
  f = true;
  for (auto& c : st().ignored) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"known\":{";
  f = true;
  for (auto& c : st().known_hits) {
    o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":\"" << jesc(st().known_msg[c.first]) << "\"";
    f = false;
  }
  o << "},\"sigs\":[";
  f = true;
  for (auto s : st().sigs) { o << (f ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; f = false; }
  o << "],\"csigs\":[";
  f = true;
  for (auto s : st().csigs) { o << (f ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; f = false; }
  o << "],\"samples\":[";
  f = true;
  for (auto& s : st().samples) { o << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; }
  o << "]}";
  emit(o.str());
}

inline std::set<std::string> split(const std::string& s, char d)
{
  std::set<std::string> r;
  std::stringstream ss(s);
  std::string x;
  while (std::getline(ss, x, d)) if (!x.empty()) r.insert(x);
  return r;
}

inline bool quick() { return st().tier != "thorough"; }

using CaseFn = std::function<void(Rng&, std::uint64_t)>;

inline int run(int argc, char** argv, const char* harness, CaseFn fn)
{
  st().harness = harness;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") st().seed = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--start") st().start = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--count") st().count = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--prop") st().prop = val();
    else if (a == "--tier") st().tier = val();
    else if (a == "--cats") st().cats = split(val(), ',');
    else if (a == "--trace") st().tracing = true;
    else if (a == "--opt") {
      std::string kv = val();
      auto e = kv.find('=');
      st().opt[kv.substr(0, e)] = e == std::string::npos ? "1" : kv.substr(e + 1);
    } else {
      std::fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  if (const char* k = std::getenv("VERIF_KNOWN_KEYS")) st().known = split(k, '\n');
  if (const char* fd = std::getenv("VERIF_FD")) st().fd = std::atoi(fd);
  for (std::uint64_t c = st().start; c < st().start + st().count; ++c) {
    st().cur_case = c;
    st().trace.clear();
    st().pending.clear();
    st().csig = st().csteps = 0;
    {
      std::ostringstream o;
      o << "{\"t\":\"case\",\"case\":" << c << "}";
      emit(o.str());
    }
    Rng rng(mix(st().seed, mix(hash_str(harness), c)));
    try {
      fn(rng, c);
      check_flags();
      st().counters["cases"]++;
      st().counters["steps"] += st().csteps;
      if (st().csteps) st().csigs.insert(st().csig);
    } catch (const Violation& v) {
      emit_violation(v);
      emit_done();
      ::_exit(1);
    } catch (const std::exception& e) {
      emit_violation({"unexpected:exception", std::string("unexpected exception escaped: ") + e.what()});
      emit_done();
      ::_exit(1);
    }
  }
  emit_done();
  return 0;
}

}  // namespace vh
#endif
