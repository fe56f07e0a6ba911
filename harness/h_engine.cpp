// Stateful random workload over generated strategy trees (see world.hpp).
// --opt mode=general|pool|limit|fault|oversize|zero|big|vast|crowd
#include "world.hpp"
using namespace world;

static size_t huge_size(vh::Rng& r)
{
  const size_t M = std::numeric_limits<size_t>::max();
  switch (r.below(6)) {
    case 0: return M - r.below(4200);
    case 1: return M - r.below(17);
    case 2: return M / 2 + r.below(64) - 32;
    case 3: return (size_t(1) << 63) + r.below(8192);
    case 4: return M - (size_t(1) << r.below(40));
    default: return (size_t(1) << r.range(41, 62)) + r.below(100);
  }
}

// Sizes around and beyond what 31 and 32 bits hold, mixed with ordinary ones.
static size_t vast_size(vh::Rng& r)
{
  const size_t G = size_t(1) << 30;
  switch (r.below(8)) {
    case 0: case 1: case 2: return r.range(1, 9000);
    case 3: return 2 * G + r.below(128) - 64;
    case 4: return 4 * G + r.below(128) - 64;
    case 5: return 4 * G * r.range(1, 3) + r.range(1, 9000);
    case 6: return r.range(1, 3 * G);
    default: return r.range(1, 16 * G);
  }
}

// The largest request this node's tree can be asked for (FixedPool restricts).
static size_t max_request(Node& n)
{
  switch (n.kind) {
    case FIXED: return n.obj;
    case LIMIT: case TSAFE: case SHIM: case NAMED: return max_request(*n.parent);
    case ALIGN: {
      size_t m = max_request(*n.parent);
      return m > n.align + 8 ? m - n.align - 8 + 1 : 0;
    }
    case SLOT: return max_request(*n.parent);
    default: return std::numeric_limits<size_t>::max();
  }
}
static bool restricted(Node& n) { return max_request(n) != std::numeric_limits<size_t>::max(); }

static void one_case(vh::Rng& rng, std::uint64_t)
{
  const std::string mode = vh::st().opt.count("mode") ? vh::st().opt["mode"] : "general";
  World w(rng);
  static const size_t skews[] = {0, 0, 0, 8, 16, 24, 40, 48, 1, 7};
  w.make_root(skews[rng.below(10)]);
  std::vector<Kind> menu;
  if (mode == "pool") menu = {QUICK, LIST, QUICK, LIST, FIXED, MIXED};
  else if (mode == "limit") menu = {LIMIT, MONO, SLOT, LIMIT, MONO, SLOT, FIXED, QUICK, LIST};
  else if (mode == "big") menu = {QUICK, LIST, LIST, FIXED, MIXED};
  else if (mode == "crowd") menu = {QUICK, FIXED, QUICK, FIXED, MIXED, NAMED, LIMIT, TSAFE};
  else menu = {QUICK, LIST, QUICK, LIST, FIXED, SLOT, MIXED, MONO, LIMIT, ALIGN, TSAFE, SHIM, NAMED};
  const bool crowd = mode == "crowd", vast = mode == "vast";
  const bool big = mode == "big" || crowd;  // thousands of live allocations in one pool: more than one block of its internal records
  size_t nn = big ? 1 : rng.range(1, mode == "pool" ? 2 : 4);
  std::string shape;
  std::function<void(Node&)> set;
  if (vast)
    set = [&](Node& n) {
      if (rng.chance(1, 3)) n.first = vast_size(rng);
      if (rng.chance(1, 3)) n.next = vast_size(rng);
      if (rng.chance(1, 3)) n.align = size_t(1) << rng.range(4, 21);
      if (rng.chance(1, 2)) { n.obj = vast_size(rng); n.nobj = rng.range(1, 3); }
      n.cap = rng.chance(1, 6) ? rng.range(256, 60000) : rng.chance(1, 2) ? (size_t(4) << 30) + rng.below(20000) - 10000 : vast_size(rng) * 3;
      if (rng.chance(1, 3)) n.mix_max = vast_size(rng);
    };
  if (crowd)
    set = [&](Node& n) {
      n.cap = size_t(1) << rng.range(20, 36);
      n.nobj = rng.chance(1, 2) ? rng.range(10000, 40000) : rng.range(200, 4000);
      n.first = rng.chance(1, 2) ? size_t(1) << rng.range(12, 23) : n.first;
      n.align = size_t(1) << rng.below(6);
      if (rng.chance(3, 4)) n.heur = -1;
    };
  for (size_t i = 0; i < nn; ++i) {
    Node* parent = w.nodes.back().get();
    if (rng.chance(1, 4)) parent = w.nodes[rng.below(w.nodes.size())].get();
    Kind k = rng.pick(menu);
    if (restricted(*parent) || parent->kind == MONO || parent->kind == SLOT) {
      // below a fixed-object pool (or a small arena) only pass-through layers make sense
      static const std::vector<Kind> pass{LIMIT, TSAFE, SHIM, NAMED, ALIGN};
      k = rng.pick(pass);
    }
    if (k == MIXED || k == FIXED || k == MONO) {
      // constructors take memory at once: only on parents that cannot refuse
      bool ok = true;
      for (Node* q = parent; q; q = q->parent) ok &= (q->kind != LIMIT && q->kind != SLOT && q->kind != MONO && q->kind != FIXED);
      if (!ok) k = rng.chance(1, 2) ? QUICK : LIST;
    }
    if (mode == "fault" && rng.chance(1, 3)) {
      if (!w.try_add(k, *parent)) {
        w.check_all();
        if (w.nodes.size() > 1 || rng.chance(1, 2)) continue;
        w.add(k, *parent);
      }
    } else {
      w.add(k, *parent, set);
    }
    shape += std::string(kname(k)) + "<" + kname(parent->kind) + " ";
  }
  if (rng.chance(1, 20)) vh::tr("shape %s", shape.c_str());
  w.check_all();
  vh::tr("shape %s", shape.c_str());

  size_t ops = mode == "pool" ? rng.range(80, 300) : rng.range(40, 200);
  // phase-based mix gives fill/drain histories
  unsigned palloc = 60;
  if (big) ops = crowd ? rng.range(90000, 160000) : rng.range(7000, 16000);
  size_t maxsz = big ? rng.range(16, 200) : std::vector<size_t>{64, 300, 2000, 9000}[rng.below(4)];
  bool repeat_sizes = rng.chance(1, 3);
  std::vector<size_t> favs;
  for (int i = 0; i < 4; ++i) favs.push_back(vast ? vast_size(rng) : rng.range(1, maxsz));
  for (size_t op = 0; op < ops; ++op) {
    if (big) {
      if (op < (crowd ? 80000u : 3500u)) palloc = crowd ? 97 : 88;
      else if (rng.chance(1, crowd ? 20000 : 700)) palloc = unsigned(rng.range(10, 88));
    } else if (rng.chance(1, 25)) palloc = unsigned(rng.range(10, 90));
    Node& n = big || rng.chance(3, 4) ? *w.nodes.back() : *w.nodes[rng.below(w.nodes.size())];
    unsigned roll = unsigned(rng.below(100));
    if (mode == "fault" && rng.chance(1, 5)) {
      w.root->fail_in = long(rng.below(3));
      w.root->fail_len = int(rng.range(1, 3));
    }
    if (roll < palloc) {
      size_t sz = repeat_sizes && rng.chance(4, 5) ? favs[rng.below(4)] : vast ? vast_size(rng) : rng.range(1, maxsz);
      if (n.kind == SLOT) sz = favs[rng.below(4)];
      if (rng.chance(1, mode == "zero" ? 3 : 30)) sz = 0;
      if (!vast && rng.chance(1, 40)) sz *= 17;
      if (mode == "big" && rng.chance(1, 200)) sz = rng.range(1, size_t(3) << 20);
      size_t mr = max_request(n);
      if (mode == "oversize" && rng.chance(1, 3) && mr > (size_t(1) << 40)) sz = huge_size(rng);
      if (mr == 0) continue;
      if (sz && mr < (size_t(1) << 40)) sz = mr;  // fixed-object pools serve exactly one size
      w.user_alloc(n, sz, rng.chance(1, 5));
      if (sz > (size_t(1) << 40)) vh::count("oversize");
    } else if (big && rng.chance(499, 500)) {
      if (n.live.empty()) continue;
      auto it = n.live.lower_bound(n.live.begin()->first + rng.below(n.live.rbegin()->first - n.live.begin()->first + 1));
      if (it == n.live.end() || !it->second.user) it = n.live.begin();
      if (it->second.user) w.user_dealloc(n, it->first, rng.chance(1, 4));
    } else if (roll < 94) {
      std::vector<std::uintptr_t> u;
      for (auto& l : n.live) if (l.second.user) u.push_back(l.first);
      if (u.empty()) continue;
      size_t pick = rng.chance(1, 3) ? (rng.chance(1, 2) ? 0 : u.size() - 1) : rng.below(u.size());
      w.user_dealloc(n, u[pick], rng.chance(1, 4));
    } else if (roll < 97) {
      w.user_release(n);
    } else {
      w.user_coalesce(n);
    }
    if (big && op % (crowd ? 20000 : 400)) continue;
    w.check_all();
    if (big || rng.chance(1, 16)) w.verify_contents();
  }
  w.root->fail_in = -1;
  w.verify_contents();
  w.check_all();
  vh::sig("shape|" + shape + "|" + mode);
  vh::count("blocks", w.root->n_alloc);
  vh::count("injected_failures", w.root->n_fail);
  w.destroy();
}

int main(int argc, char** argv) { return vh::run(argc, argv, "engine", one_case); }
