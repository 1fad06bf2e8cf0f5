// C15: interface handles as linearizable registers.  Threads access a few shared handles of every type and style;
// the recorded history is checked against atomic registers (search for a linearization).
#include "handles_ops.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <unordered_set>
using std::string;
using std::vector;
namespace
{
struct Reg { int kind = 0, type = 0; string initial; bool limited = false; double lo = 0, hi = 0; std::shared_ptr<hops::Cell> cell; };
struct Rec
{
  int fiber = 0;
  string op, style;
  int reg = 0, reg2 = -1;
  uint64_t inv = 0, res = 0;
  hops::Status st = hops::OK;
  bool reads = false, writes = false;
  int64_t rv = 0, wv = 0;
  int cp = 0;   // 1 copies reg2 to reg, 2 exchanges them
};
vector<Reg> regs;
vector<Rec> hist;
uint64_t tick = 0;
double as_double(int64_t b) { double d; memcpy(&d, &b, 8); return d; }
int64_t bits_of(double d) { int64_t b; memcpy(&b, &d, 8); return b; }

struct Checker
{
  vector<const Rec *> ops;
  vector<vector<int64_t>> dummy;
  std::unordered_set<uint64_t> seen;
  uint64_t explored = 0, best = 0;
  int best_n = -1;
  bool go(uint64_t done, vector<int64_t> & v)
  {
    if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) return true;
    uint64_t h = done * 0x9E3779B97F4A7C15ull;
    for (auto x : v) { h ^= static_cast<uint64_t>(x) + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; }
    if (!seen.insert(h).second) return false;
    if (++explored > 2000000) return true;  // give up: counted as not decided
    int n = __builtin_popcountll(done);
    if (n > best_n) { best_n = n; best = done; }
    uint64_t first_res = ~0ull;
    for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) first_res = std::min(first_res, ops[i]->res);
    for (size_t i = 0; i < ops.size(); ++i) {
      if (done >> i & 1) continue;
      const Rec & r = *ops[i];
      if (r.inv > first_res) continue;
      size_t a = static_cast<size_t>(r.reg);
      if (r.reads && v[a] != r.rv) continue;
      if (r.cp) {
        size_t b = static_cast<size_t>(r.reg2);
        int64_t va = v[a], vb = v[b];
        v[a] = vb;
        if (r.cp == 2) v[b] = va;
        if (go(done | 1ull << i, v)) return true;
        v[a] = va;
        v[b] = vb;
      } else if (r.writes) {
        int64_t va = v[a];
        v[a] = r.wv;
        if (go(done | 1ull << i, v)) return true;
        v[a] = va;
      } else if (go(done | 1ull << i, v)) return true;
    }
    return false;
  }
};
string describe(const Rec & r)
{
  string s = "thread " + std::to_string(r.fiber) + " " + r.op + (r.style.empty() ? "" : "/" + r.style) + " of handle " + std::to_string(r.reg);
  if (r.reg2 >= 0) s += " and " + std::to_string(r.reg2);
  int t = regs[static_cast<size_t>(r.reg)].type;
  if (r.writes && !r.cp) s += " writes " + hops::show(t, r.wv);
  if (r.reads) s += " reads " + hops::show(t, r.rv);
  s += r.st == hops::OK ? "" : r.st == hops::FAILED ? " (failed)" : " (threw)";
  return s + " [" + std::to_string(r.inv) + "," + std::to_string(r.res) + "]";
}
void do_op(int fiber, const OpPlan & o)
{
  using namespace hops;
  size_t ri = static_cast<size_t>(o.num) % regs.size();
  Reg & g = regs[ri];
  Rec r;
  r.fiber = fiber;
  r.op = o.op;
  r.style = o.str;
  r.reg = static_cast<int>(ri);
  unsigned tries = static_cast<unsigned>(o.strict);
  int k = static_cast<int>(o.timeout);
  auto stall = [&]() { if (o.delay % 1000 > 500) simrt::sleep_ns(o.delay); else simrt::yield_point(); };
  uint64_t b0, y0;
  {
    simrt::NoPreempt np;
    r.inv = ++tick;
    b0 = simrt::blocked_count();
    y0 = simrt::yield_count();
  }
  bool wait = false, expect_throw = false, record = true;
  int64_t second = 0;
  if (o.op == "get") {
    wait = r.style == "wait" || r.style == "copy";
    r.st = get(*g.cell, r.style, tries, r.rv);
    r.reads = true;
  } else if (o.op == "getd") {
    r.st = get_double(*g.cell, r.rv);
    r.reads = true;
    if (g.type == BOOL && r.st == OK) {
      double d = as_double(r.rv);
      if (d != 0.0 && d != 1.0) violate("C15", "invented-value", "a boolean handle read as double is %g", d);
      r.rv = d != 0.0 ? 1 : 0;
    } else expect_throw = g.type != DOUBLE;
  } else if (o.op == "set") {
    wait = r.style == "wait";
    int64_t v = value(g.type, k);
    r.wv = v;
    if (g.limited && (r.style == "limited" || r.style == "loaned")) { double d = as_double(v); r.wv = bits_of(d < g.lo ? g.lo : d > g.hi ? g.hi : d); }
    r.st = hops::set(*g.cell, r.style, tries, v);
    r.writes = true;
  } else if (o.op == "badset") {
    r.st = set_mistyped(*g.cell, k % N_TYPES);
    expect_throw = true;
  } else if (o.op == "badget") {
    r.st = get_mistyped(*g.cell, k % N_TYPES);
    expect_throw = true;
  } else if (o.op == "holdw") {
    wait = true;
    r.wv = value(g.type, k + 1);
    r.writes = true;
    r.st = hold_write(*g.cell, value(g.type, k), r.wv, stall);
  } else if (o.op == "holdr") {
    wait = true;
    r.reads = true;
    r.st = hold_read(*g.cell, r.rv, second, stall);
    if (r.st == OK && second != r.rv) violate("C15", string("changed-while-locked/") + type_name(g.type), "the value of handle %zu changed from %s to %s while a reader held its lock", ri, show(g.type, r.rv).c_str(), show(g.type, second).c_str());
  } else if (o.op == "copyto" || o.op == "exchange") {
    wait = true;
    size_t r2 = (ri + 1 + static_cast<size_t>(k) % (regs.size() > 1 ? regs.size() - 1 : 1)) % regs.size();
    if (r2 == ri || regs[r2].kind != HANDLE || g.kind != HANDLE || regs[r2].type != g.type) return;
    r.reg2 = static_cast<int>(r2);
    r.writes = true;
    r.cp = o.op == "copyto" ? 1 : 2;
    if (r.cp == 1) assign_copy(*g.cell, *regs[r2].cell);
    else assign_move(*g.cell, *regs[r2].cell);
  } else if (o.op == "moved") {
    record = false;
    int64_t v = value(g.type, k), out = 0;
    Status s = moved(g.type, v, out);
    if (s != OK || out != v) violate("C15", string("moved-handle/") + type_name(g.type), "a handle written with %s reads %s after it was moved (status %d)", show(g.type, v).c_str(), show(g.type, out).c_str(), s);
  }
  simrt::NoPreempt np;
  r.res = ++tick;
  uint64_t blocked = simrt::blocked_count() - b0, yields = simrt::yield_count() - y0;
  W->ops_done[o.op + (o.str.empty() ? "" : ":" + o.str)]++;
  if (!record) return;
  string what = r.op + (r.style.empty() ? "" : "/" + r.style);
  if (!wait && blocked) violate("C15", "blocks/" + what, "a non-waiting access blocked (%s)", describe(r).c_str());
  if (r.style == "loaned" && yields > std::max(tries, 1u)) violate("C15", "tries/" + what, "an access limited to %u tries made %llu", tries, static_cast<unsigned long long>(yields));
  if (expect_throw) {
    if (r.st == OK) violate("C15", "wrong-type-accepted/" + what, "access with a wrong type succeeded (%s)", describe(r).c_str());
    r.reads = r.writes = false;
  } else if (r.st == THREW) violate("C15", "throws/" + what, "a correct access throws (%s)", describe(r).c_str());
  if (wait && r.style != "copy" && r.st == FAILED) violate("C15", "waiting-access-failed/" + what, "an access that waits for the lock failed (%s)", describe(r).c_str());
  if (r.st == FAILED) { probe("access_failed"); W->faults_fired["contention:" + r.op]++; }
  if (blocked) W->faults_fired["wait:" + r.op]++;
  note("%s", describe(r).c_str());
  hist.push_back(r);
}
}  // namespace

void handles_main()
{
  using namespace hops;
  Plan & p = W->plan;
  for (int i = 0; i < 8; ++i) {
    auto it = p.extra.find("reg." + std::to_string(i));
    if (it == p.extra.end()) break;
    Reg g;
    char ini[64] = "";
    double lo = 0, hi = 0;
    int lim = 0;
    sscanf(it->second.c_str(), "%d:%d:%d:%lg:%lg:%60s", &g.kind, &g.type, &lim, &lo, &hi, ini);
    g.initial = string(ini) == "-" ? "" : ini;
    g.cell = create(g.kind, g.type, g.initial);
    if (lim && g.kind == COMMAND && g.type == DOUBLE) { g.limited = true; g.lo = lo; g.hi = hi; limit(*g.cell, lo, hi); }
    regs.push_back(g);
  }
  if (regs.empty()) return;
  int nf = 1;
  for (auto & o : p.ops) nf = std::max(nf, o.client + 1);
  vector<int> f;
  for (int i = 0; i < nf; ++i)
    f.push_back(simrt::spawn(("t" + std::to_string(i)).c_str(), [i]() {
      for (auto & o : W->plan.ops) {
        if (o.client != i) continue;
        if (o.delay) simrt::sleep_ns(o.delay / 1000 * 1000);
        do_op(i, o);
      }
    }));
  for (int x : f) simrt::join(x);
  for (size_t i = 0; i < regs.size(); ++i) { OpPlan o; o.op = "get"; o.str = "wait"; o.num = static_cast<int64_t>(i); do_op(nf, o); }
  simrt::NoPreempt np;
  W->cycle = hist.size();
  // an access fails only because of another access at the same time
  for (auto & r : hist) {
    if (r.st != FAILED) continue;
    bool other = false;
    for (auto & s : hist) other |= &s != &r && s.inv < r.res && r.inv < s.res && (s.reg == r.reg || s.reg2 == r.reg);
    if (!other) violate("C15", "fails-without-contention/" + r.op + (r.style.empty() ? "" : "/" + r.style), "%s although nobody else accessed the handle", describe(r).c_str());
  }
  Checker c;
  for (auto & r : hist) if (r.st == OK && (r.reads || r.writes)) c.ops.push_back(&r);
  if (c.ops.size() > 60) c.ops.resize(60);
  vector<int64_t> v;
  for (auto & g : regs) v.push_back(parse_initial(g.type, g.initial));
  auto first = v;
  uint64_t overlap = 0;
  for (auto a : c.ops) for (auto b : c.ops) overlap += a < b && a->inv < b->res && b->inv < a->res;
  if (overlap) probe("overlapping_accesses");
  W->probes["overlapping_pairs"] += overlap;
  if (!c.go(0, v)) {
    // the first operation that fits nowhere
    string rest;
    int type = -1;
    for (size_t i = 0; i < c.ops.size(); ++i) if (!(c.best >> i & 1)) { if (type < 0) type = regs[static_cast<size_t>(c.ops[i]->reg)].type; if (rest.size() < 600) rest += (rest.empty() ? "" : "; ") + describe(*c.ops[i]); }
    violate("C15", string("not-linearizable/") + type_name(std::max(0, type)), "no order of the accesses explains the values read; after %d accesses these do not fit: %s", c.best_n, rest.c_str());
  }
  if (c.explored > 2000000) probe("undecided_histories");
  uint64_t h = 1469598103934665603ull;
  for (auto a : c.ops) { for (char ch : a->op + a->style) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ull; h = (h ^ static_cast<uint64_t>(a->reg * 131 + a->fiber)) * 1099511628211ull; }
  W->state_hashes.insert(h);
}

void generate_handles(Plan & p, simrt::Rng & r)
{
  using namespace hops;
  auto yes = [&](double x) { return r.chance(x); };
  auto in = [&](int a, int b) { return static_cast<int>(r.range(a, b)); };
  p.hw.clear();
  p.ctrl.clear();
  p.ops.clear();
  p.faults.clear();
  p.desc_at = 0;
  p.shutdown_at = -1;
  int nr = in(1, 3), same = in(0, N_TYPES - 1);
  if (yes(0.35)) same = DOUBLE;
  const bool transfers = yes(0.25);   // handles of one type that are assigned to each other
  if (transfers) nr = in(2, 3);
  for (int i = 0; i < nr; ++i) {
    int type = transfers || yes(0.7) ? same : in(0, N_TYPES - 1), kind = transfers || yes(0.4) ? HANDLE : yes(0.4) ? STATE : COMMAND;
    static const char * const ini[] = {"1.5", "-2.25", "true", "17", "-17", "1700", "-1700", "70000", "-70000"};
    char b[128];
    snprintf(b, sizeof b, "%d:%d:%d:%g:%g:%s", kind, type, yes(0.4) ? 1 : 0, -5.0 - in(0, 3), 4.0 + in(0, 3), yes(0.5) ? "-" : ini[type]);
    p.extra["reg." + std::to_string(i)] = b;
  }
  auto reg = [&](int i) { Reg g; sscanf(p.extra["reg." + std::to_string(i)].c_str(), "%d:%d", &g.kind, &g.type); return g; };
  int nf = in(2, 5), n = in(6, 52 / nr), k = in(1, 50);
  for (int i = 0; i < n; ++i) {
    OpPlan o;
    o.client = in(0, nf - 1);
    int ri = in(0, nr - 1);
    Reg g = reg(ri);
    o.num = ri;
    o.delay = yes(0.6) ? 0 : in(1, 40) * 1000;
    if (yes(0.15)) o.delay += 700;   // stalls while holding the lock
    o.timeout = k += 2;
    o.strict = yes(0.6) ? in(1, 4) : yes(0.7) ? 10 : 0;
    double x = r.unit();
    if (transfers && yes(0.3)) x = 0.95;
    if (x < 0.36) {
      o.op = "get";
      vector<string> st = {"opt", "nowait", "wait", "lock"};
      if (g.kind != HANDLE) { st.push_back("loaned"); st.push_back("loaned"); }
      if (g.kind != COMMAND) st.push_back("copy");
      o.str = st[r.below(st.size())];
    } else if (x < 0.68) {
      o.op = "set";
      vector<string> st = {"plain", "nowait", "wait", "lock"};
      if (g.kind == COMMAND) { st.push_back("loaned"); st.push_back("loaned"); st.push_back("limited"); }
      o.str = st[r.below(st.size())];
    } else if (x < 0.76) o.op = "holdw";
    else if (x < 0.84) o.op = "holdr";
    else if (x < 0.87) o.op = "getd";
    else if (x < 0.90) { o.op = yes(0.5) ? "badset" : "badget"; int t = static_cast<int>(o.timeout) % N_TYPES; if (t == g.type || (o.op == "badget" && t == DOUBLE)) o.timeout += 2; if (static_cast<int>(o.timeout) % N_TYPES == g.type) { o.op = "get"; o.str = "opt"; } if (o.op == "badget" && static_cast<int>(o.timeout) % N_TYPES == DOUBLE) { o.op = "getd"; } }
    else if (x < 0.93) o.op = "moved";
    else o.op = yes(0.5) ? "copyto" : "exchange";
    if (o.op[0] == 'h' && o.delay % 1000 == 0 && yes(0.5)) o.delay += 700;
    p.ops.push_back(o);
  }
  p.sched.preempt_mean = std::vector<uint64_t>{2, 4, 8, 20, 60, 0}[r.below(6)];
  p.sched.sync_cost_ns = 500;
  p.sched.pct_horizon = static_cast<uint64_t>(in(100, 3000));
  p.sched.max_time_ns = 100ll * 1000000000ll;
}
