// Diagnostics: the published states, statistics and levels against what really happened (property C26).
#include "world.hpp"
#include "simros/control.hpp"
#include "controller_interface/controller_interface_base.hpp"
#include "diagnostic_updater/diagnostic_updater.hpp"
#include <cmath>
using simrt::NoPreempt;
using std::set;
using std::string;
using std::vector;

namespace
{
using Status = diagnostic_updater::DiagnosticStatusWrapper;
struct Begin { uint64_t seq = 0, cycle = 0, reqs = 0; bool cur = false; double rmin = 0, rmax = 0; std::map<int, std::pair<int, size_t>> upd; };
Begin bg;
double threshold(const string & n, double dflt)
{
  auto i = W->plan.extra.find("thr." + n);
  return i == W->plan.extra.end() ? dflt : std::stod(i->second);
}
struct Num { bool ok = false; double avg = 0, lo = 0, hi = 0, dev = 0; };
Num parse(const string & s)
{
  Num n;
  char unit[8];
  n.ok = std::sscanf(s.c_str(), "Avg: %lf [%lf - %lf] %7[^,], StdDev: %lf", &n.avg, &n.lo, &n.hi, unit, &n.dev) == 5;
  return n;
}
// least and greatest level that the (rounded) values permit
struct Lvl { int lo = 0, hi = 0; };
void rate(Lvl & l, double err, double dev, const string & what, double dw, double de, bool none)
{
  const double eps = 0.0051 + 1e-9 * std::fabs(err);
  double mw = threshold(what + ".mean_error.warn", dw), me = threshold(what + ".mean_error.error", de);
  bool ex = what.find("execution") != string::npos;
  double sw = threshold(what + ".standard_deviation.warn", ex ? 100 : 5), se = threshold(what + ".standard_deviation.error", ex ? 200 : 10);
  int lo = err > me + eps || dev > se + eps ? 2 : err > mw + eps || dev > sw + eps ? 1 : 0;
  int hi = !(err <= me - eps) || !(dev <= se - eps) ? 2 : !(err <= mw - eps) || !(dev <= sw - eps) ? 1 : 0;
  if (none) lo = 0, hi = 2;
  l.lo = std::max(l.lo, lo);
  l.hi = std::max(l.hi, hi);
}
bool truth_known() { return W->last_change_seq < bg.seq && W->last_change_cycle + 2 <= bg.cycle && W->disturb_cycle_until < bg.cycle && !W->shutting_down && W->services_up && !bg.cur && !W->cur && bg.reqs == W->n_req_begun && su_initialised(); }
bool close(double rep, double want) { return std::fabs(rep - want) <= 0.0051 + 1e-6 * std::fabs(want); }
string get(const Status & s, const string & key, int * n = nullptr)
{
  string v;
  int c = 0;
  for (auto & k : s.values) if (k.key == key) { v = k.value; c++; }
  if (n) *n = c;
  return v;
}
bool named(const string & msg, const string & list, const string & name)
{
  auto p = msg.find(list);
  if (p == string::npos) return false;
  auto e = msg.find(']', p);
  return (" " + msg.substr(p, e == string::npos ? string::npos : e - p)).find(" " + name + " ") != string::npos;
}
// statistics are never torn or made up
void sane(const char * what, const string & name, const Num & n)
{
  if (!n.ok || !(n.lo <= n.hi)) return;   // no measurement
  probe("statistics_checked");
  if (n.avg < n.lo - 0.0051 || n.avg > n.hi + 0.0051 || n.dev < 0 || n.dev > (n.hi - n.lo) / 2 + 0.0151 + 1e-6 * n.hi)
    violate("C26", string("inconsistent-") + what, "%s of %s: average %g [%g - %g], deviation %g", what, name.c_str(), n.avg, n.lo, n.hi, n.dev);
}
void level(const Status & s, const Lvl & l, const char * what)
{
  probe(string("level_checked_") + std::to_string(static_cast<int>(s.level)));
  if (static_cast<int>(s.level) < l.lo) violate("C26", string("level-too-low-") + what, "%s: level %d although the published values demand %d (%s)", s.name.c_str(), static_cast<int>(s.level), l.lo, s.message.c_str());
  if (static_cast<int>(s.level) > l.hi) violate("C26", string("level-too-high-") + what, "%s: level %d although the published values justify only %d (%s)", s.name.c_str(), static_cast<int>(s.level), l.hi, s.message.c_str());
}
void controllers(const Status & s)
{
  bool known = truth_known();
  Lvl lv;
  set<string> in;
  for (auto & k : s.values) {
    if (k.key.size() < 6 || k.key.substr(k.key.size() - 6) != ".state") continue;
    string name = k.key.substr(0, k.key.size() - 6);
    if (!in.insert(name).second) violate("C26", "controller-twice", "controller %s occurs twice in the diagnostics", name.c_str());
    CtrlObj * o = live_ctrl(name);
    if (known) {
      if (!o || !o->loaded) { violate("C26", "unloaded-controller", "the diagnostics contain controller %s which is not loaded", name.c_str()); continue; }
      if (k.value != state_name(o->state())) violate("C26", "controller-state", "the diagnostics say %s is %s but it is %s", name.c_str(), k.value.c_str(), state_name(o->state()));
    }
    string es = get(s, name + ".execution_time"), ps = get(s, name + ".periodicity");
    Num e = parse(es), p = parse(ps);
    if (!es.empty() && !e.ok) probe("statistics_unreadable");
    sane("execution-time", name, e);
    if (!ps.empty()) sane("periodicity", name, p);
    auto d = ps.find("Desired : ");
    double want = d == string::npos ? 0 : std::atof(ps.c_str() + d + 10);
    bool async = o && o->is_async();
    if (e.ok && o) rate(lv, e.avg - (async ? 1e6 / o->p->get_update_rate() : 0), e.dev, "controllers.execution_time", 1000, 2000, e.lo > e.hi);
    if (p.ok) rate(lv, std::fabs(p.avg - want), p.dev, "controllers.periodicity", 5, 10, p.lo > p.hi);
    if (known && o && !async && o->state() == S_ACTIVE && o->n_deact == o->deact_before && bg.upd.count(o->id) && bg.upd[o->id].first == o->n_act) {
      if (es.empty()) violate("C26", "no-execution-time", "the diagnostics contain no execution time of the active controller %s", name.c_str());
      if (e.ok && e.lo <= e.hi && o->exec_min < 1e300 && e.lo < o->exec_min - 0.0051) violate("C26", "execution-time-too-short", "the shortest update of %s took %g us, published is %g us", name.c_str(), o->exec_min, e.lo);
      if (e.ok && e.lo <= e.hi && e.hi > static_cast<double>(simrt::now_ns() - o->act_time) / 1e3 + 1) violate("C26", "execution-time-too-long", "%s is active for %g us, the longest published update took %g us", name.c_str(), static_cast<double>(simrt::now_ns() - o->act_time) / 1e3, e.hi);
      unsigned r = o->rate(), cm = static_cast<unsigned>(W->plan.update_rate);
      if (r && r < cm && p.ok) {
        if (want != r) violate("C26", "desired-rate", "desired rate of %s published as %g, it is %u", name.c_str(), want, r);
        size_t from = bg.upd[o->id].second, to = o->per.size();
        bool ok = false;
        if (from <= 1) ok = p.lo > p.hi || p.avg == 0;
        for (size_t i = from > 1 ? from - 2 : 0; i < to; ++i) { auto & x = o->per[i]; ok |= close(p.avg, x.avg) && close(p.lo, x.lo) && close(p.hi, x.hi) && std::fabs(p.dev - x.dev) <= 0.0051 + 1e-4 * std::fabs(x.avg); }
        probe("periodicity_checked");
        if (!ok && to) violate("C26", "periodicity-wrong", "periodicity of %s published as %s, it is %g [%g - %g], deviation %g after %zu updates", name.c_str(), ps.c_str(), o->per.back().avg, o->per.back().lo, o->per.back().hi, o->per.back().dev, to);
        else if (!ok) violate("C26", "periodicity-unmeasured", "periodicity of %s published as %s although it was not updated twice since its activation", name.c_str(), ps.c_str());
      }
      // mentioned iff its values demand it
      Lvl one;
      if (e.ok) rate(one, e.avg, e.dev, "controllers.execution_time", 1000, 2000, e.lo > e.hi);
      bool m = named(s.message, "High execution jitter", name);
      if (one.lo && !m) violate("C26", "slow-controller-not-mentioned", "controller %s with execution times %s is not mentioned: %s", name.c_str(), es.c_str(), s.message.c_str());
      if (!one.hi && m) violate("C26", "controller-mentioned-as-slow", "controller %s with execution times %s is mentioned: %s", name.c_str(), es.c_str(), s.message.c_str());
    }
  }
  if (!known) return;
  probe("controllers_diagnostics_checked");
  bool all = true, hw = false;
  size_t n = 0;
  for (auto & c : W->ctrls)
    if (c->alive && c->loaded && !c->discarded) {
      n++;
      all &= c->state() == S_ACTIVE;
      if (!in.count(c->name)) violate("C26", "controller-missing", "the diagnostics do not contain the loaded controller %s", c->name.c_str());
    }
  for (auto & h : W->hws) hw |= h->alive && h->init_ok && h->st == S_ACTIVE;
  if (!hw) lv.lo = lv.hi = 2;
  else if (!n) lv.lo = std::max(lv.lo, 1), lv.hi = std::max(lv.hi, 1);
  level(s, lv, "controllers");
  if (s.level == 0 && hw && s.message != (all ? "All controllers are active" : "Not all controllers are active")) violate("C26", "controllers-summary", "%s of %zu controllers are active, the summary says: %s", all ? "all" : "not all", n, s.message.c_str());
}
void hardware(const Status & s)
{
  if (!truth_known()) return;
  probe("hardware_diagnostics_checked");
  bool all = true, any = false;
  size_t n = 0;
  for (auto & h : W->hws)
    if (h->alive && h->init_ok) {
      n++;
      all &= h->st == S_ACTIVE;
      any |= h->st == S_ACTIVE;
    }
  Lvl lv;
  if (!n) { lv.lo = lv.hi = 2; level(s, lv, "hardware"); return; }
  if (!any) { lv.lo = lv.hi = 1; level(s, lv, "hardware"); return; }
  for (auto & h : W->hws) {
    if (!h->alive || !h->init_ok) continue;
    int cnt = 0;
    string st = get(s, h->name + ".state", &cnt);
    if (cnt != 1) violate("C26", "component-missing", "component %s occurs %d times in the diagnostics", h->name.c_str(), cnt);
    else if (st != state_name(h->st)) violate("C26", "component-state", "the diagnostics say %s is %s but it is %s", h->name.c_str(), st.c_str(), state_name(h->st));
    if (h->st != S_ACTIVE) continue;
    unsigned cm = static_cast<unsigned>(W->plan.update_rate), rr = h->plan && h->plan->rw_rate > 0 ? static_cast<unsigned>(h->plan->rw_rate) : cm;
    bool async = h->plan && h->plan->is_async;
    for (const char * cyc : {".read_cycle", ".write_cycle"}) {
      string es = get(s, h->name + cyc + ".execution_time"), ps = get(s, h->name + cyc + ".periodicity");
      Num e = parse(es), p = parse(ps);
      sane("execution-time", h->name + cyc, e);
      if (!ps.empty()) sane("periodicity", h->name + cyc, p);
      if (es.empty() && !(h->plan && h->plan->kind == "sensor" && string(cyc) == ".write_cycle")) violate("C26", "no-component-execution-time", "the diagnostics contain no execution time of%s of %s", cyc, h->name.c_str());
      if (ps.empty() && !es.empty() && (async || rr != cm)) violate("C26", "no-component-periodicity", "the diagnostics contain no periodicity of%s of %s", cyc, h->name.c_str());
      auto d = ps.find("Desired : ");
      if (d != string::npos && std::atof(ps.c_str() + d + 10) != rr) violate("C26", "component-desired-rate", "desired rate of %s published as %s, it is %u", h->name.c_str(), ps.c_str() + d, rr);
      if (e.ok) rate(lv, e.avg - (async ? 1e6 / rr : 0), e.dev, "hardware_components.execution_time", 1000, 2000, !(e.lo <= e.hi));
      if (p.ok) rate(lv, std::fabs(p.avg - rr), p.dev, "hardware_components.periodicity", 5, 10, !(p.lo <= p.hi));
    }
  }
  level(s, lv, "hardware");
  if (s.level == 0 && s.message != (all ? "All hardware components are active" : "Not all hardware components are active")) violate("C26", "hardware-summary", "%s components are active, the summary says: %s", all ? "all" : "not all", s.message.c_str());
}
void manager(const Status & s)
{
  probe("manager_diagnostics_checked");
  if (get(s, "update_rate") != std::to_string(W->plan.update_rate)) violate("C26", "manager-update-rate", "the update rate is published as %s, it is %d", get(s, "update_rate").c_str(), W->plan.update_rate);
  string a = get(s, "periodicity.average"), d = get(s, "periodicity.standard_deviation"), lo = get(s, "periodicity.min"), hi = get(s, "periodicity.max");
  if (a.empty() || d.empty() || lo.empty() || hi.empty()) { violate("C26", "manager-periodicity-missing", "the diagnostics of the manager lack its periodicity"); return; }
  Num n;
  n.ok = true;
  n.avg = std::atof(a.c_str()); n.dev = std::atof(d.c_str()); n.lo = std::atof(lo.c_str()); n.hi = std::atof(hi.c_str());
  bool none = !(n.lo <= n.hi);
  sane("periodicity", "the manager", n);
  if (!none) {
    if (n.lo < W->cm_rate_min * (1 - 1e-6) - 1e-5 || n.hi > W->cm_rate_max * (1 + 1e-6) + 1e-5) violate("C26", "manager-periodicity", "the periodicity of the manager is published as [%g - %g], the cycles had [%g - %g]", n.lo, n.hi, W->cm_rate_min, W->cm_rate_max);
  }
  Lvl lv;
  rate(lv, std::fabs(n.avg - W->plan.update_rate), n.dev, "controller_manager.periodicity", 5, 10, none);
  if (!su_initialised()) { lv.lo = std::max(lv.lo, bg.seq && !W->services_up ? 0 : 0); lv.hi = 2; }
  else if (W->shutting_down || !truth_known()) lv.hi = 2;
  level(s, lv, "manager");
}
}  // namespace

void diag_activate(CtrlObj * o) { o->deact_before = o->n_deact; o->per.clear(); o->per_m2 = 0; o->exec_min = 1e300; }
void diag_update_begin(CtrlObj * o, int64_t period_ns, bool first)
{
  o->upd_begin = simrt::now_ns();
  o->upd_period = period_ns;
  o->upd_first = first;
}
void diag_update_end(CtrlObj * o, const string & eff)
{
  if (eff == "throw" || eff == "throwint") return;
  o->exec_min = std::min(o->exec_min, static_cast<double>(simrt::now_ns() - o->upd_begin) / 1e3);
  if (o->upd_first || o->upd_period <= 0) return;
  double v = 1e9 / static_cast<double>(o->upd_period), n = static_cast<double>(o->per.size()) + 1;
  CtrlObj::Sample x = o->per.empty() ? CtrlObj::Sample{0, 0, 1e300, -1e300} : o->per.back();
  double before = x.avg;
  x.avg += (v - x.avg) / n;
  o->per_m2 += (v - before) * (v - x.avg);
  x.dev = std::sqrt(std::max(0.0, o->per_m2 / n));
  x.lo = std::min(x.lo, v);
  x.hi = std::max(x.hi, v);
  o->per.push_back(x);
}
void diag_setup(const Plan & p)
{
  diagnostic_updater::Hooks::task = nullptr;
  for (auto & e : p.extra) {
    if (e.first == "diagperiod") diagnostic_updater::Hooks::period = std::stod(e.second);
    if (e.first.rfind("thr.", 0) == 0) simros::set_param("/controller_manager", "diagnostics.threshold." + e.first.substr(4), rclcpp::ParameterValue(std::stod(e.second)));
  }
  if (p.profile != "C26") return;
  diagnostic_updater::Hooks::task = [](bool begin, const diagnostic_updater::DiagnosticStatusWrapper & s) {
    NoPreempt np;
    if (begin) {
      bg = Begin();
      bg.seq = ++W->seq; bg.cycle = W->cycle; bg.cur = W->cur != nullptr; bg.reqs = W->n_req_begun;
      for (auto & c : W->ctrls) if (c->alive && c->inited) bg.upd[c->id] = {c->n_act, c->per.size()};
      return;
    }
    if (s.name == "Controllers Activity") controllers(s);
    else if (s.name.find("Hardware") == 0) hardware(s);
    else if (s.name.find("Controller Manager") == 0) manager(s);
    else probe("unknown_diagnostics");
  };
}
