// C13: reference model of command limiting and the checks of what reaches the hardware.
#include "world.hpp"
#include "hardware_interface/hardware_component_interface.hpp"
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <optional>

using std::string;
using Opt = std::optional<double>;

namespace
{
const char * const NAMES[4] = {"position", "velocity", "effort", "acceleration"};
int index_of(const string & n)
{
  for (int i = 0; i < 4; ++i) if (n == NAMES[i]) return i;
  return -1;
}
// what the description declares for one joint
struct Lim
{
  bool on = false;
  bool pos = false, vel = false, eff = false, acc = false, dec = false;
  double lo = -DBL_MAX, hi = DBL_MAX, v = DBL_MAX, e = DBL_MAX, a = NAN, d = NAN;
  bool soft = false;
  double slo = 0, shi = 0, kp = 0, kv = 0;
};
struct Joint
{
  string name, hw;
  Lim l;
  bool exact = false;   // only the control loop touches it: predictions are possible
  // memory of the limiter
  Opt prev[4];
  bool unk[4] = {false, false, false, false};
  // expectation for the next write
  std::map<string, double> want;
  Opt last[4];          // commands after the previous enforcement
  uint64_t last_cycle = 0;
};
struct State
{
  bool built = false, enforce = false;
  std::map<string, Joint> j;
  std::map<string, std::set<int>> claims;  // at the beginning of the update phase
  // pending set
  bool pend = false, predicted = false, throws = false;
  double expect = 0;
  Joint * pj = nullptr;
  int pi = -1;
};
State * st()
{
  if (!W->limits_state) W->limits_state = std::make_shared<State>();
  return static_cast<State *>(W->limits_state.get());
}
double num(const string & s, double def) { return s.empty() ? def : strtod(s.c_str(), nullptr); }
Lim limits_of(const JointPlan & j)
{
  Lim l;
  l.on = j.limits_enable;
  l.vel = l.eff = true;
  if (j.has_limit) {
    l.pos = !j.continuous;
    if (l.pos) { l.lo = j.lower; l.hi = j.upper; }
    l.v = std::fabs(j.velocity);
    l.e = std::fabs(j.effort);
  } else if (!j.continuous) {
    l.pos = true;
    l.lo = -1e9; l.hi = 1e9; l.v = l.e = 1e9;
  } else {
    l.vel = l.eff = false;
  }
  for (auto & c : j.cmd) {
    const bool mm = !c.min.empty() || !c.max.empty();
    if (c.name == "position") {
      if (!c.enable) { l.pos = false; l.lo = -DBL_MAX; l.hi = DBL_MAX; }
      else if (mm) { l.lo = std::max(l.lo, num(c.min, l.lo)); l.hi = std::min(l.hi, num(c.max, l.hi)); l.pos = true; }
    } else if (c.name == "velocity") {
      if (!c.enable) l.vel = false;
      else if (mm) { l.v = std::min({std::fabs(num(c.min, -l.v)), num(c.max, l.v), l.v}); l.vel = true; }
    } else if (c.name == "effort") {
      if (!c.enable) l.eff = false;
      else if (mm) { l.e = std::min({std::fabs(num(c.min, -l.e)), num(c.max, l.e), l.e}); l.eff = true; }
    } else if (c.name == "acceleration" && mm) {
      if (!c.min.empty()) { l.d = std::fabs(num(c.min, NAN)); l.dec = c.enable; }
      if (!c.max.empty()) { l.a = num(c.max, NAN); l.acc = c.enable; if (std::isnan(l.d)) l.d = std::fabs(l.a); }
      else l.a = l.d;
    }
  }
  if (j.has_soft) {
    l.soft = true;
    l.slo = j.soft_lower; l.shi = j.soft_upper;
    if (l.pos) { l.slo = std::max(l.slo, l.lo); l.shi = std::min(l.shi, l.hi); }
    l.kp = j.k_pos; l.kv = j.k_vel;
  }
  return l;
}
void build()
{
  State * s = st();
  s->built = true;
  s->enforce = W->plan.enforce_limits;
  for (auto & h : W->plan.hw)
    for (auto & jp : h.joints) {
      Joint j;
      j.name = jp.name;
      j.hw = h.name;
      if (!jp.gpio && h.kind != "sensor") j.l = limits_of(jp);
      if (!s->enforce) j.l.on = false;
      if (jp.gpio || h.kind == "sensor") j.l.on = false;
      j.exact = !h.is_async && !W->plan.extra.count("desc-varies");
      for (auto & c : W->plan.ctrl) {
        if (!c.is_async) continue;
        if (c.cmd_type != "individual") j.exact = false;
        for (auto & i : c.cmd) if (i.rfind(jp.name + "/", 0) == 0) j.exact = false;
      }
      s->j[jp.name] = j;
    }
}
Joint * joint_of(const string & itf, int & idx)
{
  State * s = st();
  if (!s->built) build();
  auto p = itf.rfind('/');
  if (p == string::npos) return nullptr;
  auto it = s->j.find(itf.substr(0, p));
  if (it == s->j.end()) return nullptr;
  idx = index_of(itf.substr(p + 1));
  return &it->second;
}
Opt state_of(const Joint & j, int i)
{
  HwObj * h = live_hw(j.hw);
  if (!h || !h->get_state) return std::nullopt;
  Opt v = h->get_state(j.name + "/" + NAMES[i]);
  if (v && std::isnan(*v)) v = std::nullopt;  // a joint without a known state
  return v;
}
Opt command_of(const Joint & j, int i)
{
  HwObj * h = live_hw(j.hw);
  if (!h || !h->get_cmd) return std::nullopt;
  return h->get_cmd(j.name + "/" + NAMES[i]);
}
struct Range { double lo, hi; };
double clampv(double v, double lo, double hi) { return v < lo ? lo : hi < v ? hi : v; }
bool has(const Opt & o) { return o.has_value(); }

// what the limiter makes of a set of commands; false: the joint reports a position far outside of its limits
bool model(Joint & j, const Opt act[4], Opt des[4], double dt)
{
  const Lim & l = j.l;
  if (dt <= 0) return true;
  bool data = false;
  for (int i = 0; i < 4; ++i) data |= has(j.prev[i]);
  if (!data)
    for (int i = 0; i < 4; ++i)
      if (has(des[i])) {
        if (has(act[i])) j.prev[i] = act[i];
        else if (!std::isnan(*des[i])) j.prev[i] = des[i];
      }
  const bool soft_pos = l.soft && std::isfinite(l.slo) && std::isfinite(l.shi) && l.shi - l.slo > 1e-10;
  const bool soft_all = soft_pos && std::isfinite(l.kp) && std::fabs(l.kp) > 1e-10;
  const double inf = INFINITY;
  double svlo = -inf, svhi = inf;
  const Opt pref = has(j.prev[0]) && std::isfinite(*j.prev[0]) ? j.prev[0] : act[0];
  const Opt aref = has(act[0]) ? act[0] : has(j.prev[0]) && std::isfinite(*j.prev[0]) ? j.prev[0] : Opt();
  if (l.soft && l.vel) {
    svlo = -l.v; svhi = l.v;
    if (l.pos && soft_all && has(pref) && std::isfinite(*pref)) {
      svlo = clampv(-l.kp * (*pref - l.slo), -l.v, l.v);
      svhi = clampv(-l.kp * (*pref - l.shi), -l.v, l.v);
      if (has(aref) && (*aref < l.lo - 0.002 || *aref > l.hi + 0.002)) svlo = svhi = 0;
      else if (has(aref) && (*aref < l.slo || *aref > l.shi)) {
        const double r = M_PI / 180.0;
        svlo = std::copysign(r, svlo);
        svhi = std::copysign(r, svhi);
      }
    }
  }
  if (has(des[0]) && !std::isnan(*des[0])) {
    Range r{l.lo, l.hi};
    if (has(act[0]) && l.pos && (*act[0] > l.hi + 0.0087 || *act[0] < l.lo - 0.0087)) return false;
    if (l.vel) {
      const double reach = l.acc ? (has(act[1]) ? std::fabs(*act[1]) : 0.0) + l.a * dt : l.v;
      const double dp = std::min(l.v, reach) * dt;
      const Opt ref = has(j.prev[0]) ? j.prev[0] : act[0];
      if (has(ref)) {
        r.lo = std::max(std::min(*ref - dp, r.hi), r.lo);
        r.hi = std::min(std::max(*ref + dp, r.lo), r.hi);
      }
    }
    if (l.soft) {
      double lo = -inf, hi = inf;
      if (soft_pos) { lo = l.slo; hi = l.shi; }
      if (l.vel && has(pref) && std::isfinite(*pref)) {
        lo = clampv(*pref + svlo * dt, lo, hi);
        hi = clampv(*pref + svhi * dt, lo, hi);
      }
      double a = std::max(lo, r.lo), b = std::min(hi, r.hi);
      if (a > b) { a = lo; b = hi; }
      r = {a, b};
    }
    des[0] = clampv(*des[0], r.lo, r.hi);
  }
  if (has(des[1]) && !std::isnan(*des[1])) {
    Range r{-inf, inf};
    if (l.vel) {
      r = {-l.v, l.v};
      if (l.pos && has(act[0])) {
        r.lo = std::max((l.lo - *act[0]) / dt, r.lo);
        r.hi = std::min((l.hi - *act[0]) / dt, r.hi);
        if (*act[0] > l.hi || *act[0] < l.lo) {
          const double p = *act[0];
          if ((p < l.hi + 0.002 && p > l.lo && *des[1] >= 0) || (p > l.lo - 0.002 && p < l.hi && *des[1] <= 0)) r = {0, 0};
          else if (p > l.hi + 0.002 || p < l.lo - 0.002) r = {0, 0};
        }
      }
      if (l.acc && has(j.prev[1])) {
        const double d = l.a * dt;
        r.lo = std::max(*j.prev[1] - d, r.lo);
        r.hi = std::min(*j.prev[1] + d, r.hi);
      }
      if (r.lo > r.hi) std::swap(r.lo, r.hi);
      r = {clampv(r.lo, -l.v, l.v), clampv(r.hi, -l.v, l.v)};
    }
    if (l.soft) {
      if (l.vel && l.acc && has(act[1])) {
        svlo = clampv(svlo, *act[1] - l.a * dt, *act[1] + l.a * dt);
        svhi = clampv(svhi, *act[1] - l.a * dt, *act[1] + l.a * dt);
      }
      svlo = clampv(svlo, r.lo, r.hi);
      svhi = clampv(svhi, r.lo, r.hi);
      r = {svlo, svhi};
    }
    des[1] = clampv(*des[1], r.lo, r.hi);
  }
  if (has(des[2]) && !std::isnan(*des[2])) {
    Range r{-inf, inf};
    if (l.eff) {
      r = {-l.e, l.e};
      if (l.pos && has(act[0]) && has(act[1])) {
        if (*act[0] <= l.lo && *act[1] <= 0) r.lo = 0;
        else if (*act[0] >= l.hi && *act[1] >= 0) r.hi = 0;
      }
      if (l.vel && has(act[1])) {
        if (*act[1] < -l.v) r.lo = 0;
        else if (*act[1] > l.v) r.hi = 0;
      }
      if (r.lo > r.hi) std::swap(r.lo, r.hi);
      if (l.soft && std::isfinite(l.kv) && has(act[1])) {
        const double a = clampv(-l.kv * (*act[1] - svlo), -l.e, l.e), b = clampv(-l.kv * (*act[1] - svhi), -l.e, l.e);
        r = {std::max(a, r.lo), std::min(b, r.hi)};
      }
    }
    des[2] = clampv(*des[2], r.lo, r.hi);
  }
  if (has(des[3]) && !std::isnan(*des[3])) {
    double m = inf;
    if (l.dec && has(act[1]) && ((*des[3] < 0 && *act[1] > 0) || (*des[3] > 0 && *act[1] < 0))) m = l.d;
    else if (l.acc) m = l.a;
    des[3] = clampv(*des[3], -m, m);
  }
  for (int i = 0; i < 4; ++i) if (has(des[i]) && !std::isnan(*des[i])) j.prev[i] = des[i];
  return true;
}
// can the outcome for these commands be predicted
bool known(const Joint & j, const Opt des[4])
{
  bool any = false, all = true;
  for (int i = 0; i < 4; ++i) {
    if (has(des[i]) && j.unk[i]) return false;
    any |= !j.unk[i] && has(j.prev[i]);
    all &= !j.unk[i];
  }
  if (j.l.soft && j.unk[0]) return false;
  return any || all;
}
bool same(double a, double b)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
}
string why(const Joint & j, const Opt act[4])
{
  char b[300];
  snprintf(b, sizeof b, "actual position %g velocity %g, previous commands %g %g, limits position [%g, %g] velocity %g effort %g acceleration %g%s", act[0].value_or(NAN), act[1].value_or(NAN), j.prev[0].value_or(NAN), j.prev[1].value_or(NAN), j.l.lo, j.l.hi, j.l.v, j.l.e, j.l.a, j.l.soft ? " soft" : "");
  return b;
}
}  // namespace

// a controller is about to command an interface
void lim_set_begin(CtrlObj * c, const string & itf, double v)
{
  if (c->is_async() || !inside_rt()) return;
  State * s = st();
  s->pend = s->predicted = s->throws = false;
  int idx = -1;
  Joint * j = joint_of(itf, idx);
  s->pj = j;
  s->pi = idx;
  if (!j) return;
  s->pend = true;
  if (!j->l.on || idx < 0) { s->predicted = true; s->expect = v; return; }
  if (!j->exact) return;
  Opt act[4], des[4];
  for (int i = 0; i < 4; ++i) act[i] = state_of(*j, i);
  des[idx] = v;
  if (!known(*j, des)) return;
  Joint before = *j;
  s->predicted = true;
  const int rate = W->plan.update_rate;
  const double dt = static_cast<double>(static_cast<int64_t>(1e9 / rate)) / 1e9;
  s->throws = !model(*j, act, des, dt);
  s->expect = *des[idx];
  W->limits_why = why(before, act);
  if (!same(s->expect, v)) probe(string("limited_") + NAMES[idx] + (j->l.soft ? "_soft" : ""));
}
void lim_set_end(CtrlObj * c, const string & itf, double v, bool ok, bool threw, std::optional<double> stored)
{
  if (c->is_async() || !inside_rt()) return;
  State * s = st();
  if (!s->pend) return;
  s->pend = false;
  Joint * j = s->pj;
  if (threw) {
    probe("limiter_refuses_position");
    if (s->predicted && !s->throws) violate("C13", "command-refused", "controller %s: setting %s to %g throws (%s)", c->name.c_str(), itf.c_str(), v, W->limits_why.c_str());
    return;
  }
  if (!ok || !stored) { if (s->pi >= 0) j->unk[s->pi] = true; return; }
  if (s->predicted && s->throws) violate("C13", "command-not-refused", "controller %s: %s accepts %g although the joint is far out of its position limits (%s)", c->name.c_str(), itf.c_str(), v, W->limits_why.c_str());
  else if (s->predicted) {
    probe("limit_set_checked");
    if (!same(s->expect, *stored)) {
      const bool passed = same(*stored, v), wanted_pass = same(s->expect, v);
      if (!j->l.on || s->pi < 0) violate("C13", "unlimited-command-altered", "controller %s sets the unlimited %s to %g and %g is stored", c->name.c_str(), itf.c_str(), v, *stored);
      else violate("C13", string(wanted_pass ? "conforming-command-altered/" : passed ? "command-not-limited/" : "wrongly-limited/") + NAMES[s->pi], "controller %s sets %s to %g: %g is stored, expected %g (%s)", c->name.c_str(), itf.c_str(), v, *stored, s->expect, W->limits_why.c_str());
    }
  }
  if (s->pi >= 0) {
    if (!std::isnan(*stored)) { j->prev[s->pi] = *stored; j->unk[s->pi] = false; }
  }
  j->want[itf] = *stored;
}
// every switch of the command modes makes the limiters forget
void lim_forget()
{
  State * s = st();
  if (!s->built) build();
  for (auto & e : s->j) for (int i = 0; i < 4; ++i) { e.second.unk[i] = true; e.second.last[i].reset(); }
}
void lim_update_begin()
{
  State * s = st();
  if (!s->built) build();
  s->claims = W->holders;
  for (auto & j : s->j) j.second.want.clear();
}
// after the update of the manager: the limits were enforced once more
void lim_update_end()
{
  State * s = st();
  if (!s->built) build();
  if (W->shutting_down) for (auto & e : s->j) e.second.want.clear();
  if (!s->enforce || W->shutting_down) return;
  const bool clear = !W->req_in_cycle && !W->cur && W->cfail.empty() && W->hwfail.empty() && W->disturb_cycle_until < W->cycle && W->req_cycle + 1 < W->cycle;
  for (auto & e : s->j) {
    Joint & j = e.second;
    if (!j.l.on || !j.exact) continue;
    Opt des[4], act[4];
    bool ok = clear, any = false;
    for (int i = 0; i < 4; ++i) {
      const string n = j.name + "/" + NAMES[i];
      auto a = s->claims.find(n), b = W->holders.find(n);
      const bool ca = a != s->claims.end() && !a->second.empty(), cb = b != W->holders.end() && !b->second.empty();
      if (ca != cb) ok = false;
      act[i] = state_of(j, i);
      if (ca || cb) {
        any = true;
        Opt c = command_of(j, i);
        if (!c) ok = false;
        else des[i] = c;
      }
    }
    if (!any) continue;
    if (!ok || !known(j, des)) {
      for (int i = 0; i < 4; ++i) {
        const string n = j.name + "/" + NAMES[i];
        if (!s->claims[n].empty() || !W->holders[n].empty()) j.unk[i] = true;
        Opt c = command_of(j, i);
        if (clear && ok && has(des[i]) && c && !std::isnan(*c)) { j.prev[i] = c; j.unk[i] = false; }
      }
      j.want.clear();
      for (auto & x : j.last) x.reset();
      continue;
    }
    // the commands before this enforcement are those that the controllers left
    Opt before[4];
    bool have = true;
    for (int i = 0; i < 4; ++i)
      if (has(des[i])) {
        auto w = j.want.find(j.name + "/" + NAMES[i]);
        if (w != j.want.end()) before[i] = w->second;
        else if (has(j.last[i]) && j.last_cycle + 1 == W->cycle) before[i] = j.last[i];
        else have = false;
      }
    if (j.last_cycle + 1 != W->cycle) for (auto & x : j.last) x.reset();
    j.last_cycle = W->cycle;
    Joint copy = j;
    const double dt = static_cast<double>(W->period_in) / 1e9;
    if (!have) {
      for (int i = 0; i < 4; ++i) if (has(des[i])) { j.last[i] = des[i]; j.want[j.name + "/" + NAMES[i]] = *des[i]; if (!std::isnan(*des[i])) { j.prev[i] = des[i]; j.unk[i] = false; } }
      continue;
    }
    Opt out[4];
    for (int i = 0; i < 4; ++i) out[i] = before[i];
    if (!model(j, act, out, dt)) {
      j = copy;
      for (int i = 0; i < 4; ++i) if (has(des[i])) j.want[j.name + "/" + NAMES[i]] = *des[i];
      continue;
    }
    for (int i = 0; i < 4; ++i)
      if (has(des[i])) {
        probe("limit_enforce_checked");
        if (!same(*des[i], *before[i])) probe("limited_again_in_enforcement");
        if (!same(*des[i], *out[i]))
          violate("C13", string(same(*out[i], *before[i]) ? "conforming-command-altered-in-cycle/" : "wrongly-limited-in-cycle/") + NAMES[i], "joint %s: command %s is %g after the update of cycle %llu, expected %g from %g (period %g s, %s)", j.name.c_str(), NAMES[i], *des[i], static_cast<unsigned long long>(W->cycle), *out[i], *before[i], dt, why(copy, act).c_str());
        if (!std::isnan(*des[i])) j.prev[i] = des[i];
        j.last[i] = des[i];
        j.want[j.name + "/" + NAMES[i]] = *des[i];
      }
  }
}
// a command is taken by the hardware
void lim_write(HwObj * h, const string & itf, double v)
{
  int idx = -1;
  Joint * j = joint_of(itf, idx);
  if (!j || j->hw != h->name) return;
  if (!j->l.on || idx < 0) return;
  const Lim & l = j->l;
  const double eps = 1e-9;
  if (std::isnan(v)) return;
  probe("limit_write_checked");
  auto out = [&](double lo, double hi) { return v < lo - eps * std::max(1.0, std::fabs(lo)) || v > hi + eps * std::max(1.0, std::fabs(hi)); };
  auto bad = [&](const char * what, double lo, double hi) {
    violate("C13", string("out-of-limits-at-hardware/") + what, "hardware %s is written with %s = %g outside of [%g, %g]", h->name.c_str(), itf.c_str(), v, lo, hi);
  };
  if (idx == 0) {
    if (l.pos && out(l.lo, l.hi)) bad("position", l.lo, l.hi);
    else if (l.soft && l.shi - l.slo > 1e-10 && out(l.slo, l.shi) && v != 0) bad("soft-position", l.slo, l.shi);
  }
  if (idx == 1 && l.vel && out(-l.v, l.v)) bad("velocity", -l.v, l.v);
  if (idx == 2 && l.eff && out(-l.e, l.e)) bad("effort", -l.e, l.e);
  const double m = std::max(l.acc ? l.a : l.dec ? l.d : INFINITY, l.dec ? l.d : 0.0);
  if (idx == 3 && l.acc && out(-m, m)) bad("acceleration", -m, m);
  if (j->exact && !W->cur && !W->req_in_cycle) {
    auto w = j->want.find(itf);
    if (w != j->want.end() && !same(w->second, v)) violate("C13", string("altered-after-limiting/") + NAMES[idx], "hardware %s is written with %s = %g, %g was left by the limiter", h->name.c_str(), itf.c_str(), v, w->second);
  }
}
