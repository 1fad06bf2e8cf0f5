// Ground truth bookkeeping and the oracles that watch a run while it proceeds.
#include "world.hpp"
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "simros/control.hpp"
#include <algorithm>
#include <cmath>
#include <cstdarg>

using simrt::NoPreempt;
using std::string;

World * W = nullptr;

const char * state_name(int s)
{
  switch (s) {
    case S_UNKNOWN: return "unknown";
    case S_UNCONF: return "unconfigured";
    case S_INACTIVE: return "inactive";
    case S_ACTIVE: return "active";
    case S_FINAL: return "finalized";
    case 11: return "cleaningup";
    case 12: return "shuttingdown";
    case 13: return "activating";
    case 14: return "deactivating";
    case 10: return "configuring";
    case 15: return "errorprocessing";
  }
  return "?";
}
void violate(const char * prop, const string & sig, const char * fmt, ...)
{
  NoPreempt np;
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  string full = string(prop) + "/" + sig;
  if (simrt::trace_on()) simrt::tracef("!! %s: %s", full.c_str(), b);
  int n = 0;
  for (auto & v : W->viols) n += v.sig == full;
  if (n < 3) W->viols.push_back({prop, full, b, simrt::now_ns(), W->cycle});
}
void probe(const string & n) { NoPreempt np; W->probes[n]++; }
void note(const char * fmt, ...)
{
  NoPreempt np;
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  char c[1200];
  snprintf(c, sizeof c, "[%.6f c%llu %s] %s", static_cast<double>(simrt::now_ns() - 1000000000000ll) / 1e9, static_cast<unsigned long long>(W->cycle), simrt::current_fiber_name(), b);
  if (simrt::trace_on()) simrt::tracef("%s", c);
  uint64_t h = W->trace_hash;
  for (const char * p = c; *p; ++p) h = (h ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
  W->trace_hash = h;
  W->log.push_back(c);
  if (W->log.size() > 4000) W->log.erase(W->log.begin(), W->log.begin() + 1000);
}
bool inside_rt() { return W->rt_fiber >= 0 && simrt::current_fiber() == W->rt_fiber; }
void spend(int64_t ns)
{
  if (inside_rt()) W->rt_spend += ns;
  W->slow_total += static_cast<uint64_t>(ns);
  W->slow_until = std::max(W->slow_until, simrt::now_ns() + static_cast<int64_t>(ns));
  simrt::spend_ns(ns);
}
namespace
{
bool async_who(const string & who)
{
  for (auto & h : W->plan.hw) if (h.name == who) return h.is_async;
  for (auto & c : W->plan.ctrl) if (c.name == who) return c.is_async;
  return false;
}
constexpr uint64_t ASYNC_SLACK = 130;
}  // namespace
void mark_disturb(bool async)
{
  W->disturb_seq = W->seq;
  W->disturb_cycle_until = std::max<uint64_t>(W->disturb_cycle_until, W->cycle + (async ? ASYNC_SLACK : 3));
}
FaultHit fire(const string & who, const string & cb)
{
  NoPreempt np;
  W->seq++;
  int n = W->cb_count[who + "." + cb]++;
  FaultHit r;
  for (auto & f : W->plan.faults) {
    if (f.who != who || f.cb != cb) continue;
    if (n < f.nth || n >= f.nth + f.count) continue;
    f.fired++;
    W->faults_fired[cb + ":" + f.eff]++;
    note("FAULT %s.%s #%d -> %s %lld", who.c_str(), cb.c_str(), n, f.eff.c_str(), static_cast<long long>(f.arg));
    r.eff = f.eff;
    r.arg = f.arg;
    bool io = cb == "update" || cb == "read" || cb == "write";
    if (io && f.eff != "slow" && f.eff != "nan" && f.eff != "nanstate") { mark_disturb(async_who(who)); W->who_failed[who] = W->cycle + (async_who(who) ? ASYNC_SLACK : 3); }
    if (W->cur) { W->cur->faults++; if (f.eff == "slow") W->cur->slow_ns += static_cast<uint64_t>(f.arg); if (f.eff != "slow" && !io) W->cur->cb_faults.insert(who + "." + cb); }
    break;
  }
  return r;
}
void changed()
{
  W->seq++;
  W->last_change_seq = W->seq;
  W->last_change_t = simrt::now_ns();
  W->last_change_cycle = W->cycle;
  // abstract state reached
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; };
  for (auto & c : W->ctrls)
    if (c->alive && c->inited) {
      for (char ch : c->name) mix(static_cast<uint64_t>(ch));
      mix(static_cast<uint64_t>(c->state()) * 4 + (c->chained ? 1 : 0));
      mix(c->held_cmd.size());
    }
  for (auto & x : W->hws)
    if (x->alive) { for (char ch : x->name) mix(static_cast<uint64_t>(ch)); mix(static_cast<uint64_t>(x->st)); }
  mix(W->cur ? static_cast<uint64_t>(W->cur->op) + 1 : 0);
  mix(static_cast<uint64_t>(W->phase));
  W->state_hashes.insert(h);
}
CtrlObj * live_ctrl(const string & n)
{
  CtrlObj * r = nullptr;
  for (auto & c : W->ctrls) if (c->alive && c->inited && c->name == n && !c->discarded) r = c.get();
  return r;
}
HwObj * live_hw(const string & n)
{
  HwObj * r = nullptr;
  for (auto & h : W->hws) if (h->alive && h->init_ok && h->name == n) r = h.get();
  return r;
}
const HwPlan * hw_of_interface(const string & itf)
{
  auto p = itf.rfind('/');
  if (p == string::npos) return nullptr;
  string pre = itf.substr(0, p), nm = itf.substr(p + 1);
  for (auto & h : W->plan.hw)
    for (auto & j : h.joints)
      if (j.name == pre) {
        for (auto & c : j.cmd) if (c.name == nm) return &h;
        for (auto & s : j.state) if (s == nm) return &h;
      }
  return nullptr;
}
string ctrl_of_interface(const string & itf)
{
  auto p = itf.find('/');
  if (p == string::npos) return "";
  string pre = itf.substr(0, p), nm = itf.substr(p + 1);
  for (auto & c : W->plan.ctrl)
    if (c.chainable && c.name == pre) {
      for (int i = 0; i < c.nref; ++i) if (nm == "ref" + std::to_string(i)) return c.name;
      for (int i = 0; i < c.nstate; ++i) if (nm == "est" + std::to_string(i)) return c.name;
    }
  return "";
}
Snap take_snap()
{
  NoPreempt np;
  Snap s;
  for (auto & c : W->ctrls)
    if (c->alive && c->inited && !c->discarded) {
      CtrlSnap x;
      x.obj = c->id;
      x.state = c->state();
      x.chained = c->p->is_in_chained_mode();
      x.cmd = c->held_cmd;
      x.change_seq = c->change_seq;
      x.loaded = c->loaded;
      x.n_act = c->n_act;
      s.c[c->name] = x;
    }
  for (auto & h : W->hws) if (h->alive && h->init_ok) s.h[h->name] = h->st;
  s.cycle = W->cycle;
  s.disturb = W->disturb_seq;
  s.t = simrt::now_ns();
  return s;
}
bool quiet_for(const Req & r)
{
  if (W->disturb_seq >= r.seq_begin || r.pre_disturb_until >= r.cycle_begin) return false;
  for (auto & h : W->hws) if (h->alive && h->io_failed && h->plan && !h->plan->group.empty()) return false;
  return true;
}

// --------------------------------------------------------------------------- controllers
void on_ctrl_created(CtrlObj * o)
{
  note("ctrl %s#%d created", o->name.c_str(), o->id);
}
void ora_assign(CtrlObj * o)
{
  W->seq++;
  string l;
  for (auto & i : o->held_cmd) {
    auto & h = W->holders[i];
    l += " " + i;
    if (!h.empty() && !h.count(o->id)) {
      auto & other = *W->ctrls[static_cast<size_t>(*h.begin())];
      violate("C01", "double-claim", "%s gets command interface %s held by %s", o->name.c_str(), i.c_str(), other.name.c_str());
      if (!ctrl_of_interface(i).empty()) violate("C08", "reference-claimed-twice", "%s gets reference %s held by %s", o->name.c_str(), i.c_str(), other.name.c_str());
    }
    h.insert(o->id);
  }
  o->assigned = true;
  if (o->deact_kept) o->last_upd_now = -2;  // (a restart that it refused starts a new period all the same)
  o->deact_kept = false;
  o->last_held_cmd = o->held_cmd;
  o->last_held_state = o->held_state;
  note("%s#%d assigned%s", o->name.c_str(), o->id, l.c_str());
  changed();
}
void ora_release(CtrlObj * o)
{
  W->seq++;
  for (auto & i : o->held_cmd) W->holders[i].erase(o->id);
  if (!o->held_cmd.empty()) note("%s#%d releases", o->name.c_str(), o->id);
  o->held_cmd.clear();
  o->held_state.clear();
  o->assigned = false;
  if (o->alive && o->p) changed();
}
namespace
{
bool in_chain(const CtrlObj * o)
{
  if (!o->plan || o->plan->chainable || o->plan->cmd_type != "individual" || o->plan->state_type != "individual") return true;
  for (auto * l : {&o->plan->cmd, &o->plan->state}) for (auto & i : *l) if (!ctrl_of_interface(i).empty()) return true;
  return false;
}
}  // namespace
void ora_ctrl_lc(CtrlObj * o, const char * cb, bool begin, int result)
{
  W->seq++;
  bool async = o->is_async();
  if (begin) {
    note("%s#%d on_%s (state %s)", o->name.c_str(), o->id, cb, state_name(o->state()));
    if (o->in_update) violate(async ? "C12" : "C20", "update-overlaps-" + string(cb), "%s: on_%s starts while its update runs", o->name.c_str(), cb);
    if (o->in_lc) violate("C17", "lifecycle-overlap-" + string(cb), "%s: on_%s starts inside another lifecycle callback", o->name.c_str(), cb);
    o->in_lc++;
    string c = cb;
    if (c == "activate") {
      if (o->plan) {
        for (auto & i : o->plan->cmd)
          if (o->plan->cmd_type == "individual" && !o->held_cmd.count(i)) violate("C01", "activated-without-interface", "%s activated without command interface %s", o->name.c_str(), i.c_str());
        for (auto & i : o->plan->state)
          if (o->plan->state_type == "individual" && !o->held_state.count(i)) violate("C01", "activated-without-state-interface", "%s activated without state interface %s", o->name.c_str(), i.c_str());
      }
      o->n_act++;
      o->act_seq = W->seq;
      diag_activate(o);
      if (W->cur && W->cur->plan && W->cur->plan->op == "switch") W->cur->activated.insert(o->name);
    }
    // (requests which only start controllers are no reason, except when the activation is taken back in the same cycle)
    if (c == "deactivate" && inside_rt() && (!W->cur || (W->cur->plan && only_starts(*W->cur->plan))) && W->other_req_cycle + 3 < W->cycle && ((W->req_cycle + 3 < W->cycle && !W->cur && !W->req_in_cycle) || !in_chain(o)) && o->act_cycle < W->cycle && !W->shutting_down && W->services_up) {
      // stopped by the control loop: because of a failure of itself since its activation, or a recent one of another plugin
      bool reason = o->fail_pending;
      for (auto & x : W->who_failed) reason |= x.first != o->name && x.second >= W->cycle;
      probe("stopped_by_loop_checked");
      if (!reason) violate(o->is_async() ? "C12" : "C07", "stopped-without-reason", "controller %s is stopped by the control loop although its update did not fail since its activation", o->name.c_str());
    }
    if (c == "deactivate") { o->n_deact++; if (W->cur) W->cur->deactivated[o->name] = o->last_held_cmd; }
    if (c == "configure") {
      o->n_conf++;
      // the rate in effect is the requested one, or the nearest that is a whole number of cycles
      int64_t want = o->plan && o->plan->rate > 0 ? o->plan->rate : W->plan.update_rate;
      auto x = W->rate_param.find(o->name);
      bool changed = false;
      if (x != W->rate_param.end()) { want = x->second.first; changed = !W->cur || x->second.second >= W->cur->seq_begin; }
      const int64_t cm = W->plan.update_rate;
      int64_t eff = want > cm ? cm : cm % want == 0 ? want : cm / std::lround(static_cast<double>(cm) / static_cast<double>(want));
      if (!changed && static_cast<int64_t>(o->rate()) != eff) violate("C11", "rate-not-applied", "%s is configured for %lld Hz and runs at %u Hz, expected %lld Hz", o->name.c_str(), static_cast<long long>(want), o->rate(), static_cast<long long>(eff));
      else probe(x != W->rate_param.end() ? "rate_changed_checked" : "rate_checked");
    }
    if (c == "cleanup") o->n_clean++;
    if (c == "shutdown") o->n_shut++;
    if (c == "error") o->n_err++;
    if (W->shutdown_done && c != "error" && c != "shutdown" && c != "deactivate" && c != "cleanup") violate("C16", "controller-started-after-shutdown", "%s: on_%s after everything was shut down", o->name.c_str(), cb);
    if (W->main_returned) violate("C16", "lifecycle-after-exit", "%s: on_%s after the main function returned", o->name.c_str(), cb);
    return;
  }
  o->in_lc--;
  o->change_seq = W->seq;
  string c = cb;
  if (c == "activate" && result == 0) {
    o->act_ok++;
    o->act_cycle = W->cycle;
    o->act_time = simrt::now_ns();
    o->updates_since_act = 0;
    o->cycles_since_act = 0;
    o->last_upd_time = -1;
    o->last_upd_now = -1;
    o->deact_failed = o->deact_kept = false;
    o->fail_pending = false;
    // the failure handling of the control loop goes on without the switch if a component is not available
    if (inside_rt() && !W->cur && o->plan && o->plan->cmd_type == "individual") {
      bool gone = false;
      for (auto & i : o->plan->cmd) if (auto * h = hw_of_interface(i)) { HwObj * x = live_hw(h->name); gone |= !x || x->st != S_ACTIVE; }
      if (gone) for (auto & i : o->plan->cmd) if (auto * h = hw_of_interface(i)) if (HwObj * x = live_hw(h->name)) x->mode[i] = -1;
    }
  }
  if (c == "error" && (result != 0 || W->plan.extra.count("errfail." + o->name))) o->err_failed = true;
  if (c == "deactivate") {
    o->deact_cycle = W->cycle;
    o->deact_seq = W->seq;
    if (result == 1) o->deact_failed = o->deact_kept = true;
    if (result != 0) probe("deactivate_refused");
  }
  if (result) note("%s#%d on_%s -> %s", o->name.c_str(), o->id, cb, result == 1 ? "FAILURE" : "ERROR");
  changed();
}
int64_t clock_now() { return W->plan.use_sim_time ? simros::get_sim_clock() : simrt::now_ns(); }
// executions at a lower rate: the cycle that is nearest to the end of the period
int64_t due_after(unsigned rate, unsigned cm) { return static_cast<int64_t>(1e9 / rate - 0.5e9 / cm); }
void ora_update_begin(CtrlObj * o, int64_t time_ns, int64_t period_ns)
{
  W->seq++;
  bool async = o->is_async();
  const char * pr = async ? "C12" : "C20";
  int st = o->state();
  o->n_update++;
  if (o->in_update) violate(pr, "concurrent-update", "%s: update starts while its update runs", o->name.c_str());
  if (o->in_lc) violate(pr, "update-in-lifecycle-callback", "%s: update starts inside a lifecycle callback (state %s)", o->name.c_str(), state_name(st));
  else if (st != S_ACTIVE) violate(pr, string("update-while-") + state_name(st), "%s: updated in state %s", o->name.c_str(), state_name(st));
  o->in_update++;
  if (W->main_returned) violate("C16", "update-after-exit", "%s updated after the main function returned", o->name.c_str());
  if (o->n_shut) violate("C16", "update-after-finalize", "%s updated after its shutdown callback", o->name.c_str());
  if (period_ns <= 0) violate("C11", "period-not-positive", "%s: period %lld ns", o->name.c_str(), static_cast<long long>(period_ns));
  int64_t now = W->plan.use_sim_time ? simros::get_sim_clock() : simrt::now_ns();
  if (!async) {
    if (!inside_rt() || W->phase != 2) violate("C20", "update-outside-update-phase", "%s updated in phase %d by %s", o->name.c_str(), W->phase, simrt::current_fiber_name());
    if (o->upd_in_cycle == W->cycle) violate("C20", "updated-twice", "%s updated twice in cycle %llu", o->name.c_str(), static_cast<unsigned long long>(W->cycle));
    o->upd_in_cycle = W->cycle;
    W->order.push_back(o->id);
    unsigned rate = o->rate(), cm = static_cast<unsigned>(W->plan.update_rate);
    bool low = rate > 0 && rate < cm;
    diag_update_begin(o, period_ns, o->last_upd_now == -1);
    if (o->last_upd_now == -1) {
      int64_t want = low ? static_cast<int64_t>(1e9 / rate) : W->period_in;
      if (std::llabs(period_ns - want) > 2000) violate("C11", "first-period", "%s: first period after activation %lld ns, expected %lld ns", o->name.c_str(), static_cast<long long>(period_ns), static_cast<long long>(want));
    } else if (o->last_upd_now > 0) {
      int64_t want = now - o->last_upd_now;
      if (low && time_ns != 0 && period_ns < due_after(rate, cm) - 2000) violate("C11", "updated-too-early", "%s (%u Hz) is updated with the period %lld ns", o->name.c_str(), rate, static_cast<long long>(period_ns));
      if (std::llabs(period_ns - want) > 1000000 + W->jitter_tol) violate("C11", "period-wrong", "%s: period %lld ns but %lld ns since its previous update", o->name.c_str(), static_cast<long long>(period_ns), static_cast<long long>(want));
    }
    o->last_upd_now = now;
    o->updates_since_act++;
  } else {
    if (o->held_cmd.empty() && !o->deact_failed && o->plan && !o->plan->cmd.empty() && o->plan->cmd_type == "individual") violate("C12", "update-without-interfaces", "%s: asynchronous update after its interfaces were released", o->name.c_str());
  }
}
void ora_update_end(CtrlObj * o, const string & eff)
{
  W->seq++;
  o->in_update--;
  bool async = o->is_async();
  if (!async) diag_update_end(o, eff);
  if (async && o->in_lc) violate("C12", "update-overlaps-lifecycle-end", "%s: update ends inside a lifecycle callback", o->name.c_str());
  if (eff.empty()) return;
  o->fail_cycle = W->cycle;
  o->fail_pending = true;
  CtrlFail f;
  f.ctrl = o->id;
  f.eff = eff;
  f.cycle = W->cycle;
  f.async = async;
  // controllers connected through claimed references / exported states
  std::set<int> comp{o->id};
  for (bool grow = true; grow;) {
    grow = false;
    for (auto & a : W->ctrls) {
      if (!a->alive || a->state() != S_ACTIVE) continue;
      auto link = [&](const std::set<string> & held) {
        for (auto & i : held) {
          string e = ctrl_of_interface(i);
          if (e.empty()) continue;
          CtrlObj * x = live_ctrl(e);
          if (!x || x->state() != S_ACTIVE) continue;
          bool ia = comp.count(a->id), ix = comp.count(x->id);
          if (ia != ix) { comp.insert(a->id); comp.insert(x->id); grow = true; }
        }
      };
      link(a->held_cmd);
      link(a->held_state);
    }
  }
  f.chain = comp;
  for (auto & a : W->ctrls) if (a->alive && a->inited && a->state() == S_ACTIVE) f.active.push_back({a->id, a->n_act, a->n_deact});
  W->cfail.push_back(f);
}

// --------------------------------------------------------------------------- hardware
void ora_hw_lc(HwObj * o, const char * cb, bool begin, int result, bool threw)
{
  W->seq++;
  string c = cb;
  bool async = o->plan && o->plan->is_async;
  if (begin) {
    su_hw_lc(o, c);
    note("hw %s on_%s (state %s)", o->name.c_str(), cb, state_name(o->st));
    if (o->in_rw) violate(async ? "C12" : "C09", "io-overlaps-" + c, "hardware %s: on_%s starts while read/write runs", o->name.c_str(), cb);
    if (o->in_lc && !(c == "error" && o->pending_err)) violate("C09", "lifecycle-overlap-" + c, "hardware %s: on_%s starts inside another lifecycle callback", o->name.c_str(), cb);
    o->in_lc++;
    if (c == "configure" || c == "activate") o->last_read_now = o->last_write_now = -1, o->reads_since = 0;
    bool legal = true;
    if (c == "configure") { legal = o->st == S_UNCONF; o->n_conf++; }
    if (c == "activate") { legal = o->st == S_INACTIVE; o->n_act++; }
    if (c == "deactivate") { legal = o->st == S_ACTIVE; o->n_deact++; }
    if (c == "cleanup") { legal = o->st == S_INACTIVE; o->n_clean++; }
    if (c == "shutdown") { legal = o->st == S_UNCONF || o->st == S_INACTIVE || o->st == S_ACTIVE; o->n_shut++; }
    if (c == "error") {
      o->n_err++;
      legal = o->st == S_ERRPROC || ((o->st == S_INACTIVE || o->st == S_ACTIVE) && (o->fail_open || o->group_pending));
      o->fail_open = o->group_pending = false;
    }
    if (!legal) violate("C09", "illegal-" + c + "-from-" + state_name(o->st), "hardware %s: on_%s called in state %s", o->name.c_str(), cb, state_name(o->st));
    if (W->shutdown_done && (c == "configure" || c == "activate")) violate("C16", "hardware-started-after-shutdown", "hardware %s: on_%s after everything was shut down", o->name.c_str(), cb);
    if (W->shutting_down && simrt::current_fiber() == W->shutdown_fiber && (c == "deactivate" || c == "shutdown"))
      for (auto & x : W->ctrls) {
        if (!x->alive || !x->inited || !x->loaded || x->state() != S_ACTIVE || x->deact_failed) continue;
        for (auto & i : x->held_cmd) {
          auto * hp = hw_of_interface(i);
          if (hp && hp->name == o->name) { violate("C16", "hardware-stopped-before-controllers", "hardware %s: on_%s although controller %s is active and commands %s", o->name.c_str(), cb, x->name.c_str(), i.c_str()); break; }
        }
      }
    if (W->main_returned) violate("C16", "hw-lifecycle-after-exit", "hardware %s: on_%s after the main function returned", o->name.c_str(), cb);
    return;
  }
  o->in_lc--;
  o->change_seq = W->seq;
  o->change_cycle = W->cycle;
  if (threw) {
    note("hw %s on_%s throws", o->name.c_str(), cb);
    o->threw = true;
    o->lc_failed = true;
    o->st_alt = o->st;
    changed();
    return;
  }
  if (result) o->lc_failed = true;
  int prev = o->st;
  if (c == "configure") o->st = result == 0 ? S_INACTIVE : result == 1 ? S_UNCONF : S_ERRPROC;
  if (c == "activate") o->st = result == 0 ? S_ACTIVE : result == 1 ? S_INACTIVE : S_ERRPROC;
  if (c == "deactivate") o->st = result == 0 ? S_INACTIVE : result == 1 ? S_ACTIVE : S_ERRPROC;
  if (c == "cleanup") o->st = result == 0 ? S_UNCONF : S_ERRPROC;
  if (c == "shutdown") o->st = result == 0 ? S_FINAL : S_ERRPROC;
  if (c == "error") o->st = result == 0 ? S_UNCONF : S_FINAL;
  // an ERROR while configuring happens in the unconfigured state: error handling has nothing to undo there
  if (o->st == S_ERRPROC && prev == S_UNCONF) o->st = S_UNCONF;
  o->pending_err = o->st == S_ERRPROC;
  if (c == "activate" && result == 0) {
    o->act_cycle = W->cycle;
    o->io_failed = false;
    o->ok_act++;
  }
  if (c == "configure" && result == 0) o->group_pending = false;
  if (c == "deactivate" && result == 0) o->deact_cycle = W->cycle;
  if (result) note("hw %s on_%s -> %s => %s", o->name.c_str(), cb, result == 1 ? "FAILURE" : "ERROR", state_name(o->st));
  changed();
}
void ora_rw_begin(HwObj * o, bool wr, int64_t time_ns, int64_t period_ns)
{
  (void)time_ns;
  W->seq++;
  const char * w = wr ? "write" : "read";
  bool async = o->plan && o->plan->is_async;
  (wr ? o->n_write : o->n_read)++;
  if (o->in_rw) violate(async ? "C12" : "C09", string("concurrent-") + w, "hardware %s: %s starts while read/write runs", o->name.c_str(), w);
  if (o->in_lc) violate(async ? "C12" : "C09", string(w) + "-in-lifecycle-callback", "hardware %s: %s starts inside a lifecycle callback", o->name.c_str(), w);
  else {
    bool okst = wr ? o->st == S_ACTIVE : (o->st == S_ACTIVE || o->st == S_INACTIVE);
    if (!okst) violate(async ? "C12" : "C09", string(w) + "-while-" + state_name(o->st), "hardware %s: %s in state %s", o->name.c_str(), w, state_name(o->st));
  }
  if (wr && o->io_failed) violate("C06", "failed-hardware-written", "hardware %s is written after its failure without a new activation", o->name.c_str());
  if (wr && o->plan && o->plan->kind == "sensor") violate("C09", "sensor-written", "sensor %s written", o->name.c_str());
  // members handle the failure in their next read, those read before the failed one in the next cycle
  if (wr && o->group_fail.ok_act >= 0 && o->group_fail.ok_act == o->ok_act && W->cycle > o->group_fail.cycle + (W->req_in_cycle || W->cur || W->req_cycle + 1 >= W->cycle ? 1 : 0) && !async)
    violate("C10", "group-member-written", "hardware %s is written in cycle %llu although member %s of its group failed in cycle %llu", o->name.c_str(), static_cast<unsigned long long>(W->cycle), o->group_fail.by.c_str(), static_cast<unsigned long long>(o->group_fail.cycle));
  if (W->main_returned) violate("C16", "io-after-exit", "hardware %s: %s after the main function returned", o->name.c_str(), w);
  if (o->n_shut && o->st == S_FINAL) violate("C16", "io-after-finalize", "hardware %s: %s after its shutdown", o->name.c_str(), w);
  if (period_ns <= 0) violate("C11", string("hw-period-not-positive-") + w, "hardware %s: %s period %lld ns", o->name.c_str(), w, static_cast<long long>(period_ns));
  o->in_rw++;
  int64_t now = W->plan.use_sim_time ? simros::get_sim_clock() : simrt::now_ns();
  if (!async) {
    if (!inside_rt() || W->phase != (wr ? 3 : 1)) violate("C20", string(w) + "-outside-its-phase", "hardware %s: %s in phase %d by %s", o->name.c_str(), w, W->phase, simrt::current_fiber_name());
    uint64_t & lc = wr ? o->last_write_cycle : o->last_read_cycle;
    if (lc == W->cycle && lc) violate("C11", string("hw-twice-in-cycle-") + w, "hardware %s: %s twice in cycle %llu", o->name.c_str(), w, static_cast<unsigned long long>(W->cycle));
    lc = W->cycle;
    int64_t & last = wr ? o->last_write_now : o->last_read_now;
    unsigned rate = o->plan ? static_cast<unsigned>(o->plan->rw_rate) : 0, cm = static_cast<unsigned>(W->plan.update_rate);
    bool low = rate > 0 && rate < cm;
    if (!low) {
      if (std::llabs(period_ns - W->period_in) > 2000) violate("C11", string("hw-period-") + w, "hardware %s: %s period %lld ns, cycle period %lld ns", o->name.c_str(), w, static_cast<long long>(period_ns), static_cast<long long>(W->period_in));
    } else if (last >= 0) {
      int64_t want = now - last;
      if (o->reads_since > 1 && period_ns < due_after(rate, cm) - 2000) violate("C11", string("hw-too-early-") + w, "hardware %s (%u Hz): %s with the period %lld ns", o->name.c_str(), rate, w, static_cast<long long>(period_ns));
      // the reference of the first execution after a state change is the last cycle before it
      if (o->reads_since > 1 && std::llabs(period_ns - want) > 1000000 + W->jitter_tol) violate("C11", string("hw-period-") + w, "hardware %s: %s period %lld ns but %lld ns since the previous one", o->name.c_str(), w, static_cast<long long>(period_ns), static_cast<long long>(want));
    }
    last = now;
    if (!wr) o->reads_since++;
  }
}
void ora_rw_end(HwObj * o, bool wr, const string & eff)
{
  W->seq++;
  o->in_rw--;
  if (eff.empty()) return;
  HwFail f;
  f.hw = o->id;
  f.wr = wr;
  f.eff = eff;
  f.cycle = W->cycle;
  f.async = o->plan && o->plan->is_async;
  f.ok_act = o->ok_act; f.left = o->n_deact + o->n_shut;
  bool deact_req = wr && eff == "deactivate";
  if (!deact_req) { o->io_failed = o->ever_io_failed = o->fail_open = true; o->fail_cycle = W->cycle; o->fail_wr = wr; }
  else o->deact_asked = W->cycle;
  if (!deact_req && o->plan && !o->plan->group.empty())
    for (auto & m : W->hws)
      if (m->alive && m.get() != o && m->plan && m->plan->group == o->plan->group && (m->st == S_ACTIVE || m->st == S_INACTIVE || m->in_lc)) m->group_pending = true;
  if (!deact_req && o->plan && !o->plan->group.empty() && !f.async)
    for (auto & m : W->hws)
      if (m->alive && m.get() != o && m->plan && m->plan->group == o->plan->group && m->st == S_ACTIVE) {
        f.members.push_back({m->id, m->ok_act});
        m->group_fail = {o->name, W->cycle, m->ok_act};
      }
  for (auto & c : W->ctrls) {
    if (!c->alive || !c->inited || c->state() != S_ACTIVE) continue;
    f.active.push_back({c->id, c->n_act, c->n_deact});
    bool cmd = false, any = false;
    for (auto & i : c->held_cmd) { auto * h = hw_of_interface(i); if (h && h->name == o->name) cmd = any = true; }
    for (auto & i : c->held_state) { auto * h = hw_of_interface(i); if (h && h->name == o->name) any = true; }
    if (any) f.deps.push_back({c->id, c->n_act, c->n_deact});
    if (cmd) f.cmd_deps.push_back(c->id);
  }
  for (auto & h : W->hws) if (h->alive && !h->io_failed && !h->fail_open && !h->threw && !(h->deact_asked && h->deact_asked + 3 >= W->cycle) && !h->group_pending) f.hw_st.push_back({h->id, h->st});
  W->hwfail.push_back(f);
}
namespace { HwObj & H(int id); }
void ora_mode(HwObj * o, bool prepare, const std::vector<string> & start, const std::vector<string> & stop, bool ok)
{
  W->seq++;
  ModeEvt e;
  e.seq = W->seq;
  e.cycle = W->cycle;
  e.hw = o->id;
  e.prep = prepare;
  e.ok = ok;
  e.start.insert(start.begin(), start.end());
  e.stop.insert(stop.begin(), stop.end());
  e.in_req = W->cur != nullptr;
  string s;
  for (auto & i : start) s += " +" + i;
  for (auto & i : stop) s += " -" + i;
  if (!prepare) lim_forget();
  note("hw %s %s%s%s", o->name.c_str(), prepare ? "prepare" : "perform", s.c_str(), ok ? "" : " REJECT");
  for (auto * l : {&start, &stop})
    for (auto & i : *l) {
      auto * h = hw_of_interface(i);
      if (!h || h->name != o->name) violate("C14", "foreign-interface", "hardware %s asked to %s for %s which it does not own", o->name.c_str(), prepare ? "prepare" : "perform", i.c_str());
    }
  // (a component failing in the control loop while it is asked by another thread left the state just now)
  if (o->st != S_ACTIVE && o->st != S_INACTIVE && !o->in_lc && o->change_cycle + 1 < W->cycle && !(W->cur && o->change_seq >= W->cur->seq_begin)) violate("C14", string("mode-switch-while-") + state_name(o->st), "hardware %s asked for a mode switch in state %s", o->name.c_str(), state_name(o->st));
  W->modes.push_back(e);
  if (!ok) {
    // refused: what the other components did with the same request is not taken back
    W->mode_refused_cycle = W->cycle;
    W->mode_refused_req = W->cur;
    for (auto it = W->modes.rbegin(); it != W->modes.rend() && (it->cycle == W->cycle || (W->mode_refused_req && it->seq >= W->cur->seq_begin)); ++it)
      for (auto * l : {&it->start, &it->stop}) for (auto & i : *l) H(it->hw).mode[i] = -1;
  } else if (prepare) {
    // the failure handling of the control loop goes on without the switch if a component is not available
    if (!W->cur) for (auto * l : {&start, &stop}) for (auto & i : *l) o->mode[i] = -1;
  } else {
    const bool unk = (W->mode_refused_cycle && W->mode_refused_cycle == W->cycle) || (W->cur && W->cur == W->mode_refused_req);
    // a controller whose deactivation failed names interfaces which others might use by now
    auto zombie = [](const string & i) {
      for (auto & c : W->ctrls)
        if (c->alive && c->plan && c->state() == S_ACTIVE && (c->deact_failed || !c->assigned) && std::count(c->plan->cmd.begin(), c->plan->cmd.end(), i)) return true;
      return false;
    };
    for (auto & i : stop) o->mode[i] = unk || zombie(i) ? -1 : 0;
    for (auto & i : start) o->mode[i] = unk ? -1 : 1;
  }
}

// --------------------------------------------------------------------------- control loop
namespace
{
CtrlObj & C(int id) { return *W->ctrls[static_cast<size_t>(id)]; }
HwObj & H(int id) { return *W->hws[static_cast<size_t>(id)]; }

std::set<string> names_in_request()
{
  std::set<string> s;
  if (W->cur && W->cur->plan) { s.insert(W->cur->plan->a.begin(), W->cur->plan->a.end()); s.insert(W->cur->plan->b.begin(), W->cur->plan->b.end()); }
  return s;
}
// connected controllers (claims, in either direction) of a set
std::set<int> chain_closure(std::set<int> comp)
{
  for (bool grow = true; grow;) {
    grow = false;
    for (auto & a : W->ctrls) {
      if (!a->alive || !a->plan) continue;
      for (auto * l : {&a->plan->cmd, &a->plan->state})
        for (auto & i : *l) {
          string e = ctrl_of_interface(i);
          if (e.empty()) continue;
          CtrlObj * x = live_ctrl(e);
          if (!x) continue;
          bool ia = comp.count(a->id), ix = comp.count(x->id);
          if (ia != ix) { comp.insert(a->id); comp.insert(x->id); grow = true; }
        }
    }
  }
  return comp;
}
std::set<int> fallback_closure(const std::set<int> & comp)
{
  std::set<int> r = comp;
  std::set<string> itf;
  for (int id : comp)
    if (C(id).plan)
      for (auto & f : C(id).plan->fallbacks) {
        if (CtrlObj * x = live_ctrl(f)) {
          r.insert(x->id);
          if (x->plan) itf.insert(x->plan->cmd.begin(), x->plan->cmd.end());
          if (x->plan && (x->plan->cmd_type == "all" || x->plan->cmd_type == "regex"))
            for (auto & a : W->ctrls) if (a->alive) r.insert(a->id);
        }
      }
  for (auto & a : W->ctrls)
    if (a->alive && a->plan)
      for (auto & i : a->plan->cmd) if (itf.count(i)) r.insert(a->id);
  return chain_closure(r);
}
void hw_failure_checks(const HwFail & f)
{
  HwObj & h = H(f.hw);
  bool deact = f.wr && f.eff == "deactivate";
  string kind = string(f.wr ? "write-" : "read-") + f.eff + (f.async ? "-async" : "");
  if (W->shutting_down) return;
  if (deact) {
    if (h.alive && h.st == S_ACTIVE && h.ok_act == f.ok_act && h.act_cycle <= f.cycle && W->faults_fired.count("deactivate:failure") == 0 && W->faults_fired.count("deactivate:throw") == 0)
      violate("C06", "self-deactivated-hardware-active/" + kind, "hardware %s asked for deactivation in cycle %llu and is still active", h.name.c_str(), static_cast<unsigned long long>(f.cycle));
    if (W->plan.deact_on_self)
      for (int id : f.cmd_deps) {
        CtrlObj & c = C(id);
        for (auto & d : f.deps)
          if (d[0] == id && c.alive && c.state() == S_ACTIVE && c.n_act == d[1] && c.n_deact == d[2])
            violate("C06", "commander-still-active/" + kind, "controller %s commands hardware %s which deactivated itself in cycle %llu and is still active", c.name.c_str(), h.name.c_str(), static_cast<unsigned long long>(f.cycle));
      }
    return;
  }
  if (h.alive && h.st == S_ACTIVE && h.ok_act == f.ok_act && h.act_cycle <= f.cycle)
    violate("C06", "failed-hardware-active/" + kind, "hardware %s failed in cycle %llu and is still active", h.name.c_str(), static_cast<unsigned long long>(f.cycle));
  // stopped by a request before the control loop noticed the failure
  if (f.async && h.n_deact + h.n_shut != f.left) return;
  for (auto & d : f.deps) {
    CtrlObj & c = C(d[0]);
    if (c.alive && c.state() == S_ACTIVE && c.n_act == d[1] && c.n_deact == d[2])
      violate("C06", "dependant-still-active/" + kind, "controller %s uses hardware %s which failed in cycle %llu and is still active", c.name.c_str(), h.name.c_str(), static_cast<unsigned long long>(f.cycle));
  }
}
// active asynchronous plugins are executed again and again
void async_progress()
{
  const int64_t now = simrt::now_ns();
  auto stuck = [&](uint64_t & n, uint64_t & cyc, int64_t & t, uint64_t cur, bool idle, uint64_t rate) {
    if (n != cur || !idle || W->slow_until >= t) { n = cur; cyc = W->cycle; t = now; return false; }
    uint64_t cm = static_cast<uint64_t>(W->plan.update_rate), ratio = rate > 0 && rate < cm ? cm / rate + 1 : 1;
    return W->cycle > cyc + 3 * ratio + 20 && now - t > static_cast<int64_t>(3 * ratio + 20) * 1000000000ll / W->plan.update_rate;
  };
  for (auto & c : W->ctrls) {
    if (!c->alive || !c->inited || !c->loaded || !c->is_async()) continue;
    bool idle = c->state() == S_ACTIVE && !c->in_update && !c->fail_pending && !c->in_lc && !c->deact_failed && !W->shutting_down;
    if (idle) probe("async_progress_watched");
    if (stuck(c->live_n, c->live_cycle, c->live_t, c->n_update, idle, c->rate()))
      { c->live_cycle = W->cycle; violate("C12", "controller-not-updated", "active asynchronous controller %s was not updated for %.1f ms", c->name.c_str(), static_cast<double>(now - c->live_t) / 1e6); }
  }
  for (auto & h : W->hws) {
    if (!h->alive || !h->plan || !h->plan->is_async) continue;
    bool idle = h->st == S_ACTIVE && !h->in_rw && !h->in_lc && !h->io_failed && !h->lc_failed && h->reported() == S_ACTIVE && !W->shutting_down;
    if (idle) probe("async_progress_watched_hw");
    if (stuck(h->live_n, h->live_cycle, h->live_t, static_cast<uint64_t>(h->n_read), idle, static_cast<uint64_t>(std::max(0, h->plan->rw_rate))))
      { h->live_cycle = W->cycle; violate("C12", "hardware-not-read", "active asynchronous hardware %s was not read for %.1f ms", h->name.c_str(), static_cast<double>(now - h->live_t) / 1e6); }
  }
}
void hw_containment(const HwFail & f)
{
  HwObj & h = H(f.hw);
  if (W->shutting_down) return;
  std::set<int> dep;
  for (auto & d : f.deps) dep.insert(d[0]);
  std::set<string> group;
  for (auto & o : W->hws)
    if (o->alive && o->plan && (o->name == h.name || (!o->plan->group.empty() && h.plan && o->plan->group == h.plan->group))) group.insert(o->name);
  for (auto & a : W->ctrls) {
    if (!a->alive || !a->plan) continue;
    for (auto * l : {&a->plan->cmd, &a->plan->state, })
      for (auto & i : *l) { auto * x = hw_of_interface(i); if (x && group.count(x->name)) dep.insert(a->id); }
    if (a->plan->cmd_type != "individual" || a->plan->state_type != "individual") dep.insert(a->id);
  }
  dep = chain_closure(dep);
  for (auto & x : f.active) {
    CtrlObj & c = C(x[0]);
    if (dep.count(x[0])) continue;
    if (!c.alive || c.state() != S_ACTIVE || c.n_deact != x[2] || c.n_act != x[1])
      violate("C06", "unrelated-controller-stopped", "controller %s does not depend on hardware %s but was stopped by its failure", c.name.c_str(), h.name.c_str());
  }
  for (auto & x : f.hw_st) {
    HwObj & o = H(x.first);
    if (group.count(o.name) || !o.alive) continue;
    if (o.st != x.second) {
      violate("C06", "unrelated-hardware-changed", "hardware %s went from %s to %s by the failure of %s", o.name.c_str(), state_name(x.second), state_name(o.st), h.name.c_str());
      if (h.plan && !h.plan->group.empty()) violate("C10", "other-group-affected", "hardware %s went from %s to %s by the failure of %s", o.name.c_str(), state_name(x.second), state_name(o.st), h.name.c_str());
    }
  }
}
void ctrl_failure_checks(const CtrlFail & f)
{
  if (W->shutting_down) return;
  string kind = f.eff + (f.async ? "-async" : "");
  // restarted by a request before the control loop noticed the failure
  if (f.async)
    for (auto & x : f.active) if (x[0] == f.ctrl && C(f.ctrl).n_act != x[1]) return;
  for (int id : f.chain) {
    CtrlObj & c = C(id);
    for (auto & x : f.active)
      if (x[0] == id && c.alive && c.state() == S_ACTIVE && c.n_act == x[1] && c.n_deact == x[2])
        violate("C07", string(id == f.ctrl ? "failed-controller-active/" : "chained-controller-active/") + kind, "controller %s is still active after %s failed in cycle %llu", c.name.c_str(), C(f.ctrl).name.c_str(), static_cast<unsigned long long>(f.cycle));
  }
}
void ctrl_containment(const CtrlFail & f)
{
  if (W->shutting_down) return;
  std::set<int> dep = fallback_closure(chain_closure(f.chain));
  for (auto & x : f.active) {
    CtrlObj & c = C(x[0]);
    if (dep.count(x[0])) continue;
    if (c.plan && (c.plan->cmd_type == "all" || c.plan->cmd_type == "regex")) continue;
    if (!c.alive || c.state() != S_ACTIVE || c.n_deact != x[2] || c.n_act != x[1])
      violate("C07", "unrelated-controller-stopped", "controller %s was stopped by the failure of %s it is not connected with", c.name.c_str(), C(f.ctrl).name.c_str());
  }
}
bool plain_hw_interfaces_ready(const CtrlPlan & p)
{
  if (p.cmd_type != "individual" || p.state_type != "individual") return false;
  for (auto * l : {&p.cmd, &p.state})
    for (auto & i : *l) {
      auto * h = hw_of_interface(i);
      if (!h) return false;
      HwObj * o = live_hw(h->name);
      if (!o || o->st != S_ACTIVE || o->io_failed || o->threw) return false;
    }
  return true;
}
void fallback_checks(const CtrlFail & f)
{
  // fallbacks must run when they are configured and their resources are free
  if (W->shutting_down || f.async) return;
  std::set<string> fb;
  for (int id : f.chain)
    if (C(id).plan) fb.insert(C(id).plan->fallbacks.begin(), C(id).plan->fallbacks.end());
  if (fb.empty()) return;
  for (auto & k : W->faults_fired) {
    // a refused activation or mode switch excuses the fallback
    if (k.first.rfind("activate:", 0) == 0 || k.first.rfind("prepare:", 0) == 0 || k.first.rfind("perform:", 0) == 0 || k.first.rfind("deactivate:", 0) == 0) return;
  }
  std::set<string> used;
  for (auto & n : fb) {
    CtrlObj * c = live_ctrl(n);
    if (!c || !c->plan || !c->loaded || c->plan->chainable) return;
    if (!plain_hw_interfaces_ready(*c->plan)) return;
    for (auto & i : c->plan->cmd) if (!used.insert(i).second) return;
    // the fallbacks of a controller are activated together or not at all
    if (c->state() == S_UNCONF || c->state() == S_FINAL) return;
    bool was_active = false;
    for (auto & x : f.active) was_active |= x[0] == c->id;
    if (was_active || f.chain.count(c->id)) return;
  }
  // only controllers that were stopped may have held the interfaces
  for (auto & n : fb) {
    CtrlObj * c = live_ctrl(n);
    for (auto & i : c->plan->cmd)
      for (auto & x : f.active)
        if (!f.chain.count(x[0]) && C(x[0]).last_held_cmd.count(i)) return;
  }
  for (auto & n : fb) {
    CtrlObj * c = live_ctrl(n);
    if (c->state() == S_UNCONF || c->state() == S_FINAL || c->inactive_at_cycle != W->cycle) continue;
    probe("fallback_expected");
    if (c->state() != S_ACTIVE) violate("C07", "fallback-not-activated", "fallback %s of failed controller %s is %s at the end of the cycle", n.c_str(), C(f.ctrl).name.c_str(), state_name(c->state()));
  }
}

// a must be updated before b according to the interfaces they use, and b before a too
bool cyclic_order(const string & a, const string & b)
{
  std::set<string> seen{b};
  std::vector<string> todo{b};
  while (!todo.empty()) {
    string x = todo.back();
    todo.pop_back();
    std::vector<string> next;
    if (const CtrlPlan * p = W->plan.ctrl_of(x)) for (auto & i : p->cmd) next.push_back(ctrl_of_interface(i));
    for (auto & q : W->plan.ctrl) for (auto & i : q.state) if (ctrl_of_interface(i) == x) next.push_back(q.name);
    for (auto & n : next) {
      if (n == a) return true;
      if (!n.empty() && seen.insert(n).second) todo.push_back(n);
    }
  }
  return false;
}
void order_check()
{
  std::map<int, size_t> pos;
  for (size_t i = 0; i < W->order.size(); ++i) pos[W->order[i]] = i;
  for (int id : W->order) {
    CtrlObj & c = C(id);
    if (!c.alive || c.state() != S_ACTIVE || (c.plan && c.plan->cmd_type != "individual")) continue;  // other selections are not tracked in chains
    for (auto & i : c.held_cmd) {
      string e = ctrl_of_interface(i);
      if (e.empty()) continue;
      CtrlObj * x = live_ctrl(e);
      if (!x || !pos.count(x->id)) continue;
      if (cyclic_order(c.name, x->name)) { probe("chain_order_cyclic"); continue; }
      probe("chain_order_checked");
      if (pos[id] > pos[x->id]) violate("C08", "update-order", "%s is updated after %s although it commands its reference %s", c.name.c_str(), x->name.c_str(), i.c_str());
    }
  }
}
void settled_structure()
{
  W->n_settled++;
  for (auto & up : W->ctrls) {
    CtrlObj & c = *up;
    if (!c.alive || !c.inited || !c.loaded) continue;
    int st = c.state();
    if (st != S_ACTIVE) {
      if (!c.held_cmd.empty()) violate("C01", "inactive-holds-interface", "controller %s is %s but still holds %s", c.name.c_str(), state_name(st), c.held_cmd.begin()->c_str());
    } else {
      if (!c.assigned && !c.deact_failed) violate("C01", "active-without-interfaces", "controller %s is active after its interfaces were released", c.name.c_str());
      for (auto & i : c.held_cmd) {
        auto * hp = hw_of_interface(i);
        HwObj * h = hp ? live_hw(hp->name) : nullptr;
        if (!h || h->st != S_ACTIVE) continue;
        auto m = h->mode.find(i);
        if (m != h->mode.end() && m->second < 0) continue;
        probe("mode_of_used_interface_checked");
        if (m == h->mode.end() || m->second == 0)
          violate("C14", m == h->mode.end() ? "used-interface-never-started" : "used-interface-stopped", "active controller %s uses %s but the last thing hardware %s was told about it is %s", c.name.c_str(), i.c_str(), h->name.c_str(), m == h->mode.end() ? "nothing" : "that it is stopped");
      }
      for (auto * l : {&c.held_cmd, &c.held_state})
        for (auto & i : *l) {
          string e = ctrl_of_interface(i);
          if (e.empty()) continue;
          CtrlObj * x = live_ctrl(e);
          if (c.plan && (l == &c.held_cmd ? c.plan->cmd_type : c.plan->state_type) != "individual") continue;  // not tracked in chains
          if (!x || x->state() != S_ACTIVE) violate("C08", "following-not-active", "active controller %s uses %s of %s which is %s", c.name.c_str(), i.c_str(), e.c_str(), x ? state_name(x->state()) : "not loaded");
          else if (l == &c.held_cmd && !x->p->is_in_chained_mode() && !x->refused_chained && !x->deact_failed) violate("C08", "not-chained-while-claimed", "controller %s is not in chained mode although active %s claims %s", e.c_str(), c.name.c_str(), i.c_str());
        }
      if (c.p->is_chainable() && c.p->is_in_chained_mode()) {
        bool claimed = false;
        for (auto & h : W->holders)
          if (ctrl_of_interface(h.first) == c.name)
            for (int id : h.second) claimed |= C(id).alive && C(id).state() == S_ACTIVE;
        if (!claimed) if (!c.deact_failed) violate("C08", "chained-without-claimer", "controller %s is active in chained mode but no active controller claims its references", c.name.c_str());
      }
    }
    for (auto & u2 : W->ctrls)
      if (u2->alive && u2->loaded && u2.get() != &c && u2->name == c.name) violate("C17", "two-objects-of-a-name", "two controllers loaded under the name %s", c.name.c_str());
  }
  for (auto & h : W->hws) {
    if (!h->alive || !h->init_ok) continue;
    int rep = h->reported();
    if (h->threw) { h->st = rep == S_ERRPROC ? h->st : rep; h->threw = false; }  // a throwing callback: the kept state decides
    if (rep != h->st) violate("C09", string("state-") + state_name(rep) + "-after-" + state_name(h->st), "hardware %s is kept as %s but its callbacks lead to %s", h->name.c_str(), state_name(rep), state_name(h->st));
  }
}
}  // namespace
void ora_unloaded_check();

// reference model of the main loop: when may the next cycle start, and which period is passed on
void ora_loop(int64_t period_ns)
{
  const int64_t now = simrt::now_ns(), end = W->cycle_end, P = 1000000000ll / W->plan.update_rate;
  const int64_t sim = simros::get_sim_clock();
  const int64_t tol = 300000, late = tol + W->jitter_tol;
  auto ms = [](int64_t v) { return static_cast<double>(v) / 1e6; };
  const Plan & p = W->plan;
  if (W->loop_prev_start >= 0 && !W->shutting_down) {
    const int64_t measured = p.use_sim_time ? sim - W->loop_prev_sim : now - W->loop_prev_start;
    // the simulated clock can step between the start of the cycle and its first action
    const bool stepped = p.use_sim_time && !W->simlog.empty() && W->simlog.back().first + tol > now;
    if (std::llabs(period_ns - measured) > tol && !stepped && !W->loop_prev_stepped)
      violate("C18", "period-not-measured", "cycle %llu gets the period %.3f ms but started %.3f ms after the previous one", static_cast<unsigned long long>(W->cycle), ms(period_ns), ms(measured));
    if (p.use_sim_time) {
      const int64_t target = W->loop_prev_sim + P;
      if (sim < target && !W->loop_prev_stepped) violate("C18", "cycle-early-sim", "cycle %llu starts at simulated time %.3f ms before the period is over (%.3f ms)", static_cast<unsigned long long>(W->cycle), ms(sim), ms(target));
      while (W->simlog_from < W->simlog.size() && W->simlog[W->simlog_from].second < target) W->simlog_from++;
      if (W->simlog_from < W->simlog.size()) {
        const int64_t due = std::max(end, W->simlog[W->simlog_from].first);
        if (now > due + late) violate("C18", "cycle-late-sim", "cycle %llu starts %.3f ms after it was due", static_cast<unsigned long long>(W->cycle), ms(now - due));
      }
    } else if (p.expect_blocking) {
      const int64_t minc = static_cast<int64_t>(p.min_cycle * 1e9), dur = end - W->loop_prev_start;
      const int64_t wait = now - end;
      if (dur < minc - tol) {
        if (wait < minc - 2000) violate("C18", "blocking-no-wait", "cycle %llu took %.3f ms and the next one starts %.3f ms later, minimum cycle time %.3f ms", static_cast<unsigned long long>(W->cycle - 1), ms(dur), ms(wait), ms(minc));
        if (wait > minc + late) violate("C18", "blocking-late", "cycle %llu starts %.3f ms after the previous one, minimum cycle time %.3f ms", static_cast<unsigned long long>(W->cycle), ms(wait), ms(minc));
      } else if (dur > minc + tol && wait > late) {
        violate("C18", "blocking-late", "cycle %llu starts %.3f ms after a previous one that was long enough", static_cast<unsigned long long>(W->cycle), ms(wait));
      }
    } else {
      int64_t next = W->loop_next + P;
      bool overrun = next < end;
      int64_t alt = -1;  // decided within the measurement uncertainty
      if (p.manage_overruns && overrun) {
        int64_t over = end - next;
        int64_t n = (over + P - 1) / P;
        if (n * P - over < tol) alt = next + (n + 1) * P;
        next += n * P;
        probe("loop_overrun_skipped");
      } else if (overrun) {
        probe("loop_overrun_catch_up");
      } else if (p.manage_overruns && next - end < tol) {
        alt = next + P;
      }
      const int64_t due = std::max(next, end);
      if (alt >= 0 && now >= alt - tol) { next = alt; probe("loop_boundary"); }
      const int64_t d = std::max(next, end);
      // the plan is known from the first cycle, which starts a little later than its planned time
      if (now < d - 2000 && d == next && d - now <= W->grid_slack) { W->grid_slack -= d - now; next = now; }
      else if (now < d - 2000) violate("C18", overrun ? "cycle-early-after-overrun" : "cycle-early", "cycle %llu starts %.3f ms before its planned time", static_cast<unsigned long long>(W->cycle), ms(d - now));
      if (now > d + late) violate("C18", overrun ? "cycle-late-after-overrun" : "cycle-late", "cycle %llu starts %.3f ms after its planned time", static_cast<unsigned long long>(W->cycle), ms(now - due));
      W->loop_next = next;
    }
  } else {
    W->loop_next = now;
  }
  W->loop_prev_start = now;
  W->loop_prev_sim = sim;
  W->loop_prev_stepped = p.use_sim_time && !W->simlog.empty() && W->simlog.back().first + tol > now;
}

bool outside_switch() { return W->cur && W->cur->plan && W->cur->plan->op == "switch" && !W->cur->plan->asap; }

void ora_phase(int phase, bool begin, int64_t time_ns, int64_t period_ns)
{
  NoPreempt np;
  (void)time_ns;
  W->seq++;
  if (W->rt_fiber < 0) W->rt_fiber = simrt::current_fiber();
  if (begin) {
    if (phase == 1) {
      W->cycle++;
      W->prev_cycle_start = W->cycle_start;
      W->cycle_start = simrt::now_ns();
      ora_loop(period_ns);
      W->rt_spend = 0;
      W->order.clear();
      W->hwfail.clear();
      W->cfail.clear();
      W->period_in = period_ns;
      if (period_ns > 0) { W->cm_rate_min = std::min(W->cm_rate_min, 1e9 / static_cast<double>(period_ns)); W->cm_rate_max = std::max(W->cm_rate_max, 1e9 / static_cast<double>(period_ns)); }
      W->phases.clear();
      W->req_in_cycle = W->cur != nullptr;
      if (outside_switch()) W->outside_switch_cycle = W->cycle;
      W->recent_req_names.clear();
      W->cycle_main_start.push_back(W->cycle_start);
      for (auto & h : W->hws) h->read_skipped_cycle = 0;
    } else if (period_ns != W->period_in) violate("C18", "period-differs-in-cycle", "phase %d of a cycle got another period", phase);
    W->phases.push_back(phase);
    W->phase = phase;
    if (phase != 2)
      for (auto & h : W->hws) {
        if (!h->alive || !h->plan || h->plan->is_async) continue;
        int64_t last = phase == 3 ? h->last_write_now : h->last_read_now;
        int rr = h->plan->rw_rate;
        bool low = rr > 0 && rr < W->plan.update_rate;
        (phase == 3 ? h->write_due : h->read_due) = !low || (last < 0 ? h->st == S_ACTIVE : clock_now() - last >= due_after(static_cast<unsigned>(rr), static_cast<unsigned>(W->plan.update_rate)) + 20000);
        if (phase == 3) h->act_at_write = h->st == S_ACTIVE ? h->ok_act : -1;
      }
    if (W->phases.size() > 3 || (W->phases.size() >= 1 && W->phases.back() != static_cast<int>(W->phases.size()))) violate("C20", "phase-order", "the phases of a cycle are not read, update, write");
    if (phase == 2) {
      lim_update_begin();
      W->cc.clear();
      for (auto & c : W->ctrls) {
        if (!c->alive || !c->inited || !c->loaded) continue;
        int st = c->state();
        if (st == S_INACTIVE) c->inactive_at_cycle = W->cycle;
        if (st != S_ACTIVE) continue;
        unsigned rate = c->rate(), cm = static_cast<unsigned>(W->plan.update_rate);
        bool full = rate == 0 || rate >= cm;
        // slower controllers are due from half a cycle before their period is over, and in their first cycle
        bool due = full || c->last_upd_now < 0 || clock_now() - c->last_upd_now >= due_after(rate, cm) + 20000;
        W->cc.push_back({c->id, due && c->act_cycle < W->cycle && !c->is_async(), c->n_act, c->n_deact, c->n_update, !full});
        c->cycles_since_act++;
      }
      // hardware that can be read must have been read
      if (!W->req_in_cycle && !W->cur && W->services_up && W->req_cycle + 1 < W->cycle)
        for (auto & h : W->hws) {
          if (!h->alive || !h->plan || h->plan->is_async || h->in_lc) continue;
          int rr = h->plan->rw_rate;
          bool low = rr > 0 && rr < W->plan.update_rate;
          if ((h->st == S_ACTIVE || h->st == S_INACTIVE) && h->last_read_cycle != W->cycle && h->change_cycle + 1 < W->cycle && !W->shutting_down) {
            if (!low) violate("C20", "hardware-not-read", "hardware %s (%s) was not read in cycle %llu", h->name.c_str(), state_name(h->st), static_cast<unsigned long long>(W->cycle));
            else if (h->read_due) violate("C11", "hw-read-missed", "hardware %s (%s, %d Hz) was not read in cycle %llu, %.3f ms after its previous read", h->name.c_str(), state_name(h->st), rr, static_cast<unsigned long long>(W->cycle), static_cast<double>(clock_now() - h->last_read_now) / 1e6);
            else probe("hw_read_not_due");
          }
        }
    }
    if (W->cur) W->req_in_cycle = true;
    if (outside_switch()) W->outside_switch_cycle = W->cycle;
    return;
  }
  W->phase = 0;
  if (W->cur) W->req_in_cycle = true;
  if (outside_switch()) W->outside_switch_cycle = W->cycle;
  if (phase == 2) {
    lim_update_end();
    order_check();
    auto nm = names_in_request();
    bool failed = !W->cfail.empty() || !W->hwfail.empty();
    for (auto & x : W->cc) {
      CtrlObj & c = C(x.id);
      if (!c.alive) continue;
      uint64_t d = c.n_update - x.n_update;
      if (c.is_async()) continue;
      if (x.due && c.n_act == x.n_act && c.n_deact == x.n_deact && d != 1 && !W->shutting_down) {
        bool involved = false;
        if (W->req_in_cycle) {
          // controllers that are being switched may be left out, also those restarted because of it
          auto cl = nm;
          for (auto & q : W->recent_req_names) cl.insert(q);
          std::set<int> ids;
          for (auto & n : cl) if (auto * y = live_ctrl(n)) ids.insert(y->id);
          involved = W->reload_cycle == W->cycle || (W->cur && W->cur->plan && W->cur->plan->op == "reload") || chain_closure(ids).count(c.id) > 0;
        }
        if (x.low) probe("low_rate_controller_due");
        if (!involved && x.low) violate("C11", d == 0 ? "update-missed" : "updated-several-times", "controller %s (%u Hz) was updated %llu times in cycle %llu, previous update %.3f ms before", c.name.c_str(), c.rate(), static_cast<unsigned long long>(d), static_cast<unsigned long long>(W->cycle), static_cast<double>(clock_now() - c.last_upd_now) / 1e6);
        else if (!involved) {
          violate("C20", d == 0 ? "due-controller-not-updated" : "updated-several-times", "active controller %s was updated %llu times in cycle %llu", c.name.c_str(), static_cast<unsigned long long>(d), static_cast<unsigned long long>(W->cycle));
          if (failed && d == 0) {
            if (!W->cfail.empty()) violate("C07", "spared-controller-not-updated", "controller %s was not updated in the cycle in which %s failed", c.name.c_str(), C(W->cfail[0].ctrl).name.c_str());
            if (!W->hwfail.empty()) violate("C06", "spared-controller-not-updated", "controller %s was not updated in the cycle in which hardware %s failed", c.name.c_str(), H(W->hwfail[0].hw).name.c_str());
          }
        }
      }
    }
    for (auto & f : W->cfail)
      if (!f.async) {
        probe("ctrl_failure_handled");
        if (W->outside_switch_cycle == W->cycle || outside_switch()) {
          CtrlFail g = f;
          W->pend.push_back({W->cycle + 1, [g]() { ctrl_failure_checks(g); }});
        } else ctrl_failure_checks(f);
        if (W->cfail.size() == 1 && W->hwfail.empty() && !W->req_in_cycle && W->disturb_prev + 3 < W->cycle) { ctrl_containment(f); fallback_checks(f); }
      }
    for (auto & h : W->hws)
      if (h->alive) for (auto & k : h->written) (void)k;
  }
  if (phase == 3) {
    if (!W->req_in_cycle && !W->cur && W->services_up && W->req_cycle + 1 < W->cycle && !W->shutting_down)
      for (auto & h : W->hws) {
        if (!h->alive || !h->plan || h->plan->is_async || h->in_lc || h->plan->kind == "sensor" || h->st != S_ACTIVE || h->act_at_write != h->ok_act) continue;
        if (h->last_write_cycle == W->cycle || h->change_cycle + 1 >= W->cycle) continue;
        int rr = h->plan->rw_rate;
        bool low = rr > 0 && rr < W->plan.update_rate;
        if (!low) violate("C20", "hardware-not-written", "active hardware %s was not written in cycle %llu", h->name.c_str(), static_cast<unsigned long long>(W->cycle));
        else if (h->write_due) violate("C11", "hw-write-missed", "active hardware %s (%d Hz) was not written in cycle %llu, %.3f ms after its previous write", h->name.c_str(), rr, static_cast<unsigned long long>(W->cycle), static_cast<double>(clock_now() - h->last_write_now) / 1e6);
        else probe("hw_write_not_due");
      }
    W->cycle_end = simrt::now_ns();
    int64_t dur = W->cycle_end - W->cycle_start - W->rt_spend;
    // (stopping an asynchronous plugin waits for its callback that runs at the moment)
    bool stopped_async = false;
    if (W->slow_until > W->cycle_start) {
      for (auto & c : W->ctrls) stopped_async |= c->alive && c->inited && c->is_async() && c->deact_cycle == W->cycle;
      for (auto & h : W->hws) stopped_async |= h->alive && h->plan && h->plan->is_async && h->change_cycle == W->cycle;
    }
    if (stopped_async) probe("waited_for_asynchronous_plugin");
    if (dur > 40000000 && !stopped_async) violate("C05", "cycle-waits", "control cycle %llu took %.1f ms more than the plugins used", static_cast<unsigned long long>(W->cycle), static_cast<double>(dur) / 1e6);
    for (auto & f : W->hwfail)
      if (!f.async) {
        probe(string("hw_failure_handled_") + (f.wr ? "write" : "read"));
        if (W->outside_switch_cycle == W->cycle || outside_switch()) {
          // failures wait for a switch that is performed outside of the control loop
          probe("hw_failure_during_switch_outside_of_the_loop");
          HwFail g = f;
          W->pend.push_back({W->cycle + 1, [g]() { hw_failure_checks(g); }});
        } else hw_failure_checks(f);
        if (W->hwfail.size() == 1 && W->cfail.empty() && !W->req_in_cycle && W->services_up && W->services_up_cycle < W->cycle && W->disturb_prev + 3 < W->cycle) hw_containment(f);
        if (!f.members.empty()) {
          HwFail g = f;
          W->pend.push_back({W->cycle + 1, [g]() {
            if (W->shutting_down) return;
            for (auto & m : g.members) {
              HwObj & o = H(m[0]);
              probe("group_member_checked");
              if (o.alive && o.st == S_ACTIVE && o.ok_act == m[1])
                violate("C10", string("member-active-after-group-failure/") + (g.wr ? "write-" : "read-") + g.eff, "hardware %s stays active although member %s of its group failed in cycle %llu", o.name.c_str(), H(g.hw).name.c_str(), static_cast<unsigned long long>(g.cycle));
            }
          }});
        }
      }
    if (!W->cfail.empty() || !W->hwfail.empty()) W->disturb_prev = W->cycle;
    // asynchronous failures: found by a later trigger
    for (auto & f : W->async_hwfail) {
      HwFail g = f;
      int rr = H(f.hw).plan->rw_rate;
      uint64_t ratio = rr > 0 ? static_cast<uint64_t>(W->plan.update_rate / std::max(1, rr)) + 1 : 1;
      W->pend.push_back({W->cycle + 2 * ratio + 3, [g]() { hw_failure_checks(g); }});
    }
    W->async_hwfail.clear();
    for (auto & f : W->async_cfail) {
      CtrlFail g = f;
      unsigned r = C(f.ctrl).alive ? C(f.ctrl).rate() : 0;
      uint64_t ratio = r > 0 ? static_cast<uint64_t>(static_cast<unsigned>(W->plan.update_rate) / std::max(1u, r)) + 1 : 1;
      W->pend.push_back({W->cycle + 2 * ratio + 3, [g]() { ctrl_failure_checks(g); }});
    }
    W->async_cfail.clear();
    for (auto & f : W->hwfail) if (f.async) W->async_hwfail.push_back(f);
    for (auto & f : W->cfail) if (f.async) W->async_cfail.push_back(f);
    W->hwfail.clear();
    W->cfail.clear();
    ora_unloaded_check();
    for (auto & c : W->ctrls)
      if (c->alive && c->deact_kept && !W->shutting_down && !c->in_lc && !W->cur && c->deact_cycle < W->cycle && !c->held_cmd.empty())
        violate("C01", "kept-after-failed-deactivation", "controller %s keeps %s although its deactivation (that failed) finished in cycle %llu", c->name.c_str(), c->held_cmd.begin()->c_str(), static_cast<unsigned long long>(c->deact_cycle));
    async_progress();
    // deferred checks
    if (!W->cur && !W->req_in_cycle) {
      std::vector<Pending> keep, due;
      for (auto & p : W->pend) (p.cycle <= W->cycle ? due : keep).push_back(p);
      W->pend.swap(keep);
      for (auto & p : due) p.f();
      if (W->last_change_cycle + 2 < W->cycle && W->disturb_cycle_until < W->cycle && !W->shutting_down && W->services_up) settled_structure();
    }
    if (W->cur || W->req_in_cycle) W->req_cycle = W->cycle;
  }
}
