// Oracles over service requests and over the end of a run.
#include "world.hpp"
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager_msgs/msg/controller_manager_activity.hpp"
#include "controller_manager_msgs/srv/cleanup_controller.hpp"
#include "controller_manager_msgs/srv/configure_controller.hpp"
#include "controller_manager_msgs/srv/list_controller_types.hpp"
#include "controller_manager_msgs/srv/list_controllers.hpp"
#include "controller_manager_msgs/srv/list_hardware_components.hpp"
#include "controller_manager_msgs/srv/list_hardware_interfaces.hpp"
#include "controller_manager_msgs/srv/load_controller.hpp"
#include "controller_manager_msgs/srv/reload_controller_libraries.hpp"
#include "controller_manager_msgs/srv/set_hardware_component_state.hpp"
#include "controller_manager_msgs/srv/switch_controller.hpp"
#include "controller_manager_msgs/srv/unload_controller.hpp"
#include "simros/control.hpp"
#include <algorithm>

using simrt::NoPreempt;
using std::set;
using std::string;
using std::vector;
namespace cms = controller_manager_msgs::srv;

namespace
{
string join(const set<string> & s) { string r; for (auto & x : s) r += (r.empty() ? "" : ",") + x; return r; }
const CtrlSnap * at(const Snap & s, const string & n)
{
  auto i = s.c.find(n);
  return i == s.c.end() || !i->second.loaded ? nullptr : &i->second;
}
bool fault_in(const Req & r, const string & suffix)
{
  for (auto & f : r.cb_faults)
    if (f.size() > suffix.size() && f.compare(f.size() - suffix.size(), string::npos, suffix) == 0) return true;
  return false;
}
// any switch relevant fault in this request
bool switch_fault(const Req & r)
{
  for (auto * s : {".activate", ".deactivate", ".prepare", ".perform", ".chained", ".error"}) if (fault_in(r, s)) return true;
  return false;
}
bool is_fallback(const string & n)
{
  for (auto & p : W->plan.ctrl) for (auto & f : p.fallbacks) if (f == n) return true;
  return false;
}
enum class F { Yes, No, Unclear };
struct Feas { F f; string why; };


bool individual(const CtrlPlan & p) { return p.cmd_type == "individual" && p.state_type == "individual"; }
set<string> chain_names(const set<string> & seed)
{
  set<string> r = seed;
  for (bool grow = true; grow;) {
    grow = false;
    for (auto & p : W->plan.ctrl)
      for (auto * l : {&p.cmd, &p.state})
        for (auto & i : *l) {
          string e = ctrl_of_interface(i);
          if (e.empty()) continue;
          bool a = r.count(p.name), b = r.count(e);
          if (a != b) { r.insert(p.name); r.insert(e); grow = true; }
        }
    for (auto & p : W->plan.ctrl)
      if (r.count(p.name) && !individual(p))  // can claim the references of any controller
        for (auto & q : W->plan.ctrl) if (q.chainable) grow |= r.insert(q.name).second;
    for (auto & p : W->plan.ctrl)
      if (r.count(p.name) && p.chainable)
        for (auto & q : W->plan.ctrl) if (!individual(q)) grow |= r.insert(q.name).second;
  }
  return r;
}

// Can the switch (A, B) be executed as a whole from the state in pre?
Feas feasible(const Snap & pre, const set<string> & A, const set<string> & B)
{
  bool unclear = false;
  string uw;
  auto un = [&](const string & w) { unclear = true; if (uw.empty()) uw = w; };
  for (auto & n : A) {
    auto * c = at(pre, n);
    if (!c) return {F::No, "unknown controller " + n};
    if (c->state == S_UNCONF || c->state == S_FINAL) return {F::No, n + " is " + state_name(c->state)};
    if (c->state == S_ACTIVE && !B.count(n)) un(n + " already active");
    if (c->state != S_ACTIVE && c->state != S_INACTIVE) un("odd state");
    if (c->state == S_ACTIVE && B.count(n)) un("restart");
  }
  for (auto & n : B) {
    auto * c = at(pre, n);
    if (!c) return {F::No, "unknown controller " + n};
    if (c->state != S_ACTIVE) un(n + " not active");
    // components that went away have to be asked to stop and refuse
    for (auto & i : c->cmd)
      if (auto * h = hw_of_interface(i)) { auto it = pre.h.find(h->name); if (it == pre.h.end() || (it->second != S_ACTIVE && it->second != S_INACTIVE)) un("component of " + i + " went away"); }
  }
  auto will_be_active = [&](const string & n) {
    auto * c = at(pre, n);
    if (!c) return false;
    if (A.count(n)) return true;
    return c->state == S_ACTIVE && !B.count(n);
  };
  std::map<string, string> taken;
  for (auto & n : A) {
    const CtrlPlan * p = W->plan.ctrl_of(n);
    if (!p) { un("no plan"); continue; }
    if (!individual(*p)) { un("interface selection of " + n); continue; }
    auto * c = at(pre, n);
    if (c->state == S_ACTIVE && !B.count(n)) continue;
    if (!p->fallbacks.empty()) {
      for (auto & f : p->fallbacks) {
        auto * fc = at(pre, f);
        const CtrlPlan * fp = W->plan.ctrl_of(f);
        if (!fc || !fp || (fc->state != S_INACTIVE && fc->state != S_ACTIVE) || !individual(*fp) || fp->chainable) { un("fallback " + f); continue; }
        for (auto * l : {&fp->cmd, &fp->state})
          for (auto & i : *l) {
            auto * h = hw_of_interface(i);
            if (!h || !pre.h.count(h->name) || pre.h.at(h->name) != S_ACTIVE) un("fallback resource");
          }
      }
    }
    for (auto * l : {&p->cmd, &p->state})
      for (auto & i : *l) {
        string e = ctrl_of_interface(i);
        if (!e.empty()) {
          if (!at(pre, e)) return {F::No, i + " does not exist"};
          if (!will_be_active(e)) return {F::No, e + " providing " + i + " will not be active"};
          if (B.count(e)) un("restart of " + e);
          if (W->plan.extra.count("badexport." + e)) un("bad exports");
          const CtrlPlan * ep = W->plan.ctrl_of(e);
          if (ep && p->is_async != ep->is_async) un("async in chain");
        } else {
          auto * h = hw_of_interface(i);
          if (!h) return {F::No, i + " does not exist"};
          auto it = pre.h.find(h->name);
          if (it == pre.h.end()) return {F::No, "component of " + i + " not loaded"};
          if (it->second == S_UNCONF || it->second == S_FINAL || it->second == S_UNKNOWN) return {F::No, i + " is not available"};
          if (it->second == S_INACTIVE) {
            if (!W->plan.allow_inactive_hw && l == &p->cmd) return {F::No, "component of " + i + " is inactive"};
          }
          if (it->second != S_ACTIVE && it->second != S_INACTIVE) un("odd component state");
        }
        if (l == &p->cmd) {
          if (taken.count(i)) return {F::No, i + " claimed twice"};
          taken[i] = n;
          for (auto & o : pre.c)
            if (o.second.state == S_ACTIVE && o.second.cmd.count(i) && o.first != n) {
              if (!B.count(o.first)) return {F::No, i + " is held by " + o.first};
              if (A.count(o.first)) un("restart of the holder");
            }
        }
      }
  }
  // stopping a controller others depend on
  for (auto & n : B) {
    if (A.count(n)) continue;
    for (auto & o : pre.c) {
      if (o.second.state != S_ACTIVE || B.count(o.first)) continue;
      const CtrlPlan * p = W->plan.ctrl_of(o.first);
      if (!p) continue;
      for (auto * l : {&p->cmd, &p->state})
        for (auto & i : *l)
          if (ctrl_of_interface(i) == n && individual(*p)) return {F::No, "active " + o.first + " uses " + i};
      if (!individual(*p)) un("interface selection");
    }
  }
  // controllers of the chain can have to be restarted
  set<string> U = A;
  U.insert(B.begin(), B.end());
  for (auto & n : chain_names(U)) {
    auto * c = at(pre, n);
    const CtrlPlan * p = W->plan.ctrl_of(n);
    if (!c || c->state != S_ACTIVE || !p) continue;
    for (auto * l : {&p->cmd, &p->state})
      for (auto & i : *l)
        if (auto * h = hw_of_interface(i)) { auto it = pre.h.find(h->name); if (it == pre.h.end() || it->second != S_ACTIVE) un("component of " + i + " went away"); }
  }
  if (unclear) return {F::Unclear, uw};
  return {F::Yes, ""};
}
bool same_state(const Snap & a, const Snap & b, const set<string> & except, string * what)
{
  for (auto & x : a.c) {
    if (except.count(x.first) || !x.second.loaded) continue;
    auto i = b.c.find(x.first);
    if (i == b.c.end()) { *what = x.first + " disappeared"; return false; }
    if (i->second.state != x.second.state) { *what = x.first + " went from " + state_name(x.second.state) + " to " + state_name(i->second.state); return false; }
    if (i->second.cmd != x.second.cmd) { *what = x.first + " held " + join(x.second.cmd) + " and now " + join(i->second.cmd); return false; }
    if (i->second.chained != x.second.chained) { *what = x.first + (x.second.chained ? " left" : " entered") + " chained mode"; return false; }
  }
  return true;
}
void check_switch(Req & r)
{
  const OpPlan & op = *r.plan;
  bool strict = op.strict == 2 || (op.strict == 0 && W->plan.default_strictness == "strict");
  const char * P = strict ? "C02" : "C03";
  set<string> A(op.a.begin(), op.a.end()), B(op.b.begin(), op.b.end()), U = A;
  U.insert(B.begin(), B.end());
  bool quiet = quiet_for(r) && !W->shutting_down;
  string what;
  probe(string("switch_") + (strict ? "strict_" : "best_") + (r.ok ? "ok" : "refused") + (quiet ? "" : "_disturbed"));
  if (!quiet) return;
  bool fault = switch_fault(r);
  // a controller that refused its deactivation stays active without its interfaces
  for (auto & c : W->ctrls) if (c->alive && c->loaded && c->deact_failed) fault = true;
  // a controller that refused the chained mode is no part of the chain for the controller manager
  bool refused = false;
  for (auto & c : W->ctrls) if (c->alive && c->loaded && c->refused_chained) refused = fault = true;
  if (r.timed_out) probe("switch_timed_out");
  if (fault) probe("switch_with_fault");

  const bool mode_fault = fault_in(r, ".prepare") || fault_in(r, ".perform");
  auto outsiders = [&]() {
    // controllers the request does not name keep their state
    for (auto & x : r.pre.c) {
      if (U.count(x.first) || !x.second.loaded) continue;
      auto i = r.post.c.find(x.first);
      if (i == r.post.c.end()) continue;
      if (r.cb_faults.count(x.first + ".activate") || r.cb_faults.count(x.first + ".deactivate") || r.cb_faults.count(x.first + ".error")) continue;
      auto * op = W->plan.ctrl_of(x.first);
      // (a chain is restarted if it changes: what happens to one of its members concerns all)
      bool chain_fault = refused || mode_fault;
      for (auto & n : chain_names(U)) for (auto * cb : {".activate", ".deactivate", ".error"}) chain_fault |= r.cb_faults.count(n + cb) > 0;
      if (chain_fault && chain_names(U).count(x.first)) continue;
      if (op && (op->cmd_type != "individual" || op->state_type != "individual") && chain_names(U).count(x.first)) continue;
      if (i->second.state != x.second.state) violate(P, string("outsider-changed") + (fault ? "-with-fault" : ""), "switch [%s]/[%s] moved %s from %s to %s", join(A).c_str(), join(B).c_str(), x.first.c_str(), state_name(x.second.state), state_name(i->second.state));
      else if (i->second.n_act != x.second.n_act && !chain_names(U).count(x.first)) violate(P, "outsider-restarted", "switch [%s]/[%s] restarted %s", join(A).c_str(), join(B).c_str(), x.first.c_str());
    }
  };
  const bool twice = A.size() != op.a.size() || B.size() != op.b.size();  // a name given twice contends with itself
  Feas fe = feasible(r.pre, A, B);
  bool stuck = false;
  for (auto & c : W->ctrls) stuck |= c->alive && c->loaded && c->deact_failed;
  if ((refused || stuck) && fe.f != F::Unclear) fe = {F::Unclear, "a controller refused the chained mode or its deactivation"};
  if (twice && fe.f == F::Yes) fe = {F::Unclear, "name given twice"};
  bool act_fault = false;
  for (auto & a : A) act_fault |= r.cb_faults.count(a + ".activate") > 0;
  if (strict) {
    probe(string("strict_") + (fe.f == F::Yes ? "feasible" : fe.f == F::No ? "infeasible" : "unclear"));
    if (fe.f == F::No && r.ok) violate(P, "infeasible-accepted", "strict switch [%s]/[%s] answered ok although %s", join(A).c_str(), join(B).c_str(), fe.why.c_str());
    if (fe.f == F::No && !same_state(r.pre, r.post, {}, &what)) violate(P, "infeasible-changed-state", "strict switch [%s]/[%s] impossible (%s) but %s", join(A).c_str(), join(B).c_str(), fe.why.c_str(), what.c_str());
    if (fe.f == F::Yes && !fault && !r.timed_out && !r.ok) violate(P, "feasible-refused", "strict switch [%s]/[%s] refused: %s", join(A).c_str(), join(B).c_str(), r.msg.c_str());
    if (mode_fault && !act_fault && !fault_in(r, ".activate") && !fault_in(r, ".deactivate") && fe.f != F::No) {
      if (r.ok) violate(P, "rejected-mode-switch-ok", "strict switch [%s]/[%s] ok although the hardware rejected the mode switch", join(A).c_str(), join(B).c_str());
      if (!same_state(r.pre, r.post, {}, &what)) violate(P, "rejected-mode-switch-changed", "hardware rejected the mode switch but %s", what.c_str());
    }
  }
  set<string> A2, B2;  // what best effort keeps
  for (auto & n : A) { auto * c = at(r.pre, n); if (c && (c->state == S_INACTIVE || (c->state == S_ACTIVE && B.count(n)))) A2.insert(n); }
  for (auto & n : B) { auto * c = at(r.pre, n); if (c && c->state == S_ACTIVE) B2.insert(n); }
  bool any_known = false, unclear_rest = false, unclear_stop = false, unclear_order = false, unknown_list = false;
  for (auto * l : {&A, &B}) {
    bool any = false;
    for (auto & n : *l) any |= at(r.pre, n) != nullptr;
    if (!l->empty() && !any) unknown_list = true;
  }
  for (auto & n : U) any_known |= at(r.pre, n) != nullptr;
  if (!strict) {
    // controllers lacking their chain are left out
    for (bool again = true; again;) {
      again = false;
      for (auto & n : set<string>(A2)) {
        auto * p = W->plan.ctrl_of(n);
        if (!p) continue;
        for (auto * l : {&p->cmd, &p->state})
          for (auto & i : *l) {
            string e = ctrl_of_interface(i);
            if (e.empty()) continue;
            auto * c = at(r.pre, e);
            if (!c) continue;  // an interface that does not exist: the rest is refused as a whole
            bool act = c && (A2.count(e) || (c->state == S_ACTIVE && !B2.count(e)));
            if (!act && A2.erase(n)) { again = true; unclear_rest = true; }
            // a following controller that is used by another one might not be stopped after all
            if (B.count(e)) unclear_order = true;
          }
      }
      for (auto & n : set<string>(B2)) {
        for (auto & o : r.pre.c) {
          if (o.second.state != S_ACTIVE || B2.count(o.first)) continue;
          auto * p = W->plan.ctrl_of(o.first);
          if (!p) continue;
          for (auto * l : {&p->cmd, &p->state})
            for (auto & i : *l)
              if (ctrl_of_interface(i) == n && B2.erase(n)) { again = true; unclear_stop = true; }
        }
      }
    }
    Feas f2 = feasible(r.pre, A2, B2);
    if (refused || stuck) f2 = {F::Unclear, "a controller refused the chained mode or its deactivation"};
    if (unknown_list && f2.f == F::Yes) f2 = {F::Unclear, "a list without any known controller"};
    if (twice && f2.f == F::Yes) f2 = {F::Unclear, "name given twice"};
    // the chain of a restarted controller may be kept either way (it stays with its chain, or both stop)
    if (unclear_stop) { auto near = chain_names(B); for (auto & n : A) unclear_order |= near.count(n) > 0; }
    if (((unclear_rest && unclear_stop) || unclear_order) && f2.f == F::Yes) f2 = {F::Unclear, "starting and stopping within one chain"};
    unclear_rest |= unclear_stop;
    if (unclear_rest && f2.f == F::Yes) for (auto & n : A) if (B.count(n)) f2 = {F::Unclear, "chain of a restarted controller"};
    probe(string("best_rest_") + (A2.empty() && B2.empty() ? "empty" : f2.f == F::Yes ? "feasible" : f2.f == F::No ? "infeasible" : "unclear"));
    if (!(A2.empty() && B2.empty()) && f2.f == F::Yes && !fault && !r.timed_out) {
      const char * kind = unclear_rest ? "-chain-left-out" : "";
      for (auto & n : A2) { auto * c = at(r.post, n); if (!c || c->state != S_ACTIVE) { violate(P, string("feasible-not-started") + kind, "best effort switch [%s]/[%s] did not start %s: %s", join(A).c_str(), join(B).c_str(), n.c_str(), r.msg.c_str()); break; } }
      for (auto & n : B2) { auto * c = at(r.post, n); if (!A2.count(n) && c && c->state == S_ACTIVE) { violate(P, string("feasible-not-stopped") + kind, "best effort switch [%s]/[%s] did not stop %s: %s", join(A).c_str(), join(B).c_str(), n.c_str(), r.msg.c_str()); break; } }
      if (!unclear_rest && A2 == A && !r.ok && any_known) violate(P, "feasible-answered-failure", "best effort switch [%s]/[%s] answered failure: %s", join(A).c_str(), join(B).c_str(), r.msg.c_str());
    }
    if (!any_known && !U.empty() && r.ok) violate(P, "all-unknown-ok", "best effort switch of unknown controllers [%s]/[%s] answered ok", join(A).c_str(), join(B).c_str());
    if (r.ok && !r.timed_out)
      for (auto & n : A2) { auto * c = at(r.post, n); if (r.activated.count(n) && c && c->state != S_ACTIVE) violate(P, "ok-but-not-active", "switch [%s]/[%s] answered ok but %s is %s", join(A).c_str(), join(B).c_str(), n.c_str(), state_name(c->state)); }
  }
  outsiders();
  if (strict && r.ok) {
    for (auto & n : A) { auto * c = at(r.post, n); if (!c || c->state != S_ACTIVE) violate(P, "ok-but-not-active", "strict switch [%s]/[%s] answered ok but %s is %s", join(A).c_str(), join(B).c_str(), n.c_str(), c ? state_name(c->state) : "not loaded"); }
    for (auto & n : B) { auto * c = at(r.post, n); if (!A.count(n) && c && c->state == S_ACTIVE) violate(P, "ok-but-not-stopped", "strict switch [%s]/[%s] answered ok but %s is still active", join(A).c_str(), join(B).c_str(), n.c_str()); }
  }
  if (!r.ok) {
    if (!fault && !r.timed_out && !same_state(r.pre, r.post, {}, &what)) violate(P, "refused-but-changed", "switch [%s]/[%s] answered failure (%s) but %s", join(A).c_str(), join(B).c_str(), r.msg.c_str(), what.c_str());
    if (strict && act_fault && !fault_in(r, ".deactivate") && !fault_in(r, ".error"))
      for (auto & n : A) {
        auto * c = at(r.post, n);
        auto * c0 = at(r.pre, n);
        if (c && c->state == S_ACTIVE && !(c0 && c0->state == S_ACTIVE)) violate(P, "half-activated", "activation failed in strict switch [%s]/[%s] but %s stays active", join(A).c_str(), join(B).c_str(), n.c_str());
      }
    if (!r.timed_out) {
      bool reached = true, change = false;
      for (auto & n : A) { auto * c = at(r.post, n); auto * c0 = at(r.pre, n); reached &= c && c->state == S_ACTIVE; change |= c && c0 && c->state != c0->state; }
      for (auto & n : B) { auto * c = at(r.post, n); auto * c0 = at(r.pre, n); reached &= c && (c->state != S_ACTIVE || A.count(n)); change |= c && c0 && c->state != c0->state; }
      if (strict && reached && change && !fault) violate(P, "false-failure", "strict switch [%s]/[%s] answered failure although everything was reached: %s", join(A).c_str(), join(B).c_str(), r.msg.c_str());
    }
  }
  // --- hardware mode switches
  {
    std::map<string, set<string>> start, stop;
    for (auto & n : r.activated) {
      CtrlObj * c = live_ctrl(n);
      if (!c) continue;
      for (auto & i : c->last_held_cmd) if (auto * h = hw_of_interface(i)) start[h->name].insert(i);
    }
    for (auto & d : r.deactivated)
      for (auto & i : d.second) if (auto * h = hw_of_interface(i)) stop[h->name].insert(i);
    uint64_t first_act = ~0ull;
    for (auto & n : r.activated) if (auto * c = live_ctrl(n)) first_act = std::min(first_act, c->act_seq);
    struct PM { const ModeEvt * prep = nullptr, * perf = nullptr; int np = 0, nf = 0; };
    std::map<int, PM> m;
    uint64_t last_prep = 0;
    bool rejected = false, perf_rejected = false;
    for (size_t k = r.mode0; k < W->modes.size(); ++k) {
      auto & e = W->modes[k];
      if (e.seq >= first_act) continue;  // clean-up after a failed activation
      auto & x = m[e.hw];
      if (e.prep) { x.prep = &e; x.np++; last_prep = e.seq; rejected |= !e.ok; }
      else { x.perf = &e; x.nf++; perf_rejected |= !e.ok; }
    }
    if (rejected) {
      probe("prepare_rejected");
      for (auto & x : m) if (x.second.perf) violate("C14", "perform-after-rejected-prepare", "hardware %s performs although a preparation was rejected", W->hws[static_cast<size_t>(x.first)]->name.c_str());
    }
    if (rejected || perf_rejected) {
      if (!r.activated.empty() || !r.deactivated.empty()) violate("C14", rejected ? "switched-after-rejected-prepare" : "switched-after-rejected-perform", "switch [%s]/[%s]: controllers were switched although the hardware rejected it", join(A).c_str(), join(B).c_str());
      if (r.ok) violate("C14", "ok-after-rejection", "switch [%s]/[%s] ok although the hardware rejected it", join(A).c_str(), join(B).c_str());
    }
    if (!fault && !r.timed_out && (!r.activated.empty() || !r.deactivated.empty())) {
      // an active controller that claims everything also "stops" what became available after its activation
      bool all = false;
      for (auto & d : r.deactivated) if (auto * p = W->plan.ctrl_of(d.first)) all |= p->cmd_type != "individual";
      // (controllers with an interface selection leave with the chain they happen to use, and a
      // controller that is not used any longer by a controller with a selection restarts)
      bool outsider = false;
      for (auto & d : r.deactivated) { auto * p = W->plan.ctrl_of(d.first); outsider |= !A.count(d.first) && !B.count(d.first) && p && !individual(*p); }
      for (auto & n : chain_names(A)) if (auto * p = W->plan.ctrl_of(n)) outsider |= !individual(*p) && r.deactivated.size() > B.size();
      for (auto & n : chain_names(B)) if (auto * p = W->plan.ctrl_of(n)) outsider |= !individual(*p) && r.deactivated.size() > B.size();
      if (outsider) return;
      const string sel = all ? "-selection" : "";
      set<string> hws;
      for (auto & x : start) hws.insert(x.first);
      for (auto & x : stop) hws.insert(x.first);
      for (auto & hn : hws) {
        HwObj * h = live_hw(hn);
        if (!h || (h->st != S_ACTIVE && h->st != S_INACTIVE) || h->plan->kind == "sensor" || h->plan->plugin.rfind("sim/", 0) != 0) continue;
        probe("mode_switch_checked");
        auto & x = m[h->id];
        set<string> s1 = start[hn], s2 = stop[hn];
        if (!x.prep) { violate("C14", "not-prepared", "switch [%s]/[%s] starts %s and stops %s of %s which was not asked to prepare", join(A).c_str(), join(B).c_str(), join(s1).c_str(), join(s2).c_str(), hn.c_str()); continue; }
        if (x.prep->start != s1 || x.prep->stop != s2)
          violate("C14", "prepare-lists" + sel, "switch [%s]/[%s]: %s prepares start {%s} stop {%s} but the switch starts {%s} and stops {%s}", join(A).c_str(), join(B).c_str(), hn.c_str(), join(x.prep->start).c_str(), join(x.prep->stop).c_str(), join(s1).c_str(), join(s2).c_str());
        if (!x.perf) { violate("C14", "not-performed", "switch [%s]/[%s]: %s was not asked to perform before the activation", join(A).c_str(), join(B).c_str(), hn.c_str()); continue; }
        if (x.perf->start != x.prep->start || x.perf->stop != x.prep->stop) violate("C14", "perform-lists", "%s prepares {%s}/{%s} but performs {%s}/{%s}", hn.c_str(), join(x.prep->start).c_str(), join(x.prep->stop).c_str(), join(x.perf->start).c_str(), join(x.perf->stop).c_str());
        if (x.perf->seq < last_prep) violate("C14", "perform-before-prepare", "%s performs before every component prepared", hn.c_str());
        if (x.np > 1 || x.nf > 1) violate("C14", "repeated", "%s was asked %d times to prepare and %d times to perform", hn.c_str(), x.np, x.nf);
      }
      for (auto & x : m) {
        HwObj & h = *W->hws[static_cast<size_t>(x.first)];
        if (!hws.count(h.name) && x.second.prep && (!x.second.prep->start.empty() || !x.second.prep->stop.empty())) violate("C14", "unaffected-component" + sel, "%s was asked to switch {%s}/{%s} which the request does not start or stop", h.name.c_str(), join(x.second.prep->start).c_str(), join(x.second.prep->stop).c_str());
      }
    }
  }
}

// ------------------------------------------------------------------ truth versus the list services
bool truth_stable(const Req & r) { return W->last_change_seq < r.seq_begin && W->last_change_cycle + 2 <= r.cycle_begin && W->disturb_cycle_until < r.cycle_begin && !W->shutting_down; }

bool itf_known(const string & i, bool cmd, bool * avail, set<string> * holder)
{
  // hardware interface
  if (auto * h = hw_of_interface(i)) {
    HwObj * o = live_hw(h->name);
    if (!o) return false;
    *avail = o->st == S_INACTIVE || o->st == S_ACTIVE;
    if (h->plugin.rfind("sim/", 0) != 0) return false;
  } else {
    string e = ctrl_of_interface(i);
    if (e.empty()) return false;
    CtrlObj * x = live_ctrl(e);
    if (!x) return false;
    if (x->deact_failed && x->state() == S_ACTIVE) return false;  // its interfaces are gone although it refuses to be inactive
    *avail = x->state() == S_ACTIVE;
  }
  if (cmd) {
    auto it = W->holders.find(i);
    if (it != W->holders.end()) for (int id : it->second) holder->insert(W->ctrls[static_cast<size_t>(id)]->name);
  }
  return true;
}
void check_itf(const string & i, bool cmd, bool rep_avail, bool rep_claimed, const char * where)
{
  bool avail = false;
  set<string> hold;
  if (!itf_known(i, cmd, &avail, &hold)) return;
  bool hw = hw_of_interface(i) != nullptr;
  probe("interface_status_checked");
  if (rep_avail != avail) {
    violate("C04", string(rep_avail ? "reported-available" : "reported-unavailable") + (hw ? "-hardware" : "-reference"), "%s interface %s reported %s in %s", cmd ? "command" : "state", i.c_str(), rep_avail ? "available" : "not available", where);
    if (hw) violate("C09", string(rep_avail ? "available-in-" : "unavailable-in-") + state_name(live_hw(hw_of_interface(i)->name)->st), "interface %s is %s while its component is %s", i.c_str(), rep_avail ? "available" : "not available", state_name(live_hw(hw_of_interface(i)->name)->st));
    else violate("C08", string(rep_avail ? "reference-available-" : "reference-unavailable-") + state_name(live_ctrl(ctrl_of_interface(i))->state()), "interface %s is %s while its controller is %s", i.c_str(), rep_avail ? "available" : "not available", state_name(live_ctrl(ctrl_of_interface(i))->state()));
  }
  // an interface that is not available is never reported claimed
  if (cmd && rep_claimed != (avail && !hold.empty())) {
    if (rep_claimed) {
      violate("C01", "leaked-claim", "command interface %s is claimed but no controller holds it", i.c_str());
      violate("C04", "reported-claimed", "command interface %s reported claimed but no controller holds it", i.c_str());
    } else violate("C04", "reported-unclaimed", "command interface %s reported free but %s holds it", i.c_str(), join(hold).c_str());
  }
}
void check_list_controllers(Req & r)
{
  auto & resp = *std::static_pointer_cast<cms::ListControllers::Response>(r.resp);
  if (!truth_stable(r)) return;
  probe("list_controllers_checked");
  set<string> seen;
  for (auto & c : resp.controller) {
    if (!seen.insert(c.name).second) violate("C04", "listed-twice", "controller %s listed twice", c.name.c_str());
    CtrlObj * o = live_ctrl(c.name);
    if (!o || !o->loaded) { violate("C04", "listed-not-loaded", "controller %s listed but not loaded", c.name.c_str()); violate("C17", "listed-after-unload", "controller %s listed but not loaded", c.name.c_str()); continue; }
    if (c.state != state_name(o->state())) violate("C04", "controller-state", "controller %s reported %s but is %s", c.name.c_str(), c.state.c_str(), state_name(o->state()));
    if (o->plan) {
      if (c.type != o->plan->type) violate("C04", "controller-type", "controller %s reported as type %s", c.name.c_str(), c.type.c_str());
      if (c.is_chainable != o->plan->chainable) violate("C04", "chainable-flag", "controller %s", c.name.c_str());
    }
    if (c.is_async != o->is_async()) violate("C04", "async-flag", "controller %s", c.name.c_str());
    bool ch = o->p->is_in_chained_mode();
    if (c.is_chained != ch) violate("C04", "chained-flag", "controller %s reported chained=%d", c.name.c_str(), c.is_chained);
    if (c.is_chained && o->state() == S_ACTIVE) {
      bool claimed = false;
      for (auto & h : W->holders) if (ctrl_of_interface(h.first) == c.name && !h.second.empty()) claimed = true;
      if (!claimed) violate("C04", "chained-unclaimed", "controller %s reported chained but nobody claims its references", c.name.c_str());
    }
    set<string> cl(c.claimed_interfaces.begin(), c.claimed_interfaces.end());
    if (cl != o->held_cmd && !(o->deact_failed && o->state() == S_ACTIVE)) violate("C04", string("claimed-list-") + (o->state() != S_ACTIVE ? "inactive" : o->plan && o->plan->cmd_type != "individual" && is_fallback(o->name) ? "fallback-selection" : "active"), "controller %s (%s) reported to claim {%s} but holds {%s}", c.name.c_str(), state_name(o->state()), join(cl).c_str(), join(o->held_cmd).c_str());
    if (c.update_rate != o->p->get_update_rate()) violate("C04", "controller-update-rate", "controller %s reported with an update rate of %u but has %u", c.name.c_str(), c.update_rate, o->p->get_update_rate());
    if (o->state() == S_ACTIVE && !o->deact_failed) {
      // the connections of an active controller are exactly the references it holds
      std::map<string, set<string>> want, rep;
      for (auto & h : o->held_cmd) {
        string pre = h.substr(0, h.find('/'));
        for (auto & other : resp.controller) if (other.name == pre) want[pre].insert(h.substr(h.find('/') + 1));
      }
      for (auto & cc : c.chain_connections) for (auto & i : cc.reference_interfaces) rep[cc.name].insert(i);
      if (!want.empty()) probe(want.size() > 1 ? "several_chain_connections_checked" : "chain_connections_checked");
      if (want != rep) {
        string ws, rs;
        for (auto & w : want) ws += w.first + ":{" + join(w.second) + "} ";
        for (auto & w : rep) rs += w.first + ":{" + join(w.second) + "} ";
        violate("C04", "chain-connections", "controller %s reported with chain connections %s but uses %s", c.name.c_str(), rs.c_str(), ws.c_str());
      }
    }
    if (o->plan && o->plan->chainable && !W->plan.extra.count("badexport." + c.name) && (o->state() == S_INACTIVE || o->state() == S_ACTIVE)) {
      if (c.reference_interfaces.size() != static_cast<size_t>(o->plan->nref)) violate("C17", "reference-list", "controller %s reports %zu reference interfaces, exported %d", c.name.c_str(), c.reference_interfaces.size(), o->plan->nref);
      if (c.exported_state_interfaces.size() != static_cast<size_t>(o->plan->nstate)) violate("C17", "exported-state-list", "controller %s reports %zu exported state interfaces, exported %d", c.name.c_str(), c.exported_state_interfaces.size(), o->plan->nstate);
    }
  }
  for (auto & c : W->ctrls)
    if (c->alive && c->loaded && !c->discarded && !seen.count(c->name)) violate("C04", "not-listed", "loaded controller %s is not listed", c->name.c_str());
}
void check_list_components(Req & r)
{
  auto & resp = *std::static_pointer_cast<cms::ListHardwareComponents::Response>(r.resp);
  if (!truth_stable(r)) return;
  probe("list_components_checked");
  for (auto & c : resp.component) {
    HwObj * o = live_hw(c.name);
    if (!o) { if (W->plan.hw_of(c.name) && W->plan.hw_of(c.name)->plugin.rfind("sim/", 0) == 0) violate("C04", "component-not-loaded", "component %s listed but not loaded", c.name.c_str()); continue; }
    int st = o->st;
    if (c.state.id != st) violate("C04", string("component-state-") + state_name(c.state.id) + "-for-" + state_name(st), "component %s reported %s but is %s", c.name.c_str(), state_name(c.state.id), state_name(st));
    if (c.state.label != state_name(c.state.id)) violate("C04", "component-label", "component %s: state id %d label %s", c.name.c_str(), c.state.id, c.state.label.c_str());
    if (o->plan) {
      if (c.is_async != o->plan->is_async) violate("C04", "component-async", "component %s", c.name.c_str());
      if (c.plugin_name != o->plan->plugin) violate("C04", "component-plugin", "component %s", c.name.c_str());
    }
    for (auto & i : c.command_interfaces) check_itf(i.name, true, i.is_available, i.is_claimed, "list_hardware_components");
    for (auto & i : c.state_interfaces) check_itf(i.name, false, i.is_available, false, "list_hardware_components");
  }
}
void check_list_interfaces(Req & r)
{
  auto & resp = *std::static_pointer_cast<cms::ListHardwareInterfaces::Response>(r.resp);
  if (!truth_stable(r)) return;
  probe("list_interfaces_checked");
  set<string> cs, ss;
  for (auto & i : resp.command_interfaces) { cs.insert(i.name); check_itf(i.name, true, i.is_available, i.is_claimed, "list_hardware_interfaces"); }
  for (auto & i : resp.state_interfaces) { ss.insert(i.name); check_itf(i.name, false, i.is_available, false, "list_hardware_interfaces"); }
  // exported references exist exactly while their controller is configured
  for (auto & p : W->plan.ctrl) {
    if (!p.chainable) continue;
    CtrlObj * o = live_ctrl(p.name);
    int st = o && o->loaded ? o->state() : S_UNKNOWN;
    bool exp = st == S_INACTIVE || st == S_ACTIVE;
    if (W->plan.extra.count("badexport." + p.name)) exp = false;
    bool after_error = o && o->n_err > 0;
    for (int i = 0; i < p.nref + p.nstate; ++i) {
      string n = p.name + (i < p.nref ? "/ref" + std::to_string(i) : "/est" + std::to_string(i - p.nref));
      bool has = (i < p.nref ? cs : ss).count(n) > 0;
      // after an error they may stay (unavailable) until the controller is configured or unloaded
      if (has && !exp && !after_error) violate("C17", string("exported-interface-left-") + state_name(st), "interface %s exists while its controller is %s", n.c_str(), st == S_UNKNOWN ? "not loaded" : state_name(st));
      if (!has && exp) violate("C17", "exported-interface-missing", "interface %s does not exist while its controller is %s", n.c_str(), state_name(st));
    }
  }
  if (!cs.empty() || !ss.empty())
    for (auto & h : W->plan.hw) {
      HwObj * o = live_hw(h.name);
      if (!o || h.plugin.rfind("sim/", 0) != 0) continue;
      for (auto & j : h.joints) {
        for (auto & c : j.cmd) if (!cs.count(j.name + "/" + c.name)) violate("C04", "interface-not-listed", "command interface %s/%s is not listed", j.name.c_str(), c.name.c_str());
        for (auto & s : j.state) if (!ss.count(j.name + "/" + s)) violate("C04", "interface-not-listed", "state interface %s/%s is not listed", j.name.c_str(), s.c_str());
      }
    }
}
void check_activity(Req & r)
{
  if (!W->have_activity || !truth_stable(r) || W->last_change_cycle + 5 > W->cycle) return;
  probe("activity_checked");
  for (auto & c : W->ctrls) {
    if (!c->alive || !c->loaded || c->discarded) continue;
    auto i = W->act_ctrl.find(c->name);
    if (i == W->act_ctrl.end()) violate("C04", "activity-missing-controller", "the last activity message does not contain %s", c->name.c_str());
    else if (i->second != c->state()) violate("C04", string("activity-controller-") + state_name(i->second) + "-for-" + state_name(c->state()), "the last activity message says %s is %s but it is %s", c->name.c_str(), state_name(i->second), state_name(c->state()));
  }
  for (auto & a : W->act_ctrl) { CtrlObj * o = live_ctrl(a.first); if (!o || !o->loaded) violate("C04", "activity-unloaded-controller", "the last activity message contains %s which is not loaded", a.first.c_str()); }
  for (auto & h : W->hws) {
    if (!h->alive || !h->init_ok) continue;
    auto i = W->act_hw.find(h->name);
    if (i == W->act_hw.end()) violate("C04", "activity-missing-component", "the last activity message does not contain %s", h->name.c_str());
    else if (i->second != h->st) violate("C04", string("activity-component-") + state_name(i->second) + "-for-" + state_name(h->st), "the last activity message says %s is %s but it is %s", h->name.c_str(), state_name(i->second), state_name(h->st));
  }
}

// ------------------------------------------------------------------ load, configure, cleanup, unload
void check_lifecycle(Req & r)
{
  const OpPlan & op = *r.plan;
  const string & n = op.str;
  bool quiet = quiet_for(r) && !W->shutting_down;
  auto * c0 = at(r.pre, n);
  auto * c1 = at(r.post, n);
  const CtrlPlan * p = W->plan.ctrl_of(n);
  int s0 = c0 ? c0->state : -1, s1 = c1 ? c1->state : -1;
  string what;
  // stopped by the control loop while the request was served
  bool moved = s0 > S_FINAL || (c0 && W->ctrls[static_cast<size_t>(c0->obj)]->deact_seq >= r.seq_begin);
  probe(op.op + (r.ok ? "_ok" : "_failed"));
  auto others = [&]() {
    if (!same_state(r.pre, r.post, {n}, &what)) violate("C17", op.op + "-touched-other", "%s %s: %s", op.op.c_str(), n.c_str(), what.c_str());
  };
  if (op.op == "load") {
    bool fail_fault = r.cb_faults.count(n + ".init") > 0;
    bool self_fb = p && std::find(p->fallbacks.begin(), p->fallbacks.end(), n) != p->fallbacks.end();
    bool known_type = p && (p->type == "sim/Controller" || p->type == "sim/Chainable");
    bool should = p && known_type && !c0 && !fail_fault && !self_fb;
    if (r.ok != should) violate("C17", string("load-") + (r.ok ? "accepted" : "refused") + (c0 ? "-duplicate" : ""), "load %s answered %d (%s)", n.c_str(), r.ok, !p ? "unknown name" : p->type.c_str());
    if (r.ok && s1 != S_UNCONF && quiet) violate("C17", "loaded-state", "%s is %s after loading", n.c_str(), s1 < 0 ? "not there" : state_name(s1));
    if (!r.ok && c0 && (!c1 || s1 != s0 || c1->obj != c0->obj) && quiet) violate("C17", "failed-load-disturbs", "a refused load of %s changed the loaded one", n.c_str());
  } else if (op.op == "configure") {
    bool conf_fault = r.cb_faults.count(n + ".configure") || r.cb_faults.count(n + ".cleanup") || r.cb_faults.count(n + ".error");
    bool bad = p && p->chainable && (W->plan.extra.count("badexport." + n) || p->nref + p->nstate == 0);
    bool from = s0 == S_UNCONF || s0 == S_INACTIVE;
    if (!from && r.ok && !moved) violate("C17", "configure-from-" + string(s0 < 0 ? "unknown" : state_name(s0)), "configure %s answered ok in state %s", n.c_str(), s0 < 0 ? "unknown" : state_name(s0));
    if (!from && quiet && !moved && s0 >= 0 && s1 != s0) violate("C17", "refused-configure-changed", "%s went from %s to %s by a refused configure", n.c_str(), state_name(s0), s1 < 0 ? "gone" : state_name(s1));
    if (from && !conf_fault && !bad && !r.ok && quiet) violate("C17", "configure-refused", "configure %s refused in state %s", n.c_str(), state_name(s0));
    if (r.ok && s1 != S_INACTIVE && quiet) violate("C17", "configured-state", "configure %s ok but it is %s", n.c_str(), s1 < 0 ? "gone" : state_name(s1));
    if (bad && r.ok) violate("C17", "bad-export-accepted", "configure %s ok although its exported interfaces are invalid", n.c_str());
    if (!r.ok && from && quiet && s1 == S_ACTIVE) violate("C17", "failed-configure-active", "%s is active after a failed configure", n.c_str());
    if (!r.ok && from && quiet && conf_fault && !r.cb_faults.count(n + ".cleanup") && s1 == S_INACTIVE) violate("C17", "failed-configure-inactive", "configure %s failed but it is inactive", n.c_str());
    if (bad && !conf_fault && from && quiet && s1 != S_UNCONF && s1 != S_FINAL) violate("C17", "bad-export-state", "%s is %s after invalid exports", n.c_str(), s1 < 0 ? "gone" : state_name(s1));
    if (quiet) others();
  } else if (op.op == "cleanup") {
    bool fault = r.cb_faults.count(n + ".cleanup") || r.cb_faults.count(n + ".error");
    bool from = s0 == S_INACTIVE || s0 == S_UNCONF;
    if (!from && r.ok && !moved) violate("C17", "cleanup-from-" + string(s0 < 0 ? "unknown" : state_name(s0)), "cleanup %s answered ok in state %s", n.c_str(), s0 < 0 ? "unknown" : state_name(s0));
    if (!from && quiet && !moved && s0 >= 0 && s1 != s0) violate("C17", "refused-cleanup-changed", "%s went from %s to %s by a refused cleanup", n.c_str(), state_name(s0), s1 < 0 ? "gone" : state_name(s1));
    if (from && !fault && !r.ok && quiet) violate("C17", "cleanup-refused", "cleanup %s refused in state %s", n.c_str(), state_name(s0));
    if (r.ok && s1 != S_UNCONF && quiet) violate("C17", "cleaned-state", "cleanup %s ok but it is %s", n.c_str(), s1 < 0 ? "gone" : state_name(s1));
    if (quiet) others();
  } else if (op.op == "unload") {
    bool from = c0 && s0 != S_ACTIVE;
    bool fault = r.cb_faults.count(n + ".cleanup") || r.cb_faults.count(n + ".shutdown") || r.cb_faults.count(n + ".error");
    if (!from && r.ok && !moved) violate("C17", "unload-from-" + string(s0 < 0 ? "unknown" : state_name(s0)), "unload %s answered ok in state %s", n.c_str(), s0 < 0 ? "unknown" : state_name(s0));
    if (!from && quiet && !moved && c0 && s1 != s0) violate("C17", "refused-unload-changed", "%s went from %s to %s by a refused unload", n.c_str(), state_name(s0), s1 < 0 ? "gone" : state_name(s1));
    if (from && !fault && !r.ok && quiet) violate("C17", "unload-refused", "unload %s refused in state %s", n.c_str(), state_name(s0));
    if (quiet) others();
  }
}
void check_sethw(Req & r)
{
  const OpPlan & op = *r.plan;
  auto & resp = *std::static_pointer_cast<cms::SetHardwareComponentState::Response>(r.resp);
  bool quiet = quiet_for(r) && !W->shutting_down;
  HwObj * o = live_hw(op.str);
  auto i0 = r.pre.h.find(op.str);
  int s0 = i0 == r.pre.h.end() ? -1 : i0->second;
  int target = static_cast<int>(op.num);
  probe(string("sethw_") + (r.ok ? "ok" : "failed"));
  if (s0 < 0) {
    if (!W->plan.hw_of(op.str) && r.ok) violate("C09", "unknown-component-ok", "state change of unknown component %s ok", op.str.c_str());
    return;
  }
  if (!o || !quiet || o->threw) return;
  int s1 = o->st;
  bool fault = false;
  for (auto & f : r.cb_faults) if (f.rfind(op.str + ".", 0) == 0) fault = true;
  bool valid = target >= S_UNCONF && target <= S_FINAL;
  if (valid && r.ok && s1 != target) violate("C09", string("ok-but-") + state_name(s1) + "-for-" + state_name(target), "state change of %s to %s ok but it is %s", op.str.c_str(), state_name(target), state_name(s1));
  if (!r.ok && valid && s1 == target && s0 != target && !fault) violate("C09", "failure-but-reached", "state change of %s to %s answered failure but it is reached", op.str.c_str(), state_name(target));
  bool reach = valid && (s0 != S_FINAL || target == S_FINAL);
  if (reach && !fault && !r.ok) violate("C09", string("refused-") + state_name(s0) + "-to-" + state_name(target), "state change of %s from %s to %s refused", op.str.c_str(), state_name(s0), state_name(target));
  if (!reach && r.ok && valid) violate("C09", "finalized-left", "state change of finalized %s to %s ok", op.str.c_str(), state_name(target));
  if (!reach && s1 != s0 && !fault) violate("C09", "refused-but-changed", "%s changed from %s to %s by a refused request", op.str.c_str(), state_name(s0), state_name(s1));
  if (resp.state.id != s1) violate("C04", "sethw-answer-state", "state change of %s answers state %s but it is %s", op.str.c_str(), state_name(resp.state.id), state_name(s1));
  for (auto & h : r.pre.h) {
    if (h.first == op.str) continue;
    auto i = r.post.h.find(h.first);
    if (i != r.post.h.end() && i->second != h.second) violate("C09", "other-component-changed", "state change of %s changed %s from %s to %s", op.str.c_str(), h.first.c_str(), state_name(h.second), state_name(i->second));
  }
}
}  // namespace

void ora_req_begin(Req * r)
{
  W->seq++;
  r->begun = true;
  r->t_begin = simrt::now_ns();
  r->seq_begin = W->seq;
  r->cycle_begin = W->cycle;
  r->pre_disturb_until = W->disturb_cycle_until;
  r->slow0 = W->slow_total;
  r->slow_open = std::max<int64_t>(0, W->slow_until - simrt::now_ns());
  r->mode0 = W->modes.size();
  r->pre = take_snap();
  if (W->main_returned) violate("C16", "request-after-exit", "%s served after the main function returned", r->what.c_str());
  W->cur = r;
  W->n_req_begun++;
  W->req_in_cycle = true;
  note("REQ %d %s", r->id, r->what.c_str());
}
void ora_req_end(Req * r)
{
  W->seq++;
  r->done = true;
  r->t_end = simrt::now_ns();
  r->seq_end = W->seq;
  r->cycle_end = W->cycle;
  const string & op = r->plan->op;
  auto resp = r->resp;
  if (op == "load") r->ok = std::static_pointer_cast<cms::LoadController::Response>(resp)->ok;
  else if (op == "configure") r->ok = std::static_pointer_cast<cms::ConfigureController::Response>(resp)->ok;
  else if (op == "cleanup") r->ok = std::static_pointer_cast<cms::CleanupController::Response>(resp)->ok;
  else if (op == "unload") r->ok = std::static_pointer_cast<cms::UnloadController::Response>(resp)->ok;
  else if (op == "reload") r->ok = std::static_pointer_cast<cms::ReloadControllerLibraries::Response>(resp)->ok;
  else if (op == "sethw") r->ok = std::static_pointer_cast<cms::SetHardwareComponentState::Response>(resp)->ok;
  else if (op == "switch") { auto x = std::static_pointer_cast<cms::SwitchController::Response>(resp); r->ok = x->ok; r->msg = x->message; }
  else r->ok = true;
  note("REQ %d %s -> %s %s", r->id, r->what.c_str(), r->ok ? "ok" : "FAILED", r->msg.c_str());
  W->ops_done[op + (r->ok ? ":ok" : ":failed")]++;
  int64_t to = 0;
  if (op == "switch") {
    to = r->plan->timeout > 0 ? r->plan->timeout : 1000000000ll;
    r->timed_out = r->t_end - r->t_begin >= to;
  }
  // objects
  if (op == "load") {
    CtrlObj * o = nullptr;
    for (auto & c : W->ctrls) if (c->alive && !c->loaded && !c->discarded && c->name == r->plan->str) o = c.get();
    if (o) { if (r->ok) o->loaded = true; else { o->discarded = true; W->unloaded[o->id] = {"failed load", W->cycle + 5}; } }
  }
  if (op == "unload" && r->ok) {
    for (auto & c : W->ctrls)
      if (c->loaded && !c->discarded && c->name == r->plan->str) { c->discarded = true; c->loaded = false; if (c->alive) W->unloaded[c->id] = {"unload", W->cycle + 5}; }
  }
  if (op == "reload" && r->ok)
    for (auto & c : W->ctrls)
      if (c->loaded && !c->discarded) { c->discarded = true; c->loaded = false; if (c->alive) W->unloaded[c->id] = {"reload", W->cycle + 5}; }
  r->post = take_snap();
  // a switch that failed in between leaves open what the hardware was told
  if (op == "switch" && !r->ok)
    for (auto it = W->modes.rbegin(); it != W->modes.rend() && it->seq >= r->seq_begin; ++it)
      if (!it->prep) for (auto * l : {&it->start, &it->stop}) for (auto & i : *l) W->hws[static_cast<size_t>(it->hw)]->mode[i] = -1;
  if (op == "reload") W->reload_cycle = W->cycle;
  if (op == "switch" && !r->plan->asap) W->outside_switch_cycle = W->cycle;
  W->cur = nullptr;
  W->req_in_cycle = true;
  if (r->plan && !only_starts(*r->plan)) W->other_req_cycle = W->cycle;
  W->recent_req_names.insert(r->plan->a.begin(), r->plan->a.end());
  W->recent_req_names.insert(r->plan->b.begin(), r->plan->b.end());
  // bounded answer
  int64_t period = 1000000000ll / W->plan.update_rate;
  int64_t allow = to + static_cast<int64_t>(W->slow_total - r->slow0) + r->slow_open + 40 * period + 500000000ll;
  if (!W->plan.use_sim_time && r->t_end - r->t_begin > allow && !W->shutting_down) violate("C05", "answer-late-" + op, "%s took %.3f s, allowed %.3f s", r->what.c_str(), static_cast<double>(r->t_end - r->t_begin) / 1e9, static_cast<double>(allow) / 1e9);

  if (W->shutting_down && !r->ok && op != "switch" && op != "listc" && op != "listh" && op != "listi") return;  // refused while shutting down
  if (op == "switch") check_switch(*r);
  else if (op == "load" || op == "configure" || op == "cleanup" || op == "unload") check_lifecycle(*r);
  else if (op == "sethw") check_sethw(*r);
  else if (op == "listc") { check_list_controllers(*r); check_activity(*r); }
  else if (op == "listh") check_list_components(*r);
  else if (op == "listi") check_list_interfaces(*r);
}

// unloaded objects disappear, nothing of them stays registered
void ora_unloaded_check()
{
  for (auto it = W->unloaded.begin(); it != W->unloaded.end();) {
    CtrlObj & c = *W->ctrls[static_cast<size_t>(it->first)];
    if (!c.alive) { it = W->unloaded.erase(it); continue; }
    if (it->second.second < W->cycle && !W->cur && !W->shutting_down) {
      violate("C17", "object-kept-after-" + it->second.first, "controller %s still exists %llu cycles after its %s", c.name.c_str(), 5ull, it->second.first.c_str());
      it = W->unloaded.erase(it);
      continue;
    }
    ++it;
  }
}

void ora_final()
{
  NoPreempt np;
  // called after the main function has returned
  bool lc_fault = false;
  for (auto & f : W->faults_fired)
    for (auto * k : {"deactivate:", "shutdown:", "error:", "cleanup:"}) if (f.first.rfind(k, 0) == 0) lc_fault = true;
  (void)lc_fault;
  for (auto & up : W->ctrls) {
    CtrlObj & c = *up;
    if (!c.inited || !c.loaded || c.discarded) continue;
    probe("final_controller_checked");
    bool f = false;
    for (auto & x : W->plan.faults) if (x.who == c.name && x.fired && ((x.cb == "deactivate" && x.eff != "error") || x.cb == "shutdown" || x.cb == "error")) f = true;
    if (f) continue;
    if (c.n_shut == 0 && !c.err_failed) violate("C16", "controller-not-finalized", "controller %s was not shut down", c.name.c_str());
    if (c.n_shut > 1) violate("C16", "controller-finalized-twice", "controller %s was shut down %d times", c.name.c_str(), c.n_shut);
    if (c.n_deact < c.act_ok) violate("C16", "controller-not-deactivated", "controller %s was activated %d times and deactivated %d times", c.name.c_str(), c.act_ok, c.n_deact);
  }
  for (auto & up : W->hws) {
    HwObj & h = *up;
    if (!h.init_ok || h.refused) continue;
    bool f = false;
    for (auto & x : W->plan.faults) if (x.who == h.name && x.fired && ((x.cb == "deactivate" && x.eff != "error") || x.cb == "shutdown" || x.cb == "error")) f = true;
    if (f) continue;
    probe("final_component_checked");
    bool was_final_before = h.n_err > 0 && h.n_shut == 0 && h.st == S_FINAL;
    if (h.n_shut == 0 && !was_final_before) violate("C16", "component-not-shut-down", "hardware %s was not shut down", h.name.c_str());
    if (h.n_shut > 1 && h.n_err == 0) violate("C16", "component-shut-down-twice", "hardware %s was shut down %d times", h.name.c_str(), h.n_shut);
  }
}

