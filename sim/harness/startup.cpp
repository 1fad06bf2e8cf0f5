// Start-up: what the delivery of a robot description may and must do (property C19).
#include "world.hpp"
#include "simros/control.hpp"
#include "std_msgs/msg/string.hpp"
using simrt::NoPreempt;
using std::string;

namespace
{
struct Startup
{
  std::map<string, string> kinds;    // text -> kind
  bool initialised = false, in_delivery = false, later = false;
  int fiber = -1, bad = 0, delivered = 0;
  string kind, accepted;
  uint64_t cycle0 = 0;
  int64_t t0 = 0;
  size_t hws0 = 0;
  std::set<string> init_failed;
  int good_delivered = 0;
  std::map<int, std::pair<int, int>> before;   // live hardware: state, number of lifecycle callbacks
};
Startup su;
bool valid_kind(const string & k) { return k == "good" || k == "other"; }
int lc_calls(const HwObj * h) { return h->n_conf + h->n_act + h->n_deact + h->n_clean + h->n_shut; }
bool ready() { return simros::service_exists("/controller_manager/list_hardware_interfaces"); }
void initial_states()
{
  std::set<string> failed_groups;
  for (auto & h : W->hws)
    if (h->alive && h->plan && !h->plan->group.empty() && (h->lc_failed || h->io_failed || h->ever_io_failed)) failed_groups.insert(h->plan->group);
  bool lc_failure = false;
  for (auto & h : W->hws) {
    if (!h->alive || !h->init_ok) continue;
    string want = h->plan ? h->plan->initial : "active";
    int ws = want == "active" ? S_ACTIVE : want == "inactive" ? S_INACTIVE : S_UNCONF;
    if (h->lc_failed) {
      lc_failure = true;
      probe("initial_state_failed");
      if (h->reported() == S_ACTIVE) violate("C19", "active-after-failed-initialisation", "hardware %s is active although bringing it to its initial state %s failed", h->name.c_str(), want.c_str());
      continue;
    }
    if (h->ever_io_failed || h->deact_asked) continue;
    // the initial activation of a group stops at its first failing member; the states of the others are C10's
    if (h->plan && ws == S_ACTIVE && failed_groups.count(h->plan->group)) continue;
    probe("initial_state_checked");
    if (h->reported() != ws || h->st != ws)
      violate("C19", string("initial-state-") + want + "-is-" + state_name(h->reported()), "hardware %s is %s (its callbacks: %s) when the manager opens its services, its configured initial state is %s", h->name.c_str(), state_name(h->reported()), state_name(h->st), want.c_str());
    else if (h->n_conf != (ws >= S_INACTIVE) || h->n_act != (ws == S_ACTIVE) || h->n_deact || h->n_clean || h->n_shut)
      violate("C19", string("initial-state-detour-") + want, "hardware %s reaches its initial state %s with %d configurations, %d activations, %d deactivations, %d cleanups", h->name.c_str(), want.c_str(), h->n_conf, h->n_act, h->n_deact, h->n_clean);
  }
  // the members of a group become active together or not at all
  for (auto & h : W->hws) {
    if (!h->alive || !h->init_ok || !h->plan || h->plan->group.empty() || h->plan->initial != "active" || !h->lc_failed || h->reported() == S_ACTIVE) continue;
    for (auto & m : W->hws) {
      if (!m->alive || m == h || !m->plan || m->plan->group != h->plan->group || m->plan->initial != "active" || m->lc_failed) continue;
      probe("initial_group_member_checked");
      if (m->reported() == S_ACTIVE) violate("C10", "member-active-after-initial-failure", "hardware %s is active when the manager opens its services although member %s of its group failed to become active", m->name.c_str(), h->name.c_str());
    }
  }
  if (lc_failure && W->plan.shutdown_on_init_failure) violate("C19", "no-shutdown-on-initial-state-failure", "the manager opens its services although a component failed to reach its initial state and shutdown_on_initial_state_failure is set");
}
}  // namespace

void su_publish(const string & text, const string & kind)
{
  NoPreempt np;
  su.kinds[text] = kind;
}
bool su_initialised() { return su.initialised; }
int su_bad() { return su.bad; }
bool su_waiting_for_good() { return !su.initialised && su.good_delivered == 0; }
void su_hw_init_result(const string & name, bool ok)
{
  if (!ok) su.init_failed.insert(name);
  else su.init_failed.erase(name);
}
void su_hw_created()
{
  if (su.initialised && !W->shutting_down) violate("C19", "later-description-loads-hardware", "a hardware component is created after the manager was initialised");
}
void su_hw_destroyed(HwObj * o)
{
  if (su.in_delivery && simrt::current_fiber() == su.fiber) o->refused = true;
  if (su.initialised && su.in_delivery && o->init_ok && !W->shutting_down) violate("C19", "later-description-destroys-hardware", "hardware %s is destroyed while a later robot description is handled", o->name.c_str());
}
// a lifecycle callback of the hardware begins
void su_hw_lc(HwObj * o, const string & cb)
{
  if (!su.initialised || W->shutting_down || cb == "error") return;
  if (simrt::current_fiber() == su.fiber && su.in_delivery) { violate("C19", "later-description-disturbs-hardware", "hardware %s: on_%s while a later robot description is handled", o->name.c_str(), cb.c_str()); return; }
  string f = simrt::current_fiber_name();
  if (f.rfind("exec", 0) != 0) return;
  if (!W->cur || W->cur->plan->op != "sethw") violate("C19", "unrequested-" + cb, "hardware %s: on_%s in thread %s although no request concerns hardware", o->name.c_str(), cb.c_str(), f.c_str());
}
void su_deliver(const string & topic, const void * msg, bool begin)
{
  NoPreempt np;
  if (topic != "/robot_description") return;
  auto & m = *static_cast<const std_msgs::msg::String *>(msg);
  if (begin) {
    auto it = su.kinds.find(m.data);
    su.kind = it == su.kinds.end() ? "unknown" : it->second;
    su.in_delivery = true;
    su.fiber = simrt::current_fiber();
    su.delivered++;
    su.later = su.initialised;
    su.hws0 = W->hws.size();
    su.init_failed.clear();
    note("robot description (%s) is handled", su.kind.c_str());
    if (su.kind == "good") su.good_delivered++;
    return;
  }
  su.in_delivery = false;
  if (W->shutting_down) return;
  probe(string("description_") + (su.later ? "later_" : "") + su.kind);
  if (su.later) return;
  bool up = ready();
  note("robot description (%s) handled: manager %s", su.kind.c_str(), up ? "ready" : "not ready");
  bool expect = valid_kind(su.kind) && su.init_failed.empty();
  if (expect && !up) violate("C19", su.bad ? "valid-description-refused-after-invalid" : "valid-description-refused", "the manager is not initialised after a valid robot description (%s), %d unusable ones were received before", su.kind.c_str(), su.bad);
  if (!expect && up) violate("C19", "invalid-description-accepted/" + su.kind, "the manager opens its services after an unusable robot description (%s)", su.kind.c_str());
  if (!up) { su.bad++; }
  if (!up)
    for (auto & h : W->hws)
      if (h->alive) violate("C19", "components-kept-after-refused-description", "component %s of a refused robot description still exists", h->name.c_str());
  if (up) { initial_states(); su.initialised = true; su.accepted = su.kind; if (su.bad) probe("description_accepted_after_bad"); }
}
void su_final()
{
  // settings and usability after an unusable description
  if (W->plan.profile != "C19" || !su.initialised || su.accepted != "good") return;
  bool failed = false;
  for (auto & h : W->hws) if (h->alive && h->lc_failed) failed = true;
  if (!su.bad && !failed) return;
  static const std::set<string> relevant = {"C02", "C03", "C04", "C13", "C14"};
  auto vs = W->viols;
  for (auto & v : vs)
    if (relevant.count(v.prop)) violate("C19", string(su.bad ? "after-unusable-description/" : "after-initial-failure/") + v.sig, "%s", v.msg.c_str());
}
