// Random plans: system under test, workload, faults and schedule of one run, all from one seed.
#include "plan.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include <set>

using std::string;
using std::vector;
namespace
{
constexpr int64_t MS = 1000000;
struct Knobs
{
  int min_ops = 6, max_ops = 22;
  double chain = 0.45, async_ctrl = 0.1, async_hw = 0.08, ctrl_rate = 0.2, hw_rate = 0.12, group = 0.12, fallback = 0.2;
  double w_switch = 10, w_load = 1, w_conf = 1.2, w_clean = 0.8, w_unload = 0.8, w_sethw = 1, w_audit = 1.5, w_list = 1, w_reload = 0.05, w_jump = 0.2, w_settle = 0.5, w_types = 0.1, w_rate = 0, w_revive = 0.4;
  double strict = 0.6;
  double f_update = 0.25, f_hw_io = 0.25, f_ctrl_lc = 0.25, f_hw_lc = 0.15, f_mode = 0.12, f_slow = 0.15, f_init = 0.05, f_chained = 0.04, f_none = 0.25;
  double timeouts = 0.12, non_asap = 0.25, multi_client = 0.3, unknown_names = 0.08;
  double shutdown_at = 0.05, preempt = 0.35;
  double limits = 0.3, introspect = 0.2, allow_inactive = 0.12, hw_initial = 0.2, no_handle = 0.0;
  double bad_export = 0.05, bad_type = 0.05, desc_late = 0.15, desc_bad = 0.0, sim_time = 0.0, jitter = 0.3, dense = 0.3, spurious = 0.2;
  double deact_self_off = 0.15, errfail = 0.1, special_if = 0.1;
  int max_hw = 3, max_ctrl = 7;
  bool many_slow = false;
};
Knobs knobs(const string & p)
{
  Knobs k;
  if (p == "C01") { k.f_ctrl_lc = 0.5; k.w_switch = 14; k.w_audit = 3; k.special_if = 0.2; }
  if (p == "C02") { k.strict = 0.95; k.w_switch = 16; k.f_none = 0.4; k.f_hw_io = 0.05; k.f_update = 0.05; k.f_mode = 0.2; k.f_ctrl_lc = 0.35; }
  if (p == "C03") { k.strict = 0.08; k.w_switch = 16; k.f_none = 0.45; k.f_hw_io = 0.05; k.f_update = 0.05; k.f_mode = 0.15; k.f_ctrl_lc = 0.3; k.unknown_names = 0.2; k.chain = 0.6; }
  if (p == "C04") { k.w_audit = 8; k.w_list = 3; k.w_sethw = 2; k.f_update = 0.4; k.f_hw_io = 0.4; k.w_settle = 3; }
  if (p == "C05") { k.w_revive = 1; k.multi_client = 0.8; k.timeouts = 0.35; k.f_slow = 0.5; k.f_update = 0.5; k.f_hw_io = 0.4; k.preempt = 0.6; k.dense = 0.7; k.f_none = 0.1; k.w_list = 2; }
  if (p == "C06") { k.w_revive = 2; k.f_hw_io = 1.0; k.f_none = 0.02; k.f_update = 0.1; k.f_ctrl_lc = 0.1; k.group = 0.25; k.chain = 0.55; k.w_sethw = 2; k.async_hw = 0.15; k.max_hw = 4; k.w_settle = 2; }
  if (p == "C07") { k.w_revive = 2; k.f_update = 1.0; k.f_none = 0.02; k.fallback = 0.6; k.f_hw_io = 0.05; k.f_ctrl_lc = 0.1; k.chain = 0.6; k.w_settle = 2; k.async_ctrl = 0.15; }
  if (p == "C08") { k.chain = 1.0; k.max_ctrl = 9; k.f_none = 0.4; k.w_switch = 14; k.f_update = 0.2; k.w_clean = 1.2; k.w_conf = 1.5; }
  if (p == "C09") { k.w_sethw = 10; k.w_switch = 4; k.f_hw_lc = 0.7; k.f_hw_io = 0.4; k.hw_initial = 0.5; k.w_audit = 4; k.max_hw = 4; k.f_init = 0.15; k.errfail = 0.3; }
  if (p == "C10") { k.w_revive = 1.5; k.group = 1.0; k.max_hw = 4; k.f_hw_io = 0.8; k.f_hw_lc = 0.4; k.f_none = 0.05; k.w_sethw = 3; k.async_hw = 0.05; k.hw_initial = 0.15; k.w_settle = 2; }
  if (p == "C11") { k.ctrl_rate = 0.9; k.hw_rate = 0.8; k.w_settle = 5; k.jitter = 0.5; k.f_slow = 0.4; k.w_jump = 1.0; k.f_none = 0.3; k.max_ops = 16; k.w_sethw = 2; k.w_rate = 0.8; k.w_clean = 1.5; }
  if (p == "C12") { k.w_revive = 3; k.async_ctrl = 0.7; k.async_hw = 0.6; k.f_slow = 0.6; k.preempt = 0.7; k.f_update = 0.4; k.f_hw_io = 0.4; k.max_ops = 16; k.w_sethw = 2.5; k.w_settle = 2; }
  if (p == "C13") { k.limits = 1.0; k.f_none = 0.5; k.w_settle = 5; k.special_if = 0.15; k.async_ctrl = 0.05; k.f_update = 0.1; k.f_hw_io = 0.1; k.f_ctrl_lc = 0.1; k.max_ops = 14; }
  if (p == "C14") { k.f_mode = 0.7; k.w_switch = 16; k.max_hw = 4; k.f_none = 0.3; k.f_update = 0.05; k.f_hw_io = 0.05; k.f_ctrl_lc = 0.15; k.allow_inactive = 0.3; k.hw_initial = 0.3; }
  if (p == "C16") { k.shutdown_at = 0.9; k.multi_client = 0.5; k.f_slow = 0.3; k.preempt = 0.6; k.dense = 0.6; k.desc_late = 0.4; k.async_ctrl = 0.25; k.async_hw = 0.2; k.max_ops = 16; }
  if (p == "C17") { k.w_load = 6; k.w_conf = 6; k.w_clean = 4; k.w_unload = 5; k.w_reload = 0.5; k.w_switch = 6; k.f_init = 0.4; k.f_ctrl_lc = 0.5; k.introspect = 0.8; k.bad_export = 0.3; k.bad_type = 0.3; k.f_hw_io = 0.05; k.chain = 0.6; k.w_audit = 3; k.multi_client = 0.3; }
  if (p == "C18") { k.f_slow = 0.8; k.jitter = 0.4; k.w_jump = 2; k.sim_time = 0.3; k.many_slow = true; k.max_ops = 10; k.min_ops = 3; k.w_settle = 6; k.f_none = 0.15; k.f_update = 0.05; k.f_hw_io = 0.05; k.f_ctrl_lc = 0.05; k.hw_rate = 0.1; k.preempt = 0.1; }
  if (p == "C19") { k.desc_late = 0.8; k.desc_bad = 0.9; k.hw_initial = 0.6; k.f_hw_lc = 0.5; k.f_init = 0.3; k.max_ops = 12; k.allow_inactive = 0.35; k.deact_self_off = 0.35; k.f_none = 0.3; k.max_hw = 4; k.group = 0.3; k.preempt = 0.5; }
  if (p == "C26") { k.ctrl_rate = 0.7; k.hw_rate = 0.6; k.w_settle = 5; k.jitter = 0.5; k.f_slow = 0.6; k.many_slow = true; k.w_jump = 0.5; k.f_none = 0.15; k.f_update = 0.3; k.f_hw_io = 0.3; k.max_ops = 18; k.w_sethw = 3; k.w_load = 3; k.w_unload = 2.5; k.w_clean = 2; k.hw_initial = 0.4; k.async_ctrl = 0.2; k.async_hw = 0.2; k.preempt = 0.5; k.desc_late = 0.3; k.f_hw_lc = 0.3; }
  if (p == "C20") { k.w_revive = 1; k.multi_client = 0.6; k.preempt = 0.7; k.w_load = 2; k.w_unload = 3; k.w_clean = 2; k.w_conf = 2; k.dense = 0.6; k.f_slow = 0.25; k.w_settle = 1.5; k.f_none = 0.3; }
  return k;
}
struct Gen
{
  simrt::Rng r;
  Plan p;
  Knobs k;
  bool yes(double x) { return r.chance(x); }
  int64_t in(int64_t a, int64_t b) { return r.range(a, b); }
  template <class T> const T & pick(const vector<T> & v) { return v[r.below(v.size())]; }

  void hardware()
  {
    int n = static_cast<int>(in(1, k.max_hw));
    bool groups = yes(k.group);
    bool special = yes(k.special_if);
    for (int i = 0; i < n; ++i) {
      HwPlan h;
      h.name = "h" + std::to_string(i);
      double u = r.unit();
      h.kind = i == 0 ? "system" : u < 0.6 ? "system" : u < 0.82 ? "actuator" : "sensor";
      h.plugin = h.kind == "system" ? "sim/System" : h.kind == "actuator" ? "sim/Actuator" : "sim/Sensor";
      if (groups && yes(0.75)) h.group = yes(0.75) ? "g0" : "g1";
      if (yes(k.hw_rate)) h.rw_rate = static_cast<int>(pick(vector<int>{10, 20, 25, 33, 50, 70, 100}));
      h.is_async = yes(k.async_hw);
      if (h.rw_rate >= p.update_rate) h.rw_rate = yes(0.5) ? p.update_rate : 0;
      if (yes(k.hw_initial)) h.initial = yes(0.5) ? "inactive" : "unconfigured";
      int nj = h.kind == "system" ? static_cast<int>(in(1, 2)) : 1;
      for (int j = 0; j < nj; ++j) {
        JointPlan jp;
        jp.name = h.name + "j" + std::to_string(j);
        bool limited = yes(k.limits);
        if (h.kind != "sensor") {
          jp.cmd.push_back({"position", "", "", "double", true});
          if (yes(0.6)) jp.cmd.push_back({"velocity", "", "", "double", true});
          if (yes(0.2)) jp.cmd.push_back({"effort", "", "", "double", true});
          if (k.limits >= 1 && yes(0.2)) jp.cmd.push_back({"acceleration", "", "", "double", true});
        }
        jp.state = {"position", "velocity"};
        if (k.limits >= 1 && yes(0.15)) jp.state = {"position"};
        if (k.limits >= 1 && yes(0.1)) jp.state = {"velocity"};
        if (h.kind == "sensor") jp.state = {"fx", "fy"};
        if (limited && h.kind != "sensor") limits(jp);
        h.joints.push_back(jp);
      }
      if (h.kind == "system" && (special || yes(0.15))) {
        JointPlan g;
        g.name = h.name + "io";
        g.gpio = true;
        g.cmd.push_back({"dout", "", "", "double", true});
        g.state = {"din"};
        h.joints.push_back(g);
      }
      p.hw.push_back(h);
    }
  }
  void limits(JointPlan & j)
  {
    j.has_limit = true;
    j.continuous = yes(0.12);
    j.lower = -0.2 - r.unit() * 3;
    j.upper = 0.2 + r.unit() * 3;
    j.velocity = yes(0.1) ? 0.05 : 0.2 + r.unit() * 5;
    j.effort = yes(0.1) ? 0.5 : 1 + r.unit() * 50;
    if (!j.continuous && yes(0.35)) {
      j.has_soft = true;
      j.soft_lower = j.lower * (0.5 + 0.45 * r.unit());
      j.soft_upper = j.upper * (0.5 + 0.45 * r.unit());
      j.k_pos = 1 + r.unit() * 30;
      j.k_vel = 1 + r.unit() * 30;
    }
    if (yes(0.1)) j.limits_enable = false;
    for (auto & c : j.cmd) {
      if (yes(0.1)) c.enable = false;
      if (yes(0.25)) {
        double m = 0.1 + r.unit() * 4;
        char b[32];
        snprintf(b, sizeof b, "%.4f", -m);
        c.min = b;
        snprintf(b, sizeof b, "%.4f", m * (0.3 + r.unit()));
        c.max = b;
      }
    }
  }
  vector<string> all_cmd() { vector<string> v; for (auto & h : p.hw) for (auto & j : h.joints) for (auto & c : j.cmd) v.push_back(j.name + "/" + c.name); return v; }
  vector<string> all_state() { vector<string> v; for (auto & h : p.hw) for (auto & j : h.joints) for (auto & c : j.state) v.push_back(j.name + "/" + c); return v; }

  void controllers()
  {
    int n = static_cast<int>(in(2, k.max_ctrl));
    auto cmds = all_cmd(), sts = all_state();
    bool chains = yes(k.chain), fall = yes(k.fallback), rates = yes(std::min(1.0, k.ctrl_rate * 1.2)), asy = yes(std::min(1.0, k.async_ctrl * 2));
    bool special = yes(k.special_if);
    vector<int> order;
    for (int i = 0; i < n; ++i) {
      CtrlPlan c;
      c.name = "c" + std::to_string(i);
      c.type = "sim/Controller";
      c.wave = k.limits >= 1 ? static_cast<int>(in(0, 6)) : static_cast<int>(in(0, 2));
      vector<int> up;  // chainable controllers that exist already
      for (int j = 0; j < i; ++j) if (p.ctrl[static_cast<size_t>(j)].chainable) up.push_back(j);
      if (chains && yes(0.55)) {
        c.chainable = true;
        c.type = "sim/Chainable";
        c.nref = static_cast<int>(in(0, 10) == 0 ? 0 : in(1, 3));
        c.nstate = yes(0.4) ? static_cast<int>(in(1, 2)) : 0;
      }
      std::set<string> cm, st;
      bool linked = false;
      if (!up.empty() && yes(0.7)) {
        auto & f = p.ctrl[static_cast<size_t>(pick(up))];
        linked = true;
        const bool viewer = f.nstate && yes(0.3);  // uses only the exported states
        if (viewer) { st.insert(f.name + "/est0"); linked = yes(0.5); }
        else if (f.nref) { int m = static_cast<int>(in(1, f.nref)); for (int q = 0; q < m; ++q) cm.insert(f.name + "/ref" + std::to_string(yes(0.7) ? q : in(0, f.nref - 1))); }
        if (f.nstate && yes(0.6)) st.insert(f.name + "/est" + std::to_string(in(0, f.nstate - 1)));
        if (yes(0.2)) { auto & g = p.ctrl[static_cast<size_t>(pick(up))]; if (g.nref) cm.insert(g.name + "/ref0"); }
      }
      if (!cmds.empty() && (!linked || yes(0.2))) {
        int m = static_cast<int>(in(0, 9) == 0 ? 0 : in(1, std::min<int64_t>(3, static_cast<int64_t>(cmds.size()))));
        for (int q = 0; q < m; ++q) cm.insert(pick(cmds));
      }
      if (!sts.empty()) { int m = static_cast<int>(in(0, 2)); for (int q = 0; q < m; ++q) st.insert(pick(sts)); }
      if (yes(0.02)) cm.insert("nope/position");
      c.cmd.assign(cm.begin(), cm.end());
      c.state.assign(st.begin(), st.end());
      for (size_t q = c.cmd.size(); q > 1; --q) std::swap(c.cmd[q - 1], c.cmd[r.below(q)]);
      if (special && !c.chainable && yes(0.2)) { c.cmd_type = pick(vector<string>{"best", "regex", "all", "none"}); if (c.cmd_type == "regex") c.cmd = {"h0j0/.*"}; if (c.cmd_type == "none" || c.cmd_type == "all") c.cmd.clear(); }
      if (rates && yes(0.6)) c.rate = static_cast<int>(pick(vector<int64_t>{p.update_rate, p.update_rate / 2, p.update_rate / 4, p.update_rate / 5, p.update_rate / 10, p.update_rate * 3 / 10, p.update_rate * 7 / 10, p.update_rate * 9 / 10, p.update_rate + 10, 1}));
      if (asy && yes(0.5)) c.is_async = true;
      if (yes(k.bad_type * 0.3)) c.type = yes(0.5) ? "sim/Nope" : "sim/ThrowingCtor";
      p.ctrl.push_back(c);
      if (c.chainable && yes(k.bad_export)) p.extra["badexport." + c.name] = yes(0.5) ? "prefix" : "dup";
      if (c.chainable && c.nref < 2 && p.extra.count("badexport." + c.name)) { if (p.extra["badexport." + c.name] == "dup") p.extra["badexport." + c.name] = "prefix"; if (c.nref == 0) p.extra.erase("badexport." + c.name); }
      if (yes(k.errfail)) p.extra["errfail." + c.name] = "1";
    }
    for (auto & h : p.hw) if (yes(k.errfail)) p.extra["errfail." + h.name] = "1";
    if (fall)
      for (auto & c : p.ctrl) {
        if (!yes(0.5)) continue;
        vector<string> cand;
        for (auto & d : p.ctrl) if (d.name != c.name && (yes(0.15) || !d.chainable)) cand.push_back(d.name);
        if (cand.empty()) continue;
        c.fallbacks.push_back(pick(cand));
        if (yes(0.25)) { string x = pick(cand); if (x != c.fallbacks[0]) c.fallbacks.push_back(x); }
        if (yes(0.01)) c.fallbacks = {c.name};
      }
  }
  // ---- workload, guided by a rough prediction of the states
  std::set<string> loaded, conf, act;
  const CtrlPlan & C(const string & n) { return *p.ctrl_of(n); }
  string owner(const string & i)
  {
    auto s = i.find('/');
    string pre = i.substr(0, s);
    for (auto & c : p.ctrl) if (c.name == pre) return c.name;
    return "";
  }
  void need(const string & n, std::set<string> & A)
  {
    A.insert(n);
    for (auto * l : {&C(n).cmd, &C(n).state})
      for (auto & i : *l) { string o = owner(i); if (!o.empty() && !A.count(o) && !act.count(o)) need(o, A); }
  }
  void users(const string & n, std::set<string> & B)
  {
    B.insert(n);
    for (auto & c : p.ctrl)
      if (act.count(c.name) && !B.count(c.name))
        for (auto * l : {&c.cmd, &c.state})
          for (auto & i : *l) if (owner(i) == n) { users(c.name, B); break; }
  }
  OpPlan make_switch()
  {
    OpPlan o;
    o.op = "switch";
    std::set<string> A, B;
    vector<string> av;
    for (auto & c : p.ctrl) if (conf.count(c.name) && !act.count(c.name)) av.push_back(c.name);
    vector<string> ac(act.begin(), act.end());
    vector<string> any;
    for (auto & c : p.ctrl) any.push_back(c.name);
    bool nice = yes(0.72);
    bool start = ac.empty() || (!av.empty() && yes(0.6));
    if (nice) {
      if (start && !av.empty()) {
        int m = yes(0.3) ? 2 : 1;
        for (int i = 0; i < m; ++i) need(pick(av), A);
        for (auto & x : vector<string>(A.begin(), A.end()))
          for (auto & i : C(x).cmd)
            for (auto & y : ac)
              if (std::count(C(y).cmd.begin(), C(y).cmd.end(), i) && !A.count(y)) users(y, B);
        if (yes(0.15) && !ac.empty()) users(pick(ac), B);
      } else if (!ac.empty()) {
        if (yes(0.1)) B.insert(pick(ac));  // without the controllers using it
        else users(pick(ac), B);
        if (yes(0.3)) users(pick(ac), B);
        if (!av.empty() && yes(0.3)) need(pick(av), A);
        if (yes(0.1)) A.insert(*B.begin());  // restart
      }
      for (auto & b : vector<string>(B.begin(), B.end())) if (A.count(b) && !yes(0.3)) B.erase(b);
    } else {
      int na = static_cast<int>(in(0, 3)), nb = static_cast<int>(in(0, 2));
      for (int i = 0; i < na; ++i) A.insert(pick(any));
      for (int i = 0; i < nb; ++i) B.insert(!ac.empty() && yes(0.7) ? pick(ac) : pick(any));
    }
    o.a.assign(A.begin(), A.end());
    o.b.assign(B.begin(), B.end());
    for (auto * v : {&o.a, &o.b}) for (size_t q = v->size(); q > 1; --q) std::swap((*v)[q - 1], (*v)[r.below(q)]);
    if (yes(k.unknown_names)) (yes(0.6) ? o.a : o.b).push_back(yes(0.5) ? "ghost" : "c99");
    if (yes(0.02) && !o.a.empty()) o.a.push_back(o.a[0]);
    bool strict = yes(k.strict);
    o.strict = strict ? 2 : (yes(0.8) ? 1 : static_cast<int>(in(3, 4)));
    if (yes(0.08)) o.strict = 0;
    o.asap = !yes(k.non_asap);
    o.timeout = yes(k.timeouts) ? in(1, 40) * MS : yes(0.5) ? 0 : in(1, 5) * 1000 * MS;
    for (auto & b : B) act.erase(b);
    bool okish = nice;
    if (okish) for (auto & a : A) if (conf.count(a)) act.insert(a);
    return o;
  }
  void workload()
  {
    int nops = static_cast<int>(in(k.min_ops, k.max_ops));
    bool multi = yes(k.multi_client), dense = yes(k.dense);
    int clients = multi ? static_cast<int>(in(2, 3)) : 1;
    vector<string> names;
    for (auto & c : p.ctrl) names.push_back(c.name);
    for (size_t q = names.size(); q > 1; --q) std::swap(names[q - 1], names[r.below(q)]);
    int64_t per = 1000000000ll / p.update_rate;
    auto push = [&](OpPlan o) {
      o.client = static_cast<int>(r.below(static_cast<uint64_t>(clients)));
      o.delay = dense ? (yes(0.5) ? 0 : in(0, 3 * per)) : (yes(0.25) ? 0 : in(0, 20 * per));
      p.ops.push_back(o);
    };
    auto simple = [&](const string & op, const string & s) { OpPlan o; o.op = op; o.str = s; return o; };
    // bring-up, by client 0 so that the rest has something to work with
    vector<string> later;
    for (auto & n : names) {
      if (yes(0.12)) { later.push_back(n); continue; }
      OpPlan o = simple("load", n);
      p.ops.push_back(o);
      loaded.insert(n);
    }
    for (auto & n : names)
      if (loaded.count(n) && !yes(0.08)) { p.ops.push_back(simple("configure", n)); conf.insert(n); }
    if (multi) for (int c = 1; c < clients; ++c) { OpPlan o; o.op = "settle"; o.client = c; o.num = in(0, 40) * MS; p.ops.push_back(o); }
    std::set<string> unk(names.begin(), names.end());
    struct W { double w; std::function<void()> f; };
    vector<W> ws = {
      {k.w_switch, [&]() { push(make_switch()); }},
      {k.w_load, [&]() { string n = yes(0.6) && !later.empty() ? pick(later) : pick(names); push(simple("load", yes(0.05) ? "ghost" : n)); loaded.insert(n); }},
      {k.w_conf, [&]() { string n = pick(names); push(simple("configure", yes(0.03) ? "ghost" : n)); if (loaded.count(n)) conf.insert(n); }},
      {k.w_clean, [&]() { string n = pick(names); push(simple("cleanup", yes(0.03) ? "ghost" : n)); if (!act.count(n)) { conf.erase(n); if (yes(0.6) && loaded.count(n)) { push(simple("configure", n)); conf.insert(n); } } }},
      {k.w_unload, [&]() { string n = pick(names); push(simple("unload", yes(0.03) ? "ghost" : n)); if (!act.count(n)) { conf.erase(n); loaded.erase(n); if (yes(0.6)) { push(simple("load", n)); loaded.insert(n); if (yes(0.8)) { push(simple("configure", n)); conf.insert(n); } } } }},
      {k.w_sethw, [&]() { OpPlan o = simple("sethw", p.hw[r.below(p.hw.size())].name); o.num = yes(0.4) ? 3 : yes(0.08) ? 4 : yes(0.03) ? in(5, 12) : in(1, 3); if (yes(0.02)) o.str = "ghosthw"; push(o); if (o.num != 3 && yes(0.6)) { o.num = 3; push(o); } }},
      {k.w_audit, [&]() { push(simple("audit", "")); }},
      {k.w_list, [&]() { push(simple(pick(vector<string>{"listc", "listh", "listi"}), "")); }},
      {k.w_types, [&]() { push(simple("types", "")); }},
      {k.w_reload, [&]() { OpPlan o = simple("reload", ""); o.num = in(0, 1); push(o); }},
      {k.w_jump, [&]() { OpPlan o = simple("jump", ""); o.num = in(-5000, 5000) * MS; push(o); }},
      {k.w_rate, [&]() { string n = pick(names); OpPlan o = simple("setrate", n); o.num = pick(vector<int64_t>{p.update_rate, p.update_rate / 2, p.update_rate / 3, p.update_rate / 5, p.update_rate * 7 / 10, p.update_rate * 2, 1}); push(o); if (yes(0.7)) { push(simple("cleanup", n)); push(simple("configure", n)); if (yes(0.6)) { OpPlan s2; s2.op = "switch"; s2.a = {n}; s2.strict = 1; push(s2); } } }},
      {k.w_revive, [&]() { OpPlan o = simple("revive", ""); o.num = in(0, 7); o.asap = !yes(k.non_asap); push(o); if (yes(0.7)) for (auto & c : p.ctrl) if (conf.count(c.name)) act.insert(c.name); }},
      {k.w_settle, [&]() { OpPlan o = simple("settle", ""); o.num = in(2, 60) * per; push(o); }},
    };
    double tot = 0;
    for (auto & w : ws) tot += w.w;
    for (int i = 0; i < nops; ++i) {
      double x = r.unit() * tot;
      for (auto & w : ws) { x -= w.w; if (x <= 0) { w.f(); break; } }
    }
  }
  void fault(const string & who, const string & cb, const string & eff, int nth, int count = 1, int64_t arg = 0)
  {
    FaultPlan f;
    f.who = who; f.cb = cb; f.eff = eff; f.nth = nth; f.count = count; f.arg = arg;
    p.faults.push_back(f);
  }
  void faults()
  {
    if (yes(k.f_none)) return;
    vector<string> cn, hn;
    for (auto & c : p.ctrl) cn.push_back(c.name);
    for (auto & h : p.hw) hn.push_back(h.name);
    auto some = [&](double pr, const std::function<void()> & f) { if (yes(pr)) { int n = static_cast<int>(yes(0.6) ? 1 : in(2, 3)); for (int i = 0; i < n; ++i) f(); } };
    auto nth = [&](int64_t m) { return static_cast<int>(yes(0.5) ? in(0, m / 8) : in(0, m)); };
    some(k.f_update, [&]() { fault(pick(cn), "update", yes(0.6) ? "error" : yes(0.85) ? "throw" : "throwint", nth(100), yes(0.85) ? 1 : 3); });
    some(k.f_hw_io, [&]() {
      string cb = yes(0.5) ? "read" : "write";
      string eff = yes(0.5) ? "error" : cb == "write" && yes(0.5) ? "deactivate" : yes(0.85) ? "throw" : "throwint";
      fault(pick(hn), cb, eff, nth(200), yes(0.85) ? 1 : static_cast<int>(in(2, 4)));
    });
    some(k.f_ctrl_lc, [&]() { fault(pick(cn), pick(vector<string>{"activate", "activate", "activate", "deactivate", "configure", "cleanup", "shutdown"}), pick(vector<string>{"failure", "error", "throw"}), static_cast<int>(in(0, 3)), yes(0.8) ? 1 : 2); });
    some(k.f_hw_lc, [&]() { fault(pick(hn), pick(vector<string>{"activate", "activate", "deactivate", "configure", "cleanup", "shutdown"}), pick(vector<string>{"failure", "error", "throw"}), static_cast<int>(in(0, 2)), yes(0.8) ? 1 : 2); });
    some(k.f_mode, [&]() { fault(pick(hn), yes(0.55) ? "prepare" : "perform", yes(0.75) ? "error" : yes(0.75) ? "throw" : "throwint", static_cast<int>(in(0, 6)), yes(0.8) ? 1 : 2); });
    some(k.f_init, [&]() { if (yes(0.6)) fault(pick(cn), "init", pick(vector<string>{"failure", "error", "throw"}), static_cast<int>(in(0, 2))); else fault(pick(hn), "init", pick(vector<string>{"failure", "error", "throw"}), 0); });
    some(k.f_chained, [&]() { fault(pick(cn), "chained", "error", static_cast<int>(in(0, 3))); });
    int64_t per = 1000000000ll / p.update_rate;
    some(k.f_slow, [&]() {
      bool c = yes(0.5);
      if (k.many_slow) {
        int64_t d = yes(0.5) ? per / 2 + in(0, per) : in(per, 12 * per);
        fault(c ? pick(cn) : pick(hn), c ? "update" : yes(0.5) ? "read" : "write", "slow", nth(100), static_cast<int>(in(1, 6)), d);
        return;
      }
      string cb = c ? pick(vector<string>{"update", "update", "activate", "deactivate", "configure", "cleanup", "init"}) : pick(vector<string>{"read", "write", "activate", "deactivate", "prepare", "perform", "configure"});
      fault(c ? pick(cn) : pick(hn), cb, "slow", cb == "update" || cb == "read" || cb == "write" ? nth(100) : static_cast<int>(in(0, 3)), static_cast<int>(in(1, 3)), yes(0.7) ? in(per / 10, 4 * per) : in(5 * per, 60 * per));
    });
  }
  void env()
  {
    p.update_rate = static_cast<int>(pick(vector<int>{100, 100, 100, 50, 200, 500, 30}));
    p.enforce_limits = k.limits >= 1 ? yes(0.85) : yes(0.4);
    p.allow_inactive_hw = yes(k.allow_inactive);
    p.deact_on_self = !yes(k.deact_self_off);
    p.default_strictness = yes(0.7) ? "strict" : "best_effort";
    p.handle_exceptions = !yes(k.no_handle);
    p.manage_overruns = yes(0.7);
    p.exec_threads = static_cast<int>(in(2, 5));
    p.introspect = yes(k.introspect);
    p.shutdown_on_init_failure = k.desc_bad > 0 && yes(0.1);
    if (yes(k.desc_late)) p.desc_at = in(1, 400) * MS;
    // schedule
    auto & s = p.sched;
    s.policy = yes(0.5) ? simrt::SchedPolicy::Random : yes(0.6) ? simrt::SchedPolicy::Sticky : simrt::SchedPolicy::Pct;
    s.preempt_mean = yes(k.preempt) ? pick(vector<uint64_t>{3000, 1000, 300, 100, 40}) : 0;
    s.sync_switch_prob = pick(vector<double>{0.05, 0.2, 0.5, 0.8});
    s.pct_changes = static_cast<int>(in(1, 6));
    s.pct_horizon = static_cast<uint64_t>(in(2000, 200000));
    s.spurious_wake_prob = yes(k.spurious) ? 0.05 : 0;
    s.wake_latency_max_ns = yes(k.jitter) ? static_cast<uint64_t>(in(1, 1500)) * 1000 : 0;
    s.sync_cost_ns = yes(0.7) ? 500 : pick(vector<uint64_t>{50, 5000, 20000});
    s.max_time_ns = 900ll * 1000000000ll;
  }
  void special(const string & prof)
  {
    if (yes(k.shutdown_at)) {
      int64_t per = 1000000000ll / p.update_rate;
      p.shutdown_at = yes(0.3) ? in(0, 200) * MS : in(100 * MS, 2500 * MS);
      if (yes(0.2)) p.shutdown_at = in(0, 40) * per / 10;
    }
    if (yes(k.desc_bad)) {
      int n = static_cast<int>(in(1, 4));
      bool badfirst = yes(0.5);
      for (int i = 0; i < n; ++i) {
        OpPlan o;
        o.op = "desc";
        o.client = 100 + static_cast<int>(r.below(2));
        o.delay = in(0, 300) * MS;
        o.str = pick(vector<string>{"empty", "garbage", "text", "truncated", "noplugin", "noplugin_last", "limits_noplugin", "badtype", "good", "other", "badrate", "duphw", "duphw2"});
        if (badfirst) { o.delay = in(0, 60) * MS; if (o.str == "good" || o.str == "other") o.str = "limits_noplugin"; }
        p.ops.push_back(o);
      }
      if (badfirst) p.desc_at = in(80, 500) * MS;
      if (yes(0.3)) { OpPlan o; o.op = "desc"; o.client = 0; o.delay = in(0, 300) * MS; o.str = yes(0.5) ? "good" : "other"; p.ops.push_back(o); }
    }
    if (yes(k.sim_time)) {
      p.use_sim_time = true;
      p.sim_step = pick(vector<int64_t>{1, 2, 5, 10, 33}) * MS;
      p.extra["clockreal"] = std::to_string(yes(0.5) ? p.sim_step : pick(vector<int64_t>{1, 3, 20}) * MS);
      if (yes(0.6)) p.extra["clockpause.0"] = std::to_string(in(500, 2500) * MS) + ":" + std::to_string(in(100, 2500) * MS) + ":" + std::to_string(yes(0.6) ? 0 : in(0, 2000) * MS);
    }
    if (prof == "C13") {
      for (auto & h : p.hw)
        for (auto & j : h.joints) {
          if (j.gpio || h.kind == "sensor") continue;
          for (auto & st : j.state) {
            if (!yes(0.15)) continue;
            double x = j.has_limit && !j.continuous ? (yes(0.5) ? j.upper : j.lower) : 1.0;
            double off = pick(vector<double>{0.0, 0.0005, 0.001, 0.0019, 0.0025, 0.005, 0.0085, 0.0095, 0.3, -0.3, -0.001});
            if (j.has_limit && x == j.lower) off = -off;
            double val = st == "position" ? x + off : (r.unit() * 2 - 1) * j.velocity * pick(vector<double>{0.1, 1.0, 1.5, 4.0});
            char b[100];
            int64_t from = yes(0.3) ? 0 : in(1, 200);
            snprintf(b, sizeof b, "%.17g:%lld:%lld", val, static_cast<long long>(from), static_cast<long long>(from + in(1, 150)));
            p.extra["stateoff." + j.name + "/" + st] = b;
          }
        }
      if (yes(0.25)) fault(p.hw[r.below(p.hw.size())].name, "read", "nanstate", yes(0.5) ? 0 : static_cast<int>(in(0, 100)), static_cast<int>(in(1, 60)));
    }
    if (prof == "C11") p.sched.sync_cost_ns = 50;
    if (prof == "C18") {
      p.expect_blocking = !p.use_sim_time && yes(0.25);
      if (p.expect_blocking) p.min_cycle = pick(vector<double>{0.0001, 0.001, 0.003});
      if (yes(0.5)) p.sched.wake_latency_max_ns = 0;
      p.sched.sync_cost_ns = 50;
    }
  }
};
}  // namespace

void generate_handles(Plan & p, simrt::Rng & r);
void generate_mock(Plan & p, simrt::Rng & r);
Plan generate(const string & profile, uint64_t seed)
{
  Gen g;
  uint64_t h = 1469598103934665603ull;
  for (char c : profile) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  g.r.seed(h ^ (seed * 0x9E3779B97F4A7C15ull));
  g.k = knobs(profile);
  g.p.profile = profile;
  g.p.seed = seed;
  g.p.sched_seed = g.r.next() >> 1;
  g.p.work_seed = g.r.next() >> 1;
  g.env();
  if (profile == "C21") { generate_mock(g.p, g.r); return g.p; }
  if (profile == "C15") { generate_handles(g.p, g.r); return g.p; }
  g.hardware();
  g.controllers();
  g.workload();
  g.faults();
  g.special(profile);
  if (profile == "C26") {
    static const char * const T[] = {"controller_manager.periodicity", "controllers.periodicity", "controllers.execution_time", "hardware_components.periodicity", "hardware_components.execution_time"};
    char b[32];
    std::snprintf(b, sizeof b, "%.4f", static_cast<double>(g.in(5, 400)) / 1000.0);
    g.p.extra["diagperiod"] = b;
    for (auto t : T)
      for (auto m : {".mean_error", ".standard_deviation"})
        if (g.yes(0.25)) {
          bool ex = string(t).find("execution") != string::npos;
          double w = static_cast<double>(g.in(1, 1000)) * (ex ? 10 : 0.05);
          std::snprintf(b, sizeof b, "%.3f", w);
          g.p.extra[string("thr.") + t + m + ".warn"] = b;
          std::snprintf(b, sizeof b, "%.3f", w * (1 + static_cast<double>(g.in(0, 30)) / 10));
          g.p.extra[string("thr.") + t + m + ".error"] = b;
        }
  }
  return g.p;
}
