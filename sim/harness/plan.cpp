#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <stdexcept>

using std::string;
namespace
{
string q(const string & s)
{
  string r;
  for (unsigned char c : s) {
    if (c <= ' ' || c == '%' || c == ',') { char b[4]; snprintf(b, sizeof b, "%%%02X", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r.empty() ? "%00" : r;
}
string uq(const string & s)
{
  if (s == "%00") return "";
  string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) { r += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
    else r += s[i];
  }
  return r;
}
string lst(const std::vector<string> & v)
{
  if (v.empty()) return "-";
  string r;
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + q(v[i]);
  return r;
}
std::vector<string> ulst(const string & s)
{
  std::vector<string> r;
  if (s == "-") return r;
  size_t p = 0;
  for (;;) {
    size_t c = s.find(',', p);
    r.push_back(uq(s.substr(p, c == string::npos ? c : c - p)));
    if (c == string::npos) break;
    p = c + 1;
  }
  return r;
}
string dbl(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
}  // namespace

string Plan::text() const
{
  std::ostringstream o;
  o << "profile " << profile << "\nseed " << seed << "\nsched_seed " << sched_seed << "\nwork_seed " << work_seed << "\n";
  o << "sched " << static_cast<int>(sched.policy) << " " << sched.preempt_mean << " " << dbl(sched.sync_switch_prob) << " " << sched.sync_cost_ns << " " << sched.pct_changes << " " << sched.pct_horizon << " " << dbl(sched.spurious_wake_prob) << " " << sched.wake_latency_max_ns << " " << sched.max_steps << " " << sched.max_time_ns << "\n";
  o << "cm " << update_rate << " " << enforce_limits << " " << handle_exceptions << " " << allow_inactive_hw << " " << deact_on_self << " " << default_strictness << " " << manage_overruns << " " << use_sim_time << " " << expect_blocking << " " << shutdown_on_init_failure << " " << dbl(min_cycle) << " " << exec_threads << " " << introspect << " " << desc_at << " " << run_ns << " " << sim_step << " " << final_audit << " " << shutdown_at << "\n";
  for (auto & h : hw) {
    o << "hw " << q(h.name) << " " << h.kind << " " << q(h.plugin) << " " << q(h.group) << " " << h.rw_rate << " " << h.is_async << " " << h.initial << " " << h.own_modes << "\n";
    for (auto & j : h.joints) {
      o << "joint " << q(j.name) << " " << j.gpio << " " << j.has_limit << " " << dbl(j.lower) << " " << dbl(j.upper) << " " << dbl(j.velocity) << " " << dbl(j.effort) << " " << j.has_soft << " " << dbl(j.soft_lower) << " " << dbl(j.soft_upper) << " " << dbl(j.k_pos) << " " << dbl(j.k_vel) << " " << dbl(j.accel) << " " << j.continuous << " " << j.limits_enable << " " << lst(j.state) << "\n";
      for (auto & i : j.cmd) o << "cif " << q(i.name) << " " << q(i.min) << " " << q(i.max) << " " << q(i.type) << " " << i.enable << "\n";
    }
  }
  for (auto & c : ctrl)
    o << "ctrl " << q(c.name) << " " << c.chainable << " " << c.nref << " " << c.nstate << " " << lst(c.cmd) << " " << lst(c.state) << " " << c.cmd_type << " " << c.state_type << " " << c.rate << " " << c.is_async << " " << lst(c.fallbacks) << " " << q(c.type) << " " << c.wave << "\n";
  for (auto & f : faults) o << "fault " << q(f.who) << " " << f.cb << " " << f.eff << " " << f.nth << " " << f.count << " " << f.arg << "\n";
  for (auto & p : ops) o << "op " << p.client << " " << p.delay << " " << p.op << " " << lst(p.a) << " " << lst(p.b) << " " << p.strict << " " << p.asap << " " << p.timeout << " " << p.num << " " << q(p.str) << "\n";
  for (auto & e : extra) o << "extra " << q(e.first) << " " << q(e.second) << "\n";
  if (has_devs) {
    o << "devs " << devs.size() << "\n";
    for (auto & d : devs) o << "d " << d.point << " " << d.target << "\n";
  }
  return o.str();
}
Plan Plan::parse(const string & s)
{
  Plan p;
  std::istringstream in(s);
  string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    string k, t, u, v, w;
    l >> k;
    if (k == "profile") l >> p.profile;
    else if (k == "seed") l >> p.seed;
    else if (k == "sched_seed") l >> p.sched_seed;
    else if (k == "work_seed") l >> p.work_seed;
    else if (k == "sched") {
      int pol;
      l >> pol >> p.sched.preempt_mean >> p.sched.sync_switch_prob >> p.sched.sync_cost_ns >> p.sched.pct_changes >> p.sched.pct_horizon >> p.sched.spurious_wake_prob >> p.sched.wake_latency_max_ns >> p.sched.max_steps >> p.sched.max_time_ns;
      p.sched.policy = static_cast<simrt::SchedPolicy>(pol);
    } else if (k == "cm") {
      l >> p.update_rate >> p.enforce_limits >> p.handle_exceptions >> p.allow_inactive_hw >> p.deact_on_self >> p.default_strictness >> p.manage_overruns >> p.use_sim_time >> p.expect_blocking >> p.shutdown_on_init_failure >> p.min_cycle >> p.exec_threads >> p.introspect >> p.desc_at >> p.run_ns >> p.sim_step >> p.final_audit >> p.shutdown_at;
    } else if (k == "hw") {
      HwPlan h;
      l >> t >> h.kind >> u >> v >> h.rw_rate >> h.is_async >> h.initial >> h.own_modes;
      h.name = uq(t); h.plugin = uq(u); h.group = uq(v);
      p.hw.push_back(h);
    } else if (k == "joint") {
      JointPlan j;
      l >> t >> j.gpio >> j.has_limit >> j.lower >> j.upper >> j.velocity >> j.effort >> j.has_soft >> j.soft_lower >> j.soft_upper >> j.k_pos >> j.k_vel >> j.accel >> j.continuous >> j.limits_enable >> u;
      j.name = uq(t); j.state = ulst(u);
      p.hw.back().joints.push_back(j);
    } else if (k == "cif") {
      IfPlan i;
      l >> t >> u >> v >> w >> i.enable;
      i.name = uq(t); i.min = uq(u); i.max = uq(v); i.type = uq(w);
      p.hw.back().joints.back().cmd.push_back(i);
    } else if (k == "ctrl") {
      CtrlPlan c;
      string a, b, f, ty;
      l >> t >> c.chainable >> c.nref >> c.nstate >> a >> b >> c.cmd_type >> c.state_type >> c.rate >> c.is_async >> f >> ty >> c.wave;
      c.name = uq(t); c.cmd = ulst(a); c.state = ulst(b); c.fallbacks = ulst(f); c.type = uq(ty);
      p.ctrl.push_back(c);
    } else if (k == "fault") {
      FaultPlan f;
      l >> t >> f.cb >> f.eff >> f.nth >> f.count >> f.arg;
      f.who = uq(t);
      p.faults.push_back(f);
    } else if (k == "op") {
      OpPlan o;
      l >> o.client >> o.delay >> o.op >> t >> u >> o.strict >> o.asap >> o.timeout >> o.num >> v;
      o.a = ulst(t); o.b = ulst(u); o.str = uq(v);
      p.ops.push_back(o);
    } else if (k == "extra") {
      l >> t >> u;
      p.extra[uq(t)] = uq(u);
    } else if (k == "devs") {
      p.has_devs = true;
    } else if (k == "d") {
      simrt::Deviation d;
      l >> d.point >> d.target;
      p.devs.push_back(d);
    } else if (k == "end") break;
  }
  return p;
}
CtrlPlan * Plan::ctrl_of(const string & n) { for (auto & c : ctrl) if (c.name == n) return &c; return nullptr; }
HwPlan * Plan::hw_of(const string & n) { for (auto & c : hw) if (c.name == n) return &c; return nullptr; }

string make_urdf(const Plan & p)
{
  std::ostringstream o;
  o << "<?xml version=\"1.0\"?>\n<robot name=\"sim\">\n<link name=\"world\"/>\n";
  for (auto & h : p.hw)
    for (auto & j : h.joints) {
      if (j.gpio || h.kind == "sensor") continue;
      o << "<link name=\"" << j.name << "_link\"/>\n<joint name=\"" << j.name << "\" type=\"" << (j.continuous ? "continuous" : "revolute") << "\"><parent link=\"world\"/><child link=\"" << j.name << "_link\"/><axis xyz=\"0 0 1\"/>";
      if (j.has_limit) {
        if (j.continuous) o << "<limit velocity=\"" << dbl(j.velocity) << "\" effort=\"" << dbl(j.effort) << "\"/>";
        else o << "<limit lower=\"" << dbl(j.lower) << "\" upper=\"" << dbl(j.upper) << "\" velocity=\"" << dbl(j.velocity) << "\" effort=\"" << dbl(j.effort) << "\"/>";
      } else if (!j.continuous) {
        o << "<limit lower=\"-1e9\" upper=\"1e9\" velocity=\"1e9\" effort=\"1e9\"/>";
      }
      if (j.has_soft) o << "<safety_controller soft_lower_limit=\"" << dbl(j.soft_lower) << "\" soft_upper_limit=\"" << dbl(j.soft_upper) << "\" k_position=\"" << dbl(j.k_pos) << "\" k_velocity=\"" << dbl(j.k_vel) << "\"/>";
      o << "</joint>\n";
    }
  for (auto & h : p.hw) {
    o << "<ros2_control name=\"" << h.name << "\" type=\"" << h.kind << "\"";
    if (h.rw_rate) o << " rw_rate=\"" << h.rw_rate << "\"";
    if (h.is_async) o << " is_async=\"true\"";
    o << ">\n<hardware><plugin>" << h.plugin << "</plugin>";
    if (!h.group.empty()) o << "<group>" << h.group << "</group>";
    for (auto & e : p.extra)
      if (e.first.rfind("hwparam." + h.name + ".", 0) == 0) o << "<param name=\"" << e.first.substr(9 + h.name.size()) << "\">" << e.second << "</param>";
    o << "</hardware>\n";
    for (auto & j : h.joints) {
      const char * tag = j.gpio ? "gpio" : h.kind == "sensor" ? "sensor" : "joint";
      o << "<" << tag << " name=\"" << j.name << "\">";
      auto mi = p.extra.find("mimic." + j.name);
      (void)mi;
      if (!j.limits_enable) o << "<limits enable=\"false\"/>";
      for (auto & c : j.cmd) {
        o << "<command_interface name=\"" << c.name << "\"" << (c.type != "double" ? " data_type=\"" + c.type + "\"" : "") << ">";
        if (!c.enable) o << "<limits enable=\"false\"/>";
        if (!c.min.empty()) o << "<param name=\"min\">" << c.min << "</param>";
        if (!c.max.empty()) o << "<param name=\"max\">" << c.max << "</param>";
        o << "</command_interface>";
      }
      for (auto & s : j.state) {
        o << "<state_interface name=\"" << s << "\">";
        auto iv = p.extra.find("init." + j.name + "/" + s);
        if (iv != p.extra.end()) o << "<param name=\"initial_value\">" << iv->second << "</param>";
        o << "</state_interface>";
      }
      o << "</" << tag << ">\n";
    }
    o << "</ros2_control>\n";
  }
  o << "</robot>\n";
  return o.str();
}
