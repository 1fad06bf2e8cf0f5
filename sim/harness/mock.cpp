// C21: the mock hardware (mock_components/GenericSystem) below the real resource manager, against a reference model.
// A control loop reads and writes with varying periods and commands arbitrary values while another thread switches
// command modes and changes the state of the component.
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "mock_components/generic_system.hpp"
#include "pluginlib/class_loader.hpp"
#include "rclcpp/rclcpp.hpp"
#include "world.hpp"
#include <cmath>
#include <cstring>
#include <sstream>
using simrt::NoPreempt;
using std::string;
using std::vector;
using hardware_interface::return_type;
namespace
{
struct Itf { string name; bool boolean = false; string initial; };
struct Comp { string kind, name, mimic; double mult = 1, off = 0; vector<Itf> cmd, state; };
struct Model
{
  vector<Comp> comps;
  bool dynamics = false, disabled = false, mock_sensor = false, mock_gpio = false;
  double offset = 0;
  string custom;
  std::map<string, bool> types;           // state interfaces: boolean?
  std::map<string, double> state;         // expected values
  std::map<string, bool> ctypes;          // command interfaces
  std::map<string, double> client;        // last commanded by the control loop
  std::map<string, int> mode;             // joints
  bool configured = false, broken = false, is_async = false, activated = false;
  int in_call = 0, changes = 0;           // running reads, changes of the modes
};
Model * m = nullptr;
const char * const STD[] = {"position", "velocity", "acceleration"};
bool same(double a, double b)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b || std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
}
vector<string> split(const string & s, char c)
{
  vector<string> r;
  size_t p = 0;
  for (;;) {
    size_t q = s.find(c, p);
    r.push_back(s.substr(p, q == string::npos ? q : q - p));
    if (q == string::npos) break;
    p = q + 1;
  }
  return r;
}
vector<Itf> itfs(const string & s)
{
  vector<Itf> r;
  if (s.empty() || s == "-") return r;
  for (auto & x : split(s, ',')) {
    Itf i;
    auto eq = split(x, '=');
    if (eq.size() > 1) i.initial = eq[1];
    auto ty = split(eq[0], ':');
    i.name = ty[0];
    i.boolean = ty.size() > 1 && ty[1] == "bool";
    r.push_back(i);
  }
  return r;
}
vector<Comp> components(const Plan & p)
{
  vector<Comp> r;
  for (int i = 0; i < 12; ++i) {
    auto it = p.extra.find("comp." + std::to_string(i));
    if (it == p.extra.end()) continue;
    auto f = split(it->second, '|');
    if (f.size() < 5) continue;
    Comp c;
    c.kind = f[0];
    c.name = f[1];
    c.cmd = itfs(f[2]);
    c.state = itfs(f[3]);
    auto mi = split(f[4], ';');
    if (mi.size() == 3) { c.mimic = mi[0]; c.mult = atof(mi[1].c_str()); c.off = atof(mi[2].c_str()); }
    r.push_back(c);
  }
  return r;
}
string urdf(const Plan & p, const vector<Comp> & cs)
{
  std::ostringstream o;
  o.precision(17);
  o << "<?xml version=\"1.0\"?>\n<robot name=\"sim\">\n<link name=\"world\"/>\n";
  for (auto & c : cs)
    if (c.kind == "joint") {
      o << "<link name=\"" << c.name << "_link\"/>\n<joint name=\"" << c.name << "\" type=\"continuous\"><parent link=\"world\"/><child link=\"" << c.name << "_link\"/><axis xyz=\"0 0 1\"/>";
      if (!c.mimic.empty()) o << "<mimic joint=\"" << c.mimic << "\" multiplier=\"" << c.mult << "\" offset=\"" << c.off << "\"/>";
      o << "</joint>\n";
    }
  o << "<ros2_control name=\"mock\" type=\"system\"";
  if (p.extra.count("async")) o << " is_async=\"true\"";
  if (p.extra.count("rw_rate")) o << " rw_rate=\"" << p.extra.at("rw_rate") << "\"";
  o << ">\n<hardware><plugin>sim/MockSystem</plugin>";
  for (auto & e : p.extra) if (e.first.rfind("param.", 0) == 0) o << "<param name=\"" << e.first.substr(6) << "\">" << (e.second == "-" ? "" : e.second) << "</param>";
  o << "</hardware>\n";
  for (auto & c : cs) {
    o << "<" << c.kind << " name=\"" << c.name << "\">";
    for (auto & i : c.cmd) o << "<command_interface name=\"" << i.name << "\"" << (i.boolean ? " data_type=\"bool\"" : "") << "/>";
    for (auto & i : c.state) {
      o << "<state_interface name=\"" << i.name << "\"" << (i.boolean ? " data_type=\"bool\"" : "") << ">";
      if (!i.initial.empty()) o << "<param name=\"initial_value\">" << i.initial << "</param>";
      o << "</state_interface>";
    }
    o << "</" << c.kind << ">\n";
  }
  o << "</ros2_control>\n</robot>\n";
  return o.str();
}
using Values = std::map<string, double>;
// ------------------------------------------------------------------- reference model
void model_configure()
{
  m->changes++;
  for (auto & c : m->comps) {
    if (c.kind != "joint") continue;
    m->mode[c.name] = 0;
    for (auto & i : c.state) {
      if (i.boolean) continue;
      double & v = m->state[c.name + "/" + i.name];
      if (std::isnan(v)) v = 0;
      // the offset is part of the reported position from the first configuration on
      if (i.name == "position" && m->custom.empty() && !m->configured) v += m->offset;
    }
  }
  m->configured = true;
}
// one read; false: the component has to report an error
bool model_read(const Values & cmd, double dt)
{
  if (m->disabled) return true;
  auto & s = m->state;
  auto has = [&](const string & n) { return s.count(n) > 0; };
  auto command = [&](const string & n) { auto x = cmd.find(n); return x == cmd.end() ? NAN : x->second; };
  const double off = m->custom.empty() ? m->offset : 0.0;
  auto mirror = [&](const string & n) {
    if (!cmd.count(n) || !has(n)) return true;
    double v = command(n);
    if (std::isinf(v)) return false;
    if (!std::isnan(v)) s[n] = v;
    return true;
  };
  for (auto & c : m->comps) {
    if (c.kind != "joint") continue;
    const string n[3] = {c.name + "/position", c.name + "/velocity", c.name + "/acceleration"};
    if (m->dynamics) {
      double x[3];
      for (int i = 0; i < 3; ++i) x[i] = has(n[i]) ? s[n[i]] : NAN;
      const double v0 = std::isfinite(x[1]) ? x[1] : 0.0, x0 = x[0];
      if (m->mode[c.name] == 0 && std::isfinite(command(n[0]))) {
        x[0] = command(n[0]) + off;
        x[1] = (x[0] - x0) / dt;
        x[2] = (x[1] - v0) / dt;
      } else if (m->mode[c.name] == 1) {
        if (std::isfinite(command(n[1]))) { x[1] = command(n[1]); x[2] = (x[1] - v0) / dt; }
        if (std::isfinite(x[1])) x[0] += x[1] * dt;
      } else if (m->mode[c.name] == 2) {
        if (std::isnan(x[1])) x[1] = 0;
        if (std::isfinite(command(n[2]))) x[2] = command(n[2]);
        if (!std::isnan(x[2])) x[1] += x[2] * dt;
        if (std::isfinite(x[1])) x[0] += x[1] * dt;
      }
      for (int i = 0; i < 3; ++i) if (has(n[i]) && std::isfinite(x[i])) s[n[i]] = x[i];
    } else if (has(n[0]) && std::isfinite(command(n[0]))) s[n[0]] = command(n[0]) + off;
    for (auto & i : c.state) {
      if (i.name == "position" || (m->dynamics && (i.name == "velocity" || i.name == "acceleration"))) continue;
      const string full = c.name + "/" + i.name;
      if (!mirror(full)) return false;
      if (i.name == m->custom && std::isfinite(command(n[0]) + m->offset)) s[full] = command(n[0]) + m->offset;
    }
  }
  for (auto & c : m->comps)
    if (!c.mimic.empty())
      for (int i = 0; i < 3; ++i) {
        const string a = c.name + "/" + STD[i], b = c.mimic + "/" + STD[i];
        if (has(a) && has(b)) s[a] = (i == 0 ? c.off : 0.0) + c.mult * s[b];
      }
  for (auto & c : m->comps)
    if (c.kind == "sensor" ? m->mock_sensor : c.kind == "gpio")
      for (auto & i : c.state) if (!mirror(c.name + "/" + i.name)) return false;
  return true;
}
bool model_prepare(const vector<string> & start)
{
  if (!m->dynamics) return true;
  bool ok = true;
  for (auto & c : m->comps) {
    if (c.kind != "joint") continue;
    int any = 0, std3 = 0;
    for (auto & k : start) {
      if (k.rfind(c.name + "/", 0) != 0) continue;
      any++;
      for (auto x : STD) std3 += k == c.name + "/" + x;
    }
    if (any && std3 != 1) ok = false;
  }
  return ok;
}
void model_perform(const vector<string> & start)
{
  m->changes++;
  if (!m->dynamics) return;
  for (auto & k : start)
    for (auto & c : m->comps)
      for (int i = 0; i < 3; ++i) if (c.kind == "joint" && k == c.name + "/" + STD[i]) m->mode[c.name] = i;
}
string options()
{
  char b[160];
  snprintf(b, sizeof b, "%s, offset %g%s%s%s%s", m->dynamics ? "dynamics" : "mirroring", m->offset, m->custom.empty() ? "" : " on ", m->custom.c_str(), m->disabled ? ", disabled" : "", m->configured ? "" : ", not configured");
  return b;
}

class MockSystem : public mock_components::GenericSystem
{
public:
  MockSystem() = default;
  hardware_interface::CallbackReturn on_configure(const rclcpp_lifecycle::State & s) override
  {
    auto r = mock_components::GenericSystem::on_configure(s);
    NoPreempt np;
    model_configure();
    note("configured");
    compare("configure");
    return r;
  }
  hardware_interface::CallbackReturn on_activate(const rclcpp_lifecycle::State & s) override { return after("activate", mock_components::GenericSystem::on_activate(s)); }
  hardware_interface::CallbackReturn on_deactivate(const rclcpp_lifecycle::State & s) override { return after("deactivate", mock_components::GenericSystem::on_deactivate(s)); }
  hardware_interface::CallbackReturn on_cleanup(const rclcpp_lifecycle::State & s) override { return after("cleanup", mock_components::GenericSystem::on_cleanup(s)); }
  return_type prepare_command_mode_switch(const vector<string> & start, const vector<string> & stop) override
  {
    auto r = mock_components::GenericSystem::prepare_command_mode_switch(start, stop);
    NoPreempt np;
    string l;
    for (auto & x : start) l += " +" + x;
    for (auto & x : stop) l += " -" + x;
    note("prepare%s -> %s", l.c_str(), r == return_type::OK ? "OK" : "ERROR");
    const bool want = model_prepare(start);
    probe(want ? "mode_switch_possible" : "mode_switch_impossible");
    if (want && r != return_type::OK) violate("C21", "possible-modes-refused", "the mock system (%s) refuses%s", options().c_str(), l.c_str());
    if (!want && r == return_type::OK) violate("C21", "impossible-modes-accepted", "the mock system (%s) accepts%s", options().c_str(), l.c_str());
    compare("prepare");
    return r;
  }
  return_type perform_command_mode_switch(const vector<string> & start, const vector<string> & stop) override
  {
    auto r = mock_components::GenericSystem::perform_command_mode_switch(start, stop);
    NoPreempt np;
    model_perform(start);
    note("perform");
    if (r != return_type::OK) violate("C21", "mode-switch-not-performed", "performing a prepared mode switch fails");
    compare("perform");
    return r;
  }
  return_type read(const rclcpp::Time & t, const rclcpp::Duration & period) override
  {
    Values before, after;
    int changes = 0;
    {
      NoPreempt np;
      compare("elsewhere");
      if (m->in_call++) violate("C21", "overlapping-read", "two reads at the same time");
      before = commands();
      changes = m->changes;
      if (!m->is_async)
        for (auto & c : m->client) {
          auto x = before.find(c.first);
          if (x == before.end() || !same(x->second, c.second)) violate("C21", "command-lost", "the hardware finds %g on %s, %g was commanded", x == before.end() ? NAN : x->second, c.first.c_str(), c.second);
        }
    }
    return_type r = return_type::ERROR;
    string what;
    try {
      r = mock_components::GenericSystem::read(t, period);
    } catch (const std::exception & e) {
      what = e.what();
    }
    NoPreempt np;
    m->in_call--;
    after = commands();
    bool changed = changes != m->changes || before.size() != after.size();
    for (auto & x : before) changed |= !same(x.second, after[x.first]);
    W->cycle++;
    if (!what.empty()) {
      violate("C21", "read-throws", "read of the mock system (%s) throws %s", options().c_str(), what.c_str());
      m->broken = true;
      return return_type::ERROR;
    }
    if (changed) {   // commands arrived during an asynchronous read
      probe("commands_during_read");
      if (r != return_type::OK) { m->broken = true; return r; }
      resync();
      return r;
    }
    probe("read_checked");
    const bool want = model_read(before, period.seconds());
    if (!want) probe("read_has_to_fail");
    if (want && r != return_type::OK) violate("C21", "read-fails", "read of the mock system (%s) fails", options().c_str());
    if (!want && r == return_type::OK) violate("C21", "infinite-command-accepted", "read of the mock system (%s) succeeds although an infinite value is commanded", options().c_str());
    if (r != return_type::OK || !want) m->broken = true;
    else compare("read");
    return r;
  }

private:
  hardware_interface::CallbackReturn after(const char * cb, hardware_interface::CallbackReturn r)
  {
    NoPreempt np;
    note("%s", cb);
    if (string(cb) == "activate") m->activated = true;
    compare(cb);
    return r;
  }
  double value(const string & n) const { return m->types[n] ? (this->template get_state<bool>(n) ? 1.0 : 0.0) : this->template get_state<double>(n); }
  Values commands() const
  {
    Values r;
    for (auto & c : m->ctypes) if (has_command(c.first)) r[c.first] = c.second ? (this->template get_command<bool>(c.first) ? 1.0 : 0.0) : this->template get_command<double>(c.first);
    return r;
  }
  void compare(const char * where)
  {
    if (m->broken || m->in_call) return;
    for (auto & s : m->state) {
      if (!has_state(s.first)) { violate("C21", "state-missing", "state interface %s does not exist", s.first.c_str()); continue; }
      double v = value(s.first);
      if (!same(v, s.second)) {
        const string itf = s.first.substr(s.first.rfind('/') + 1), joint = s.first.substr(0, s.first.rfind('/'));
        const char * mo = "";
        if (m->dynamics && m->mode.count(joint)) mo = m->mode[joint] == 0 ? " position mode" : m->mode[joint] == 1 ? " velocity mode" : " acceleration mode";
        violate("C21", string("wrong-state-after-") + where + "/" + itf, "%s is %g, expected %g (%s%s)", s.first.c_str(), v, s.second, options().c_str(), mo);
        s.second = v;
      }
    }
  }
  // the outcome of a read during which commands change is not predicted
  void resync() { for (auto & s : m->state) s.second = value(s.first); }
};
}  // namespace

void register_mock()
{
  pluginlib::Registry::get()[{std::type_index(typeid(hardware_interface::SystemInterface)), "sim/MockSystem"}] = []() -> void * { return static_cast<hardware_interface::SystemInterface *>(new MockSystem); };
}
void mock_main()
{
  using hardware_interface::LoanedCommandInterface;
  using hardware_interface::LoanedStateInterface;
  Plan & p = W->plan;
  static Model model;
  m = &model;
  m->comps = components(p);
  if (m->comps.empty()) return;
  auto flag = [&](const char * k) { auto x = p.extra.find(string("param.") + k); return x != p.extra.end() && x->second == "true"; };
  m->dynamics = flag("calculate_dynamics");
  m->disabled = flag("disable_commands");
  m->mock_sensor = flag("mock_sensor_commands");
  m->mock_gpio = flag("mock_gpio_commands");
  m->is_async = p.extra.count("async") > 0;
  if (p.extra.count("param.position_state_following_offset")) {
    m->offset = atof(p.extra["param.position_state_following_offset"].c_str());
    if (p.extra.count("param.custom_interface_with_following_offset")) m->custom = p.extra["param.custom_interface_with_following_offset"];
    if (m->custom == "-") m->custom.clear();
  }
  for (auto & c : m->comps) {
    for (auto & i : c.state) {
      m->types[c.name + "/" + i.name] = i.boolean;
      m->state[c.name + "/" + i.name] = i.boolean ? (i.initial == "true" ? 1.0 : 0.0) : i.initial.empty() ? NAN : atof(i.initial.c_str());
      if ((c.kind == "sensor" && m->mock_sensor) || (c.kind == "gpio" && m->mock_gpio)) m->ctypes[c.name + "/" + i.name] = i.boolean;
    }
    for (auto & i : c.cmd) m->ctypes[c.name + "/" + i.name] = i.boolean;
  }
  hardware_interface::ResourceManagerParams rp;
  rp.robot_description = urdf(p, m->comps);
  rp.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  rp.logger = rclcpp::get_logger("mock");
  rp.executor = std::make_shared<rclcpp::executors::MultiThreadedExecutor>();
  rp.update_rate = static_cast<unsigned>(p.update_rate);
  std::unique_ptr<hardware_interface::ResourceManager> rm;
  try {
    rm = std::make_unique<hardware_interface::ResourceManager>(rp, true);
  } catch (const std::exception & e) {
    violate("C21", "not-loaded", "the mock system is not loaded: %s", e.what());
    return;
  }
  {
    auto cmds = rm->command_interface_keys();
    std::set<string> have(cmds.begin(), cmds.end());
    for (auto & c : m->ctypes) if (!have.count(c.first)) violate("C21", "command-interface-missing", "command interface %s is not exported", c.first.c_str());
    for (auto & c : have) if (!m->ctypes.count(c)) violate("C21", "command-interface-invented", "command interface %s is exported", c.c_str());
    auto sts = rm->state_interface_keys();
    for (auto & s : m->state) if (std::find(sts.begin(), sts.end(), s.first) == sts.end()) violate("C21", "state-interface-missing", "state interface %s is not exported", s.first.c_str());
  }
  if (!W->viols.empty()) return;
  struct Pending { bool set = false; vector<string> start, stop; } pending;
  bool stop = false;
  int svc = simrt::spawn("services", [&]() {
    using lifecycle_msgs::msg::State;
    for (auto & o : p.ops) {
      if (o.client != 1) continue;
      if (o.delay) simrt::sleep_ns(o.delay);
      if (o.op == "state") {
        const int id = static_cast<int>(o.num);
        rclcpp_lifecycle::State want(static_cast<uint8_t>(id), id == S_ACTIVE ? "active" : id == S_INACTIVE ? "inactive" : "unconfigured");
        auto r = rm->set_component_state("mock", want);
        NoPreempt np;
        W->ops_done["state"]++;
        note("state %d -> %s", id, r == return_type::OK ? "OK" : "ERROR");
        const int now = rm->get_components_status().at("mock").state.id();
        if (!m->broken && (r != return_type::OK || now != id)) violate("C21", "state-not-reached", "the mock system does not become %s (it is in state %d)", want.label().c_str(), now);
      } else if (o.op == "switch") {
        const int st = rm->get_components_status().at("mock").state.id();
        if (st != S_ACTIVE && st != S_INACTIVE) continue;
        if (!rm->prepare_command_mode_switch(o.a, o.b)) { W->ops_done["switch-refused"]++; continue; }
        W->ops_done["switch"]++;
        { NoPreempt np; pending.start = o.a; pending.stop = o.b; pending.set = true; }
        for (int i = 0; pending.set && !stop && i < 200; ++i) simrt::sleep_ns(500000);
      }
    }
  });
  int rt = simrt::spawn("rt", [&]() {
    std::map<string, LoanedCommandInterface> cmd;
    std::map<string, LoanedStateInterface> sta;
    int64_t next = simrt::now_ns();
    for (auto & o : p.ops) {
      if (o.client != 0) continue;
      if (o.op == "cycle") {
        next += o.delay;
        if (simrt::now_ns() < next) simrt::sleep_ns(next - simrt::now_ns());
        W->ops_done["cycle"]++;
        const int st = rm->get_components_status().at("mock").state.id();
        if (st == S_ACTIVE || st == S_INACTIVE) {
          try {   // (the component may be stopped meanwhile)
            for (auto & c : m->ctypes) if (!cmd.count(c.first) && rm->command_interface_is_available(c.first) && !rm->command_interface_is_claimed(c.first)) cmd.emplace(c.first, rm->claim_command_interface(c.first));
            for (auto & s : m->state) if (!sta.count(s.first) && rm->state_interface_is_available(s.first)) sta.emplace(s.first, rm->claim_state_interface(s.first));
          } catch (const std::exception &) {
            probe("claim_refused");
          }
        }
        auto r = rm->read(rclcpp::Time(simrt::now_ns(), RCL_STEADY_TIME), rclcpp::Duration::from_nanoseconds(o.num));
        {
          NoPreempt np;
          if (!m->broken && r.result == return_type::ERROR) violate("C21", "read-fails", "read of the resource manager fails");
          if (!m->is_async && !m->broken)
            for (auto & s : sta) {
              double v = 0;
              bool got = false;
              if (m->types[s.first]) { auto x = s.second.get_optional<bool>(); got = x.has_value(); v = got && *x; }
              else { auto x = s.second.get_optional(); got = x.has_value(); if (got) v = *x; }
              if (got && !same(v, m->state[s.first])) violate("C21", "state-not-forwarded", "%s reads %g, the hardware reports %g", s.first.c_str(), v, m->state[s.first]);
            }
        }
        if (pending.set) {
          if (!rm->perform_command_mode_switch(pending.start, pending.stop)) note("switch not performed");
          NoPreempt np;
          pending.set = false;
        }
        if (m->broken) { NoPreempt np; W->faults_fired["component-error"]++; }
        rm->write(rclcpp::Time(simrt::now_ns(), RCL_STEADY_TIME), rclcpp::Duration::from_nanoseconds(o.num));
      } else if (o.op == "set") {
        auto it = cmd.find(o.a.empty() ? "" : o.a[0]);
        if (it == cmd.end()) continue;
        const bool b = m->ctypes[it->first];
        double v = o.str == "nan" ? NAN : o.str == "inf" ? INFINITY : o.str == "-inf" ? -INFINITY : atof(o.str.c_str());
        m->changes++;
        bool ok = b ? it->second.set_value(v > 0) : it->second.set_value(v);
        NoPreempt np;
        m->changes++;
        if (!b && !std::isfinite(v)) W->faults_fired[std::isnan(v) ? "command:nan" : "command:inf"]++;
        W->ops_done["set"]++;
        if (ok) m->client[it->first] = b ? (v > 0 ? 1.0 : 0.0) : v;
        else m->client.erase(it->first);
        note("set %s = %g%s", it->first.c_str(), v, ok ? "" : " not stored");
      } else if (o.op == "reclaim") {
        cmd.clear();
        W->ops_done["reclaim"]++;
      }
    }
    cmd.clear();
    sta.clear();
  });
  simrt::join(rt);
  stop = true;
  simrt::join(svc);
  rm->shutdown_components();
  rm.reset();
  simrt::NoPreempt np;
  uint64_t h = 1469598103934665603ull;
  for (auto & s : m->state) { uint64_t b; memcpy(&b, &s.second, 8); h = (h ^ b) * 1099511628211ull; }
  W->state_hashes.insert(h);
}

void generate_mock(Plan & p, simrt::Rng & r)
{
  auto yes = [&](double x) { return r.chance(x); };
  auto in = [&](int a, int b) { return static_cast<int>(r.range(a, b)); };
  p.hw.clear();
  p.ctrl.clear();
  p.ops.clear();
  p.faults.clear();
  p.extra.clear();
  p.desc_at = 0;
  p.shutdown_at = -1;
  auto num = [&]() { char b[32]; snprintf(b, sizeof b, "%.4g", (r.unit() * 2 - 1) * (yes(0.2) ? 100 : 3)); return string(b); };
  vector<string> names = {"j1", "j10", "arm_j1", "j1_2", "j2"};
  for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.below(i)]);
  const int nj = in(1, 4);
  const bool dyn = yes(0.55);
  if (dyn) p.extra["param.calculate_dynamics"] = "true";
  else if (yes(0.3)) p.extra["param.calculate_dynamics"] = "false";
  const bool offset = yes(0.45), custom = offset && yes(0.5);
  if (offset) p.extra["param.position_state_following_offset"] = num();
  if (custom) p.extra["param.custom_interface_with_following_offset"] = yes(0.9) ? "actual_position" : "missing";
  if (yes(0.05)) p.extra["param.disable_commands"] = "true";
  if (yes(0.4)) p.extra["param.mock_sensor_commands"] = "true";
  if (yes(0.4)) p.extra["param.mock_gpio_commands"] = "true";
  if (yes(0.12)) p.extra["async"] = "true";
  if (yes(0.1)) p.extra["rw_rate"] = "50";
  int mimics = 0;
  vector<string> cmds, jcmds;
  const int mimicked = in(0, nj - 1);
  for (int j = 0; j < nj; ++j) {
    const bool mimic = j != mimicked && yes(0.3);
    string c, s;
    auto add = [&](string & l, const string & x) { l += (l.empty() ? "" : ",") + x; };
    auto state = [&](const char * n) { string x = n; if (yes(0.3)) x += "=" + num(); add(s, x); };
    if (!mimic) {
      for (auto x : STD) if (yes(0.6)) { add(c, x); jcmds.push_back(names[static_cast<size_t>(j)] + "/" + x); }
      if (yes(0.25)) { add(c, "effort"); jcmds.push_back(names[static_cast<size_t>(j)] + "/effort"); }
      if (yes(0.2)) { add(c, "gain"); cmds.push_back(names[static_cast<size_t>(j)] + "/gain"); }
      if (yes(0.15)) { add(c, "brake:bool"); cmds.push_back(names[static_cast<size_t>(j)] + "/brake"); }
      if (custom && yes(0.2)) { add(c, "actual_position"); cmds.push_back(names[static_cast<size_t>(j)] + "/actual_position"); }
    } else mimics++;
    if (yes(0.9)) state("position");
    if (yes(0.7)) state("velocity");
    if (yes(0.5)) state("acceleration");
    if (yes(0.3)) state("effort");
    if (yes(0.2)) state("gain");
    if (yes(0.2)) add(s, yes(0.5) ? "brake:bool=true" : "brake:bool");
    if (custom && yes(0.5)) state("actual_position");
    if (s.empty()) state("position");
    string mi = "-";
    if (mimic) mi = names[static_cast<size_t>(mimicked)] + ";" + num() + ";" + num();
    p.extra["comp." + std::to_string(j)] = "joint|" + names[static_cast<size_t>(j)] + "|" + (c.empty() ? "-" : c) + "|" + s + "|" + mi;
  }
  for (auto & x : jcmds) { cmds.push_back(x); cmds.push_back(x); }
  int k = nj;
  if (yes(0.5)) {
    string c, s;
    if (yes(0.6)) { c = "vacuum"; cmds.push_back("tool/vacuum"); }
    if (yes(0.4)) { c += string(c.empty() ? "" : ",") + "on:bool"; cmds.push_back("tool/on"); }
    s = "vacuum" + (yes(0.4) ? "=" + num() : "");
    if (yes(0.5)) s += ",on:bool";
    if (yes(0.3)) s += ",level";
    if (p.extra.count("param.mock_gpio_commands")) { cmds.push_back("tool/vacuum"); cmds.push_back("tool/level"); }
    p.extra["comp." + std::to_string(k++)] = "gpio|tool|" + (c.empty() ? "-" : c) + "|" + s + "|-";
  }
  if (yes(0.5)) {
    string s = "force.x" + (yes(0.4) ? "=" + num() : "");
    if (yes(0.5)) s += ",force.y";
    if (yes(0.3)) s += ",touch:bool";
    if (p.extra.count("param.mock_sensor_commands")) { cmds.push_back("fts/force.x"); cmds.push_back("fts/touch"); cmds.push_back("fts/force.y"); }
    p.extra["comp." + std::to_string(k++)] = "sensor|fts|-|" + s + "|-";
  }
  // the services
  OpPlan o;
  o.client = 1;
  auto state = [&](int id) { o.op = "state"; o.num = id; o.delay = yes(0.5) ? in(1, 40) * 1000000 : in(0, 3000) * 1000; p.ops.push_back(o); o.a.clear(); o.b.clear(); };
  state(yes(0.5) ? S_ACTIVE : S_INACTIVE);
  const int ns = in(1, 12);
  for (int i = 0; i < ns; ++i) {
    if (yes(0.35)) { state(yes(0.5) ? S_ACTIVE : yes(0.5) ? S_INACTIVE : S_UNCONF); continue; }
    o.op = "switch";
    o.delay = in(0, 40) * 1000000;
    o.a.clear();
    o.b.clear();
    for (auto & x : jcmds) { if (yes(1.3 / static_cast<double>(jcmds.size()))) o.a.push_back(x); else if (yes(0.2)) o.b.push_back(x); }
    if (yes(0.15) && !cmds.empty()) { auto & x = cmds[r.below(cmds.size())]; if (std::find(o.a.begin(), o.a.end(), x) == o.a.end() && std::find(o.b.begin(), o.b.end(), x) == o.b.end()) o.a.push_back(x); }
    if (o.a.empty() && o.b.empty()) continue;
    p.ops.push_back(o);
  }
  // the control loop
  o = OpPlan();
  const int nc = in(5, 60), base = std::vector<int>{10000, 1000, 20000, 100000}[r.below(4)];
  const bool jitter = yes(0.5), odd = yes(0.2);
  const int inf_at = yes(0.15) ? in(nc / 2, nc) : -1;
  for (int i = 0; i < nc; ++i) {
    o.op = "cycle";
    o.a.clear();
    int us = jitter ? in(base / 2, base * 2) : base;
    o.delay = us * 1000ll;
    o.num = o.delay;
    if (odd && yes(0.15)) o.num = yes(0.3) ? 0 : yes(0.5) ? 1 : 5000000000ll;
    p.ops.push_back(o);
    const int n = yes(0.6) ? in(0, 4) : 0;
    for (int x = 0; x < n && !cmds.empty(); ++x) {
      o.op = "set";
      o.a = {cmds[r.below(cmds.size())]};
      o.str = num();
      if (yes(0.08)) o.str = "nan";
      if (i == inf_at) o.str = yes(0.5) ? "inf" : "-inf";
      p.ops.push_back(o);
    }
    if (yes(0.02)) { o.op = "reclaim"; o.a.clear(); p.ops.push_back(o); }
  }
  p.sched.sync_cost_ns = 500;
  p.sched.max_time_ns = 1000ll * 1000000000ll;
}
