#!/usr/bin/env python3
"""Generates C++ message structs and the parameter library header. usage: gen.py REPO OUT"""
import os, re, sys, yaml
repo, out = sys.argv[1], sys.argv[2]
EXTRA = {
'builtin_interfaces/msg/Time': 'int32 sec\nuint32 nanosec',
'builtin_interfaces/msg/Duration': 'int32 sec\nuint32 nanosec',
'std_msgs/msg/Header': 'builtin_interfaces/Time stamp\nstring frame_id',
'std_msgs/msg/String': 'string data',
'std_msgs/msg/ColorRGBA': 'float32 r\nfloat32 g\nfloat32 b\nfloat32 a',
'lifecycle_msgs/msg/State': '''uint8 PRIMARY_STATE_UNKNOWN = 0
uint8 PRIMARY_STATE_UNCONFIGURED = 1
uint8 PRIMARY_STATE_INACTIVE = 2
uint8 PRIMARY_STATE_ACTIVE = 3
uint8 PRIMARY_STATE_FINALIZED = 4
uint8 TRANSITION_STATE_CONFIGURING = 10
uint8 TRANSITION_STATE_CLEANINGUP = 11
uint8 TRANSITION_STATE_SHUTTINGDOWN = 12
uint8 TRANSITION_STATE_ACTIVATING = 13
uint8 TRANSITION_STATE_DEACTIVATING = 14
uint8 TRANSITION_STATE_ERRORPROCESSING = 15
uint8 id
string label''',
'diagnostic_msgs/msg/KeyValue': 'string key\nstring value',
'diagnostic_msgs/msg/DiagnosticStatus': 'byte OK=0\nbyte WARN=1\nbyte ERROR=2\nbyte STALE=3\nbyte level\nstring name\nstring message\nstring hardware_id\nKeyValue[] values',
'diagnostic_msgs/msg/DiagnosticArray': 'std_msgs/Header header\nDiagnosticStatus[] status',
'control_msgs/msg/HardwareDeviceStatus': 'string device_id',
'control_msgs/msg/HardwareStatus': 'std_msgs/Header header\nstring hardware_id\nHardwareDeviceStatus[] hardware_device_states',
'trajectory_msgs/msg/JointTrajectoryPoint': 'float64[] positions\nfloat64[] velocities\nfloat64[] accelerations\nfloat64[] effort\nbuiltin_interfaces/Duration time_from_start',
}
PRIM = {'bool':'bool','byte':'uint8_t','char':'uint8_t','int8':'int8_t','uint8':'uint8_t','int16':'int16_t','uint16':'uint16_t','int32':'int32_t','uint32':'uint32_t','int64':'int64_t','uint64':'uint64_t','float32':'float','float64':'double','string':'std::string'}
def snake(n):
    n = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', n)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n).lower()
def write(path, s):
    p = os.path.join(out, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s: return
    open(p, 'w').write(s)
def struct(pkg, name, text, includes):
    fields, consts = [], []
    for line in text.splitlines():
        line = line.split('#')[0].strip()
        if not line: continue
        m = re.match(r'^(\S+)\s+(\w+)\s*=\s*(.+)$', line)
        if m:
            t = m.group(1)
            consts.append((PRIM[t], m.group(2), m.group(3).strip())); continue
        parts = line.split()
        t, f = parts[0], parts[1]
        default = parts[2] if len(parts) > 2 else None
        m = re.match(r'^([\w/]+)(\[(<=)?(\d*)\])?$', t)
        base, arr, _, n = m.groups()
        if base in PRIM: ct = PRIM[base]
        else:
            if '/' in base:
                bp, bn = base.split('/')[0], base.split('/')[-1]
            elif base == 'Header': bp, bn = 'std_msgs', base
            else: bp, bn = pkg, base
            includes.add(f'{bp}/msg/{snake(bn)}.hpp')
            ct = f'{bp}::msg::{bn}'
        scalar = base in PRIM and base != 'string'
        if arr:
            ct = f'std::vector<{ct}>' if not n or '<=' in t else f'std::array<{ct}, {n}>'
            fields.append(f'  {ct} {f}{{}};')
        else:
            d = f'{{{default}}}' if default else '{}'
            fields.append(f'  {ct} {f}{d};')
        fields.append(f'  using _{f}_type = {ct};')
    cs = []
    for ct, n, v in consts:
        cs.append(f'  static constexpr const char * {n} = {v};' if ct == 'std::string' else f'  static constexpr {ct} {n} = {v};')
    ptr = [f'  using SharedPtr = std::shared_ptr<{name}>;', f'  using ConstSharedPtr = std::shared_ptr<const {name}>;', f'  using UniquePtr = std::unique_ptr<{name}>;']
    return f'struct {name}\n{{\n' + '\n'.join(cs + fields + ptr) + '\n};\n'
HEAD = '#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n'
def gen_msg(pkg, name, text):
    inc = set()
    s = struct(pkg, name, text, inc)
    write(f'{pkg}/msg/{snake(name)}.hpp', HEAD + ''.join(f'#include "{i}"\n' for i in sorted(inc)) + f'namespace {pkg}::msg\n{{\n{s}}}\n')
def gen_srv(pkg, name, text):
    req, _, res = text.partition('\n---')
    res = res.partition('\n')[2] if '\n' in res else ''
    inc = set()
    a = struct(pkg, f'{name}_Request', req, inc)
    b = struct(pkg, f'{name}_Response', res, inc)
    write(f'{pkg}/srv/{snake(name)}.hpp', HEAD + ''.join(f'#include "{i}"\n' for i in sorted(inc)) + f'namespace {pkg}::srv\n{{\n{a}{b}struct {name}\n{{\n  using Request = {name}_Request;\n  using Response = {name}_Response;\n}};\n}}\n')
for k, t in EXTRA.items():
    p, _, n = k.split('/')
    gen_msg(p, n, t)
d = os.path.join(repo, 'controller_manager_msgs')
for f in sorted(os.listdir(d + '/msg')):
    if f.endswith('.msg'): gen_msg('controller_manager_msgs', f[:-4], open(f'{d}/msg/{f}').read())
for f in sorted(os.listdir(d + '/srv')):
    if f.endswith('.srv'): gen_srv('controller_manager_msgs', f[:-4], '\n' + open(f'{d}/srv/{f}').read())
# ---------------------------------------------------------------- parameters
y = yaml.safe_load(open(os.path.join(repo, 'controller_manager/src/controller_manager_parameters.yaml')))
ns, tree = next(iter(y.items()))
CT = {'int':'int64_t','double':'double','bool':'bool','string':'std::string','string_array':'std::vector<std::string>','int_array':'std::vector<int64_t>','double_array':'std::vector<double>'}
def lit(t, v):
    if t == 'bool': return 'true' if v else 'false'
    if t == 'string': return '"%s"' % v
    if t.endswith('_array'): return '{' + ', '.join('"%s"' % x if t == 'string_array' else str(x) for x in v) + '}'
    if t == 'double': return repr(float(v))
    return str(v)
load = []
def emit(t, ind, path):
    s = ''
    for k, v in t.items():
        if isinstance(v, dict) and 'type' in v and not isinstance(v['type'], dict):
            ct = CT[v['type']]
            s += f'{ind}{ct} {k} = {lit(v["type"], v.get("default_value", [] if "array" in v["type"] else 0))};\n'
            nm = '.'.join(path + [k])
            checks = []
            for vn, va in (v.get('validation') or {}).items():
                vn = vn.replace('<>', '')
                if vn in ('gt', 'lt', 'gt_eq', 'lower_bounds'):
                    a = va[0] if isinstance(va, list) else va
                    op = {'gt': '>', 'lt': '<', 'gt_eq': '>=', 'lower_bounds': '>='}[vn]
                    checks.append(f'(x {op} {a})')
                elif vn == 'one_of':
                    checks.append('(' + ' || '.join(f'x == "{o}"' for o in va[0]) + ')')
                elif vn == 'not_empty':
                    checks.append('(!x.empty())')
                elif vn == 'unique':
                    checks.append('(std::set<std::string>(x.begin(), x.end()).size() == x.size())')
            cond = ' && '.join(checks) or 'true'
            load.append(f'    {{ auto x = get<{ct}>("{nm}", p.{nm}, {"true" if v.get("read_only") else "false"}); if (!({cond})) throw rclcpp::exceptions::InvalidParameterValueException("Invalid value set during initialization for parameter \'{nm}\'"); p.{nm} = x; }}\n')
        elif isinstance(v, dict):
            s += f'{ind}struct S_{k}\n{ind}{{\n' + emit(v, ind + '  ', path + [k]) + f'{ind}}} {k};\n'
    return s
body = emit(tree, '  ', [])
write(f'{ns}/{ns}_parameters.hpp', f'''#pragma once
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "rclcpp/rclcpp.hpp"
namespace {ns}
{{
struct Params
{{
{body}
  unsigned stamp__ = 0;
}};
class ParamListener
{{
public:
  ParamListener(const rclcpp::node_interfaces::NodeParametersInterface::SharedPtr & p, const rclcpp::node_interfaces::NodeLoggingInterface::SharedPtr &, const std::string & = "") : p_(p) {{ load(); }}
  ParamListener(const rclcpp::node_interfaces::NodeParametersInterface::SharedPtr & p, const std::string & = "") : p_(p) {{ load(); }}
  ParamListener(const rclcpp::node_interfaces::NodeParametersInterface::SharedPtr & p, const rclcpp::Logger &, const std::string & = "") : p_(p) {{ load(); }}
  template <class N> explicit ParamListener(const std::shared_ptr<N> & n) : p_(n->get_node_parameters_interface()) {{ load(); }}
  Params get_params() {{ std::lock_guard<std::mutex> l(m_); return cur_; }}
  bool is_old(const Params & o) {{ std::lock_guard<std::mutex> l(m_); return o.stamp__ != cur_.stamp__; }}
  void refresh() {{ std::lock_guard<std::mutex> l(m_); load(); ++cur_.stamp__; }}
private:
  template <class T> T get(const std::string & n, const T & d, bool)
  {{
    if (!p_->has_parameter(n)) p_->declare_parameter(n, rclcpp::ParameterValue(d));
    return p_->get_parameter(n).template get_value<T>();
  }}
  void load()
  {{
    Params p = cur_;
{''.join(load)}    cur_ = p;
  }}
  rclcpp::node_interfaces::NodeParametersInterface::SharedPtr p_;
  Params cur_;
  std::mutex m_;
}};
}}
''')
print('generated')
