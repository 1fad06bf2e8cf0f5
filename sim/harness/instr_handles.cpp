// Accesses to the real handles.  Compiled with the same instrumentation as the code under test.
#include "handles_ops.hpp"
#include "hardware_interface/handle.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include <cmath>
#include <cstring>
using namespace hardware_interface;
namespace hops
{
struct Cell
{
  int kind = 0, type = 0;
  std::shared_ptr<Handle> h;
  std::shared_ptr<StateInterface> s;
  std::shared_ptr<CommandInterface> c;
  Handle & handle() { return kind == HANDLE ? *h : kind == STATE ? static_cast<Handle &>(*s) : static_cast<Handle &>(*c); }
};
const char * type_name(int t)
{
  static const char * const n[] = {"double", "float32", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32"};
  return n[t];
}
template <class T> int64_t to_bits(T v) { int64_t b = 0; memcpy(&b, &v, sizeof v); return b; }
template <class T> T from_bits(int64_t b) { T v; memcpy(&v, &b, sizeof v); return v; }
template <class F> auto with(int type, F && f)
{
  switch (type) {
    case FLOAT32: return f(float());
    case BOOL: return f(bool());
    case UINT8: return f(uint8_t());
    case INT8: return f(int8_t());
    case UINT16: return f(uint16_t());
    case INT16: return f(int16_t());
    case UINT32: return f(uint32_t());
    case INT32: return f(int32_t());
    default: return f(double());
  }
}
int64_t value(int type, int k)
{
  return with(type, [k](auto x) {
    using T = decltype(x);
    if constexpr (std::is_same_v<T, bool>) return to_bits<bool>(k & 1);
    else if constexpr (std::is_floating_point_v<T>) {
      if (k % 9 == 7) {
        const T sp[] = {std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), static_cast<T>(-0.0), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min()};
        return to_bits<T>(sp[(k / 9) % 6]);
      }
      return to_bits<T>(static_cast<T>(k * 1.2345678901 - 7.3));
    } else return to_bits<T>(static_cast<T>(k * 40503u + (k << 20) + 3));
  });
}
std::string show(int type, int64_t b)
{
  return with(type, [b](auto x) -> std::string { using T = decltype(x); return std::to_string(from_bits<T>(b)); });
}
int64_t parse_initial(int type, const std::string & s)
{
  return with(type, [&s](auto x) {
    using T = decltype(x);
    if (s.empty()) {
      if constexpr (std::is_same_v<T, bool>) return to_bits<bool>(false);
      else if constexpr (std::is_floating_point_v<T>) return to_bits<T>(std::numeric_limits<T>::quiet_NaN());
      else return to_bits<T>(std::numeric_limits<T>::max());
    }
    if constexpr (std::is_same_v<T, bool>) return to_bits<bool>(s == "true");
    else return to_bits<T>(static_cast<T>(strtod(s.c_str(), nullptr)));
  });
}
std::shared_ptr<Cell> create(int kind, int type, const std::string & initial)
{
  auto c = std::make_shared<Cell>();
  c->kind = kind;
  c->type = type;
  InterfaceInfo i;
  i.name = "value";
  i.data_type = type_name(type);
  i.initial_value = initial;
  InterfaceDescription d("joint", i);
  if (kind == HANDLE) c->h = std::make_shared<Handle>(d);
  else if (kind == STATE) c->s = std::make_shared<StateInterface>(d);
  else c->c = std::make_shared<CommandInterface>(d);
  return c;
}
void limit(Cell & c, double lo, double hi)
{
  c.c->set_on_set_command_limiter([lo, hi](double v, bool & l) { l = v < lo || v > hi; return v < lo ? lo : v > hi ? hi : v; });
}
template <class T> Status got(std::optional<T> && v, int64_t & out)
{
  if (!v) return FAILED;
  out = to_bits<T>(*v);
  return OK;
}
Status get(Cell & c, const std::string & style, unsigned tries, int64_t & out)
{
  return with(c.type, [&](auto x) -> Status {
    using T = decltype(x);
    try {
      const Handle & h = c.handle();
      if (style == "opt") return got<T>(h.get_optional<T>(), out);
      if (style == "nowait" || style == "wait") {
        T v{};
        if (!h.get_value(v, style == "wait")) return FAILED;
        out = to_bits<T>(v);
        return OK;
      }
      if (style == "lock") {
        std::shared_lock<std::shared_mutex> l(h.get_mutex(), std::try_to_lock);
        return got<T>(h.get_optional<T>(l), out);
      }
      if (style == "loaned") {
        if (c.kind == STATE) { LoanedStateInterface l(c.s); return got<T>(l.get_optional<T>(tries), out); }
        LoanedCommandInterface l(c.c);
        return got<T>(l.get_optional<T>(tries), out);
      }
      // copy
      if (c.kind == STATE) { StateInterface k(*c.s); return got<T>(k.get_optional<T>(), out); }
      Handle k(*c.h);
      return got<T>(k.get_optional<T>(), out);
    } catch (const std::exception &) { return THREW; }
  });
}
Status get_double(Cell & c, int64_t & out)
{
  try { return got<double>(c.handle().get_optional<double>(), out); } catch (const std::exception &) { return THREW; }
}
Status set(Cell & c, const std::string & style, unsigned tries, int64_t bits)
{
  return with(c.type, [&](auto x) -> Status {
    using T = decltype(x);
    const T v = from_bits<T>(bits);
    try {
      Handle & h = c.handle();
      bool ok = false;
      if (style == "plain") ok = h.set_value(v);
      else if (style == "nowait") ok = h.set_value(v, false);
      else if (style == "wait") ok = h.set_value(v, true);
      else if (style == "lock") { std::unique_lock<std::shared_mutex> l(h.get_mutex(), std::try_to_lock); ok = h.set_value(l, v); }
      else if (style == "limited") ok = c.c->set_limited_value(v);
      else { LoanedCommandInterface l(c.c); ok = l.set_value(v, tries); }
      return ok ? OK : FAILED;
    } catch (const std::exception &) { return THREW; }
  });
}
Status set_mistyped(Cell & c, int other)
{
  return with(other, [&](auto x) -> Status { using T = decltype(x); try { return c.handle().set_value(static_cast<T>(1)) ? OK : FAILED; } catch (const std::exception &) { return THREW; } });
}
Status get_mistyped(Cell & c, int other)
{
  return with(other, [&](auto x) -> Status { using T = decltype(x); try { return c.handle().get_optional<T>() ? OK : FAILED; } catch (const std::exception &) { return THREW; } });
}
Status hold_write(Cell & c, int64_t a, int64_t b, const std::function<void()> & between)
{
  return with(c.type, [&](auto x) -> Status {
    using T = decltype(x);
    try {
      Handle & h = c.handle();
      std::unique_lock<std::shared_mutex> l(h.get_mutex());
      bool ok = h.set_value(l, from_bits<T>(a));
      between();
      ok = h.set_value(l, from_bits<T>(b)) && ok;
      return ok ? OK : FAILED;
    } catch (const std::exception &) { return THREW; }
  });
}
Status hold_read(Cell & c, int64_t & a, int64_t & b, const std::function<void()> & between)
{
  return with(c.type, [&](auto x) -> Status {
    using T = decltype(x);
    try {
      Handle & h = c.handle();
      std::shared_lock<std::shared_mutex> l(h.get_mutex());
      Status s = got<T>(h.get_optional<T>(l), a);
      between();
      Status t = got<T>(h.get_optional<T>(l), b);
      return s == OK ? t : s;
    } catch (const std::exception &) { return THREW; }
  });
}
void assign_copy(Cell & to, Cell & from) { *to.h = *from.h; }
void assign_move(Cell & to, Cell & from) { *to.h = std::move(*from.h); }
Status moved(int type, int64_t bits, int64_t & out)
{
  auto c = create(HANDLE, type, "");
  if (set(*c, "plain", 1, bits) != OK) return FAILED;
  auto d = std::make_shared<Cell>();
  d->kind = HANDLE;
  d->type = type;
  d->h = std::make_shared<Handle>(std::move(*c->h));
  c->h.reset();
  return get(*d, "opt", 1, out);
}
}  // namespace hops
