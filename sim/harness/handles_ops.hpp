// Access to interface handles of every data type (implemented in an instrumented file).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
namespace hops
{
enum Type { DOUBLE, FLOAT32, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, N_TYPES };
enum Kind { HANDLE, STATE, COMMAND };
const char * type_name(int t);
struct Cell;
enum Status { OK, FAILED, THREW };
std::shared_ptr<Cell> create(int kind, int type, const std::string & initial);
void limit(Cell &, double lo, double hi);
int64_t value(int type, int k);      // bit pattern of the k-th value of a type
std::string show(int type, int64_t bits);
int64_t parse_initial(int type, const std::string & s);
Status get(Cell &, const std::string & style, unsigned tries, int64_t & out);
Status get_double(Cell &, int64_t & out);   // as double, whatever the type
Status set(Cell &, const std::string & style, unsigned tries, int64_t v);
Status set_mistyped(Cell &, int other);
Status get_mistyped(Cell &, int other);
// several accesses while holding the lock of the handle
Status hold_write(Cell &, int64_t a, int64_t b, const std::function<void()> & between);
Status hold_read(Cell &, int64_t & a, int64_t & b, const std::function<void()> & between);
void assign_copy(Cell & to, Cell & from);
void assign_move(Cell & to, Cell & from);
// life of one handle inside a call: created, written, moved, read
Status moved(int type, int64_t v, int64_t & out);
}  // namespace hops
