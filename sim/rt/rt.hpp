// Deterministic simulation runtime: fibers, virtual time, seeded scheduler, checked allocator.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace simrt
{
// ---------------------------------------------------------------- PRNG
struct Rng
{
  uint64_t s = 0x9E3779B97F4A7C15ull;
  void seed(uint64_t v) { s = v; next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
  double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------- configuration of one run
enum class SchedPolicy { Random = 0, Sticky = 1, Pct = 2 };
struct SchedConfig
{
  SchedPolicy policy = SchedPolicy::Random;
  // mean number of instrumented memory accesses between two preemptions (0: never)
  uint64_t preempt_mean = 0;
  double sync_switch_prob = 0.5;  // probability to switch at a synchronisation operation
  uint64_t sync_cost_ns = 500;    // virtual time charged per synchronisation operation
  int pct_changes = 3;
  uint64_t pct_horizon = 20000;
  double spurious_wake_prob = 0.0;
  uint64_t wake_latency_max_ns = 0;  // extra latency after a timed sleep (timer jitter)
  uint64_t max_steps = 400000000ull;
  int64_t max_time_ns = 3600ll * 1000000000ll;
};

// ---------------------------------------------------------------- API (valid inside the simulation)
bool active();                    // true while the simulation runs
uint64_t seq();                   // global event sequence number
uint64_t bump_seq();
int64_t now_ns();                 // monotonic virtual time
int64_t wall_ns();                // system clock virtual time (may jump)
void jump_wall(int64_t delta_ns);
int current_fiber();
const char * fiber_name(int id);
const char * current_fiber_name();
void set_fiber_name(const char * n);
void set_next_fiber_name(const char * n);  // name of the next pthread created by this fiber
int fibers_alive();
std::string dump_fibers();

void yield_point();               // a voluntary scheduling point
void sleep_ns(int64_t ns);        // virtual sleep
void sleep_until_ns(int64_t t);
void spend_ns(int64_t ns);        // busy work: advances this fiber's time, others run meanwhile
// generic wait / wake on an address; returns false on timeout (deadline < 0: none)
bool wait_on(const void * obj, int64_t deadline_ns, const char * what);
void wake_all(const void * obj);
// wake one chosen by the scheduler
void wake_one(const void * obj);

uint64_t blocked_count();         // how often this fiber waited / yielded
uint64_t yield_count();

int spawn(const char * name, std::function<void()> fn);
void join(int fiber);
bool finished(int fiber);

struct NoPreempt
{
  NoPreempt();
  ~NoPreempt();
};
// runs fn with preemption re-enabled (inside a NoPreempt scope)
int np_depth();
void np_set(int d);

// counters
struct Counters
{
  uint64_t steps = 0;        // scheduling decisions
  uint64_t switches = 0;     // context switches
  uint64_t preemptions = 0;  // switches forced inside straight line code
  uint64_t accesses = 0;     // instrumented accesses seen
  uint64_t sync_ops = 0;
  uint64_t sched_hash = 1469598103934665603ull;
  uint64_t spurious = 0;
  uint64_t time_jumps = 0;
};
const Counters & counters();
Rng & workload_rng();  // random choices of workload and faults
void hash_mix(uint64_t v);

// Watchdog: calls to arm() limit the number of instrumented accesses before a stuck report
// ---------------------------------------------------------------- fatal conditions
enum class Fatal { Deadlock, StepCap, TimeCap, UseAfterFree, HeapOverflow, DoubleFree, Segv, Terminate, Abort, Stuck };
const char * fatal_name(Fatal f);
// set by the harness: called (at most once) on a fatal condition, must not return
void set_fatal_handler(void (*h)(Fatal, const char * detail));
[[noreturn]] void fatal(Fatal f, const char * fmt, ...);

// run the simulation: creates the main fiber and schedules until it ends
void run(const SchedConfig & cfg, uint64_t seed, uint64_t workload_seed, std::function<void()> main_fn);

// real time outside of the simulation
double real_seconds();

// trace
void trace_enable(bool on);
bool trace_on();
void tracef(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

// symbolic stack of the current fiber's instrumented functions (cheap shadow call stack)
std::string shadow_stack();
// allocator
void alloc_enable_quarantine(bool on);
struct AllocStats { uint64_t allocs, frees, bytes; };
AllocStats alloc_stats();
bool is_freed(const void * p);
uint64_t fault_site_count();
}  // namespace simrt
