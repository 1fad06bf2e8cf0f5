// Fibers, scheduler, virtual time, pthread interposition.  Compiled WITHOUT instrumentation.
#include "rt_internal.hpp"

#include <sys/single_threaded.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <string>
#include <typeinfo>
#include <vector>

namespace simrt
{
extern "C" {
bool g_sim_active = false;
int g_np = 0;
uint64_t g_points = 0;
uint64_t g_next_stop = ~0ull;
}

namespace
{
struct EhGlobals { void * caught; unsigned int uncaught; };
enum class St { Runnable, Blocked, Done };
struct Fiber
{
  int id = 0;
  std::string name;
  std::string next_name;
  void * sp = nullptr;
  char * stack = nullptr;
  size_t stack_size = 0;
  St st = St::Runnable;
  const void * wait_obj = nullptr;
  const char * wait_what = "";
  int64_t deadline = -1;
  bool timed_out = false;
  EhGlobals eh{nullptr, 0};
  int np = 0;
  uint64_t prio = 0;
  std::function<void()> fn;
  void * (*start)(void *) = nullptr;
  void * arg = nullptr;
  void * ret = nullptr;
  bool detached = false;
  uint64_t blocks = 0, yields = 0;
};

std::vector<Fiber *> fibers;
Fiber * cur = nullptr;
void * native_sp = nullptr;
EhGlobals native_eh{nullptr, 0};
SchedConfig cfg;
Rng srng;   // scheduler
Rng wrng;   // workload
Counters cnt;
int64_t t_now = 0;
int64_t wall_off = 1700000000ll * 1000000000ll;
uint64_t g_seq = 0;
uint64_t last_advance_points = 0;
uint64_t min_prio = 1ull << 40;
std::vector<uint64_t> pct_points;
bool tracing = false;
void (*fatal_handler)(Fatal, const char *) = nullptr;
std::vector<Deviation> * rec = nullptr;
const std::vector<Deviation> * rep = nullptr;
size_t rep_i = 0;
bool in_fatal = false;

extern "C" void simrt_switch(void ** from_sp, void * to_sp);
asm(R"(
.text
.globl simrt_switch
.type simrt_switch,@function
simrt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size simrt_switch,.-simrt_switch
)");

EhGlobals * ehg() { return reinterpret_cast<EhGlobals *>(abi::__cxa_get_globals()); }

uint64_t geom(uint64_t mean)
{
  // geometric-ish with heavy variety
  uint64_t r = srng.below(2 * mean) + 1;
  return r;
}
void arm_stop()
{
  if (rep) {
    g_next_stop = rep_i < rep->size() ? (*rep)[rep_i].point : ~0ull;
    if (g_next_stop <= g_points && g_next_stop != ~0ull) {
      // stale deviation: drop
      while (rep_i < rep->size() && (*rep)[rep_i].point <= g_points) ++rep_i;
      g_next_stop = rep_i < rep->size() ? (*rep)[rep_i].point : ~0ull;
    }
  } else if (cfg.preempt_mean) {
    g_next_stop = g_points + geom(cfg.preempt_mean);
  } else {
    g_next_stop = ~0ull;
  }
  uint64_t cap = last_advance_points + 400000000ull;
  if (g_next_stop > cap) g_next_stop = cap > g_points ? cap : g_points + 1;
}

void switch_to(Fiber * n)
{
  if (n == cur) return;
  Fiber * o = cur;
  ++cnt.switches;
  if (tracing) {
    fprintf(stderr, "      ~ switch %s -> %s (pt %lu t=%.6f)\n", o ? o->name.c_str() : "-", n->name.c_str(), g_points, t_now * 1e-9);
  }
  o->eh = *ehg();
  o->np = g_np;
  cur = n;
  *ehg() = n->eh;
  g_np = n->np;
  simrt_switch(&o->sp, n->sp);
  // resumed
}

void wake_sleepers()
{
  for (Fiber * f : fibers) {
    if (f->st == St::Blocked && f->deadline >= 0 && f->deadline <= t_now) {
      f->st = St::Runnable;
      f->timed_out = true;
    }
  }
}

int runnable_list(Fiber ** out)
{
  int n = 0;
  for (Fiber * f : fibers)
    if (f->st == St::Runnable) out[n++] = f;
  return n;
}

[[noreturn]] void do_exit_to_native()
{
  void * dummy;
  *ehg() = native_eh;
  g_sim_active = false;
  simrt_switch(&dummy, native_sp);
  __builtin_unreachable();
}

void check_caps()
{
  if (cnt.steps > cfg.max_steps) fatal(Fatal::StepCap, "step cap");
  if (t_now > cfg.max_time_ns) fatal(Fatal::TimeCap, "virtual time cap");
}

// default choice: continue current if runnable, else the next runnable by id after cur
Fiber * default_choice(Fiber ** r, int n)
{
  for (int i = 0; i < n; ++i)
    if (r[i] == cur) return cur;
  for (int i = 0; i < n; ++i)
    if (r[i]->id > cur->id) return r[i];
  return r[0];
}

// kind: 0 access preemption, 1 sync op, 2 yield, 3 blocked
void decide(int kind)
{
  ++cnt.steps;
  if ((cnt.steps & 1023) == 0) check_caps();
  wake_sleepers();
  Fiber * r[256];
  int n = runnable_list(r);
  while (n == 0) {
    int64_t best = -1;
    for (Fiber * f : fibers)
      if (f->st == St::Blocked && f->deadline >= 0 && (best < 0 || f->deadline < best)) best = f->deadline;
    if (best < 0) fatal(Fatal::Deadlock, "no runnable thread: %s", dump_fibers().c_str());
    t_now = best > t_now ? best : t_now;
    last_advance_points = g_points;
    ++cnt.time_jumps;
    if (t_now > cfg.max_time_ns) fatal(Fatal::TimeCap, "virtual time cap");
    wake_sleepers();
    n = runnable_list(r);
  }
  Fiber * def;
  if (kind == 2) {
    // a voluntary yield: default is the next one in id order
    def = r[0];
    for (int i = 0; i < n; ++i)
      if (r[i]->id > cur->id) { def = r[i]; break; }
  } else {
    def = default_choice(r, n);
  }
  Fiber * ch = def;
  if (rep) {
    if (rep_i < rep->size() && (*rep)[rep_i].point == g_points) {
      int tgt = (*rep)[rep_i].target;
      ++rep_i;
      for (int i = 0; i < n; ++i)
        if (r[i]->id == tgt) ch = r[i];
    }
  } else {
    bool cur_ok = cur->st == St::Runnable;
    if (n > 1 || !cur_ok) {
      switch (cfg.policy) {
        case SchedPolicy::Random:
        case SchedPolicy::Sticky:
          if (kind == 0 || kind == 2 || kind == 3 || srng.chance(cfg.sync_switch_prob)) {
            if (kind == 0 && n > 1) {
              // a preemption: choose another one
              do { ch = r[srng.below(n)]; } while (ch == cur && cur_ok);
            } else {
              ch = r[srng.below(n)];
            }
          } else if (cur_ok) {
            ch = cur;
          }
          break;
        case SchedPolicy::Pct: {
          if (kind == 2) cur->prio = --min_prio;
          if (kind == 0 && cur_ok) cur->prio = --min_prio;
          Fiber * b = r[0];
          for (int i = 1; i < n; ++i)
            if (r[i]->prio > b->prio) b = r[i];
          ch = b;
          // rare random disturbance keeps every schedule fair in the long run
          if (srng.below(64) == 0) ch = r[srng.below(n)];
          break;
        }
      }
    }
  }
  if (rec && ch != def) rec->push_back(Deviation{g_points, ch->id});
  cnt.sched_hash = (cnt.sched_hash ^ (g_points * 1315423911ull + static_cast<uint64_t>(ch->id))) * 1099511628211ull;
  arm_stop();
  if (ch != cur) {
    if (kind == 0) ++cnt.preemptions;
    switch_to(ch);
  }
}

void fiber_main()
{
  Fiber * f = cur;
  if (f->start) {
    f->ret = f->start(f->arg);
  } else {
    f->fn();
  }
  f->st = St::Done;
  g_np = 0;
  wake_all(f);
  if (f->id == 0) {
    do_exit_to_native();
  }
  ++g_points;
  decide(3);
  abort();
}
extern "C" void simrt_fiber_entry() noexcept { fiber_main(); abort(); }

Fiber * new_fiber(const char * name)
{
  NoPreempt np;
  Fiber * f = new Fiber;
  f->id = static_cast<int>(fibers.size());
  if (f->id >= 250) fatal(Fatal::StepCap, "too many threads");
  f->name = name;
  f->stack_size = 1 << 20;
  f->stack = static_cast<char *>(mmap(nullptr, f->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  mprotect(f->stack, 4096, PROT_NONE);
  uint64_t * sp = reinterpret_cast<uint64_t *>(f->stack + f->stack_size);
  *--sp = 0;                                               // alignment / fake return
  *--sp = reinterpret_cast<uint64_t>(&simrt_fiber_entry);  // ret
  for (int i = 0; i < 6; ++i) *--sp = 0;
  --sp;
  uint32_t mxcsr; uint16_t fcw;
  asm volatile("stmxcsr %0" : "=m"(mxcsr));
  asm volatile("fnstcw %0" : "=m"(fcw));
  reinterpret_cast<uint32_t *>(sp)[0] = mxcsr;
  reinterpret_cast<uint32_t *>(sp)[1] = fcw;
  f->sp = sp;
  f->prio = (1ull << 41) + srng.below(1ull << 40);
  fibers.push_back(f);
  return f;
}

void segv_handler(int sig, siginfo_t * si, void *)
{
  if (in_fatal) _exit(98);
  g_np = 1 << 20;
  char b[64];
  snprintf(b, sizeof b, "signal %d addr %p", sig, si ? si->si_addr : nullptr);
  fatal(sig == SIGABRT ? Fatal::Abort : Fatal::Segv, "%s", b);
}
void * throw_bt[48];
int throw_n = 0, throw_fiber = -2;
std::string throw_what;
std::string fatal_stack, symbolise(void ** bt, int n);
void on_terminate()
{
  g_np = 1 << 20;
  const char * what = "";
  static std::string s;
  try {
    if (auto e = std::current_exception()) std::rethrow_exception(e);
  } catch (const std::exception & e) { s = e.what(); what = s.c_str(); } catch (...) { what = "non-std exception"; }
  if (throw_fiber == (cur ? cur->id : -1) && throw_n) fatal_stack = symbolise(throw_bt, throw_n);
  if (!*what && throw_fiber == (cur ? cur->id : -1)) what = throw_what.c_str();
  fatal(Fatal::Terminate, "std::terminate in thread '%s': %s", cur ? cur->name.c_str() : "?", what);
}
char altstack[65536];
}  // namespace

void record_schedule(std::vector<Deviation> * out) { rec = out; }
void replay_schedule(const std::vector<Deviation> * in) { rep = in; rep_i = 0; }

const char * fatal_name(Fatal f)
{
  switch (f) {
    case Fatal::Deadlock: return "deadlock";
    case Fatal::StepCap: return "step-cap";
    case Fatal::TimeCap: return "time-cap";
    case Fatal::UseAfterFree: return "use-after-free";
    case Fatal::HeapOverflow: return "heap-overflow";
    case Fatal::DoubleFree: return "double-free";
    case Fatal::Segv: return "segfault";
    case Fatal::Terminate: return "terminate";
    case Fatal::Abort: return "abort";
    case Fatal::Stuck: return "stuck";
  }
  return "?";
}
void set_fatal_handler(void (*h)(Fatal, const char *)) { fatal_handler = h; }
void fatal(Fatal f, const char * fmt, ...)
{
  g_np = 1 << 20;
  static char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (in_fatal) {
    fprintf(stderr, "FATAL(nested) %s: %s\n", fatal_name(f), buf);
    _exit(97);
  }
  in_fatal = true;
  if (fatal_handler) fatal_handler(f, buf);
  fprintf(stderr, "FATAL %s: %s\n", fatal_name(f), buf);
  _exit(96);
}

bool active() { return g_sim_active; }
uint64_t seq() { return g_seq; }
uint64_t bump_seq() { return ++g_seq; }
int64_t now_ns() { return t_now; }
int64_t wall_ns() { return t_now + wall_off; }
void jump_wall(int64_t d) { wall_off += d; }
int current_fiber() { return cur ? cur->id : 0; }
const char * fiber_name(int id) { return id >= 0 && id < (int)fibers.size() ? fibers[id]->name.c_str() : "?"; }
const char * current_fiber_name() { return cur ? cur->name.c_str() : "native"; }
void set_fiber_name(const char * n) { NoPreempt np; if (cur) cur->name = n; }
void set_next_fiber_name(const char * n) { NoPreempt np; if (cur) cur->next_name = n; }
int fibers_alive()
{
  int n = 0;
  for (auto f : fibers) n += f->st != St::Done;
  return n;
}
std::string dump_fibers()
{
  NoPreempt np;
  std::string s;
  for (auto f : fibers) {
    if (f->st == St::Done) continue;
    s += "[" + f->name + ": " + (f->st == St::Runnable ? "runnable" : std::string("blocked on ") + f->wait_what) + "]";
    if (f->st == St::Blocked && f->wait_what && (!strcmp(f->wait_what, "mutex"))) {
      auto * m = static_cast<const pthread_mutex_t *>(f->wait_obj);
      int ow = m->__data.__owner;
      s += "(held by " + std::string(fiber_name(ow - 1)) + ")";
    }
  }
  return s;
}

void access_slow()
{
  if (g_points - last_advance_points >= 400000000ull) fatal(Fatal::Stuck, "thread '%s' spins without any progress of time", cur->name.c_str());
  decide(0);
}
void sync_point(const char *)
{
  if (!g_sim_active || g_np > 0) return;
  ++cnt.sync_ops;
  ++g_points;
  t_now += static_cast<int64_t>(cfg.sync_cost_ns);
  last_advance_points = g_points;
  decide(1);
}
void yield_point()
{
  if (!g_sim_active || g_np > 0) return;
  ++g_points;
  ++cur->yields;
  t_now += static_cast<int64_t>(cfg.sync_cost_ns);
  last_advance_points = g_points;
  decide(2);
}
uint64_t blocked_count() { return cur ? cur->blocks : 0; }
uint64_t yield_count() { return cur ? cur->yields : 0; }
bool wait_on(const void * obj, int64_t deadline, const char * what)
{
  if (!g_sim_active) return false;
  int np = g_np;
  g_np = 0;
  ++cur->blocks;
  cur->st = St::Blocked;
  cur->wait_obj = obj;
  cur->wait_what = what;
  cur->deadline = deadline;
  cur->timed_out = false;
  ++g_points;
  decide(3);
  // running again
  bool to = cur->timed_out;
  cur->wait_obj = nullptr;
  cur->wait_what = "";
  cur->deadline = -1;
  cur->timed_out = false;
  g_np = np;
  return !to;
}
void wake_all(const void * obj)
{
  for (Fiber * f : fibers)
    if (f->st == St::Blocked && f->wait_obj == obj) { f->st = St::Runnable; f->timed_out = false; }
}
void wake_one(const void * obj)
{
  Fiber * w[256]; int n = 0;
  for (Fiber * f : fibers)
    if (f->st == St::Blocked && f->wait_obj == obj) w[n++] = f;
  if (n) { Fiber * f = w[rep ? 0 : srng.below(n)]; f->st = St::Runnable; f->timed_out = false; }
}
void sleep_until_ns(int64_t t)
{
  if (!g_sim_active) return;
  if (cfg.wake_latency_max_ns) t += static_cast<int64_t>(wrng.below(cfg.wake_latency_max_ns));
  if (t <= t_now) { yield_point(); return; }
  static const char sleep_obj = 0;
  int64_t tt = t;
  while (t_now < tt) wait_on(&sleep_obj, tt, "sleep");
}
void sleep_ns(int64_t ns) { sleep_until_ns(t_now + (ns > 0 ? ns : 0)); }
void spend_ns(int64_t ns)
{
  if (!g_sim_active || ns <= 0) return;
  static const char busy_obj = 0;
  int64_t tt = t_now + ns;
  while (t_now < tt) wait_on(&busy_obj, tt, "busy");
}
int spawn(const char * name, std::function<void()> fn)
{
  Fiber * f = new_fiber(name);
  f->fn = std::move(fn);
  return f->id;
}
bool finished(int id) { return fibers[id]->st == St::Done; }
void join(int id)
{
  Fiber * f = fibers[id];
  while (f->st != St::Done) wait_on(f, -1, "join");
}
NoPreempt::NoPreempt() { ++g_np; }
NoPreempt::~NoPreempt() { --g_np; }
int np_depth() { return g_np; }
void np_set(int d) { g_np = d; }
const Counters & counters() { cnt.accesses = g_points; return cnt; }
Rng & workload_rng() { return wrng; }
void hash_mix(uint64_t v) { cnt.sched_hash = (cnt.sched_hash ^ v) * 1099511628211ull; }

void install_handlers()
{
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = segv_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}

void run(const SchedConfig & c, uint64_t seed, uint64_t wseed, std::function<void()> main_fn)
{
  cfg = c;
  srng.seed(seed);
  wrng.seed(wseed);
  cnt = Counters{};
  t_now = 1000ll * 1000000000ll;  // monotonic clock starts at 1000 s
  cfg.max_time_ns += t_now;
  g_points = 0;
  last_advance_points = 0;
  install_handlers();
  Fiber * f = new_fiber("main");
  f->fn = std::move(main_fn);
  native_eh = *ehg();
  cur = f;
  g_np = 0;
  arm_stop();
  __libc_single_threaded = 0;  // reference counts must use atomic operations: fibers preempt each other
  g_sim_active = true;
  simrt_switch(&native_sp, f->sp);
  g_sim_active = false;
}

double real_seconds()
{
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
void trace_enable(bool on) { tracing = on; }
bool trace_on() { return tracing; }
void tracef(const char * fmt, ...)
{
  if (!tracing) return;
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fprintf(stderr, "%11.6f %-14s %s\n", t_now * 1e-9 - 1000.0, cur ? cur->name.c_str() : "-", b);
}
namespace { std::string symbolise(void ** bt, int n)
{
  std::string s;
  for (int i = 2; i < n; ++i) {
    Dl_info di;
    if (dladdr(bt[i], &di) && di.dli_sname) {
      int st;
      char * d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
      std::string nm = d ? d : di.dli_sname;
      auto p = nm.find('(');
      if (p != std::string::npos && p > 0) nm = nm.substr(0, p);
      if (nm.rfind("simrt", 0) == 0 || nm.rfind("__tsan", 0) == 0 || nm.rfind("std::", 0) == 0 || nm.rfind("void std::", 0) == 0) continue;
      if (!s.empty()) s += " < ";
      s += nm;
      if (s.size() > 900) break;
    }
  }
  return s;
}
}
void record_throw(void * obj, void * tinfo)
{
  NoPreempt np;
  throw_what.clear();
  void * p = obj;
  if (tinfo && typeid(std::exception).__do_catch(static_cast<std::type_info *>(tinfo), &p, 1)) throw_what = static_cast<std::exception *>(p)->what();
  throw_n = backtrace(throw_bt, 48);
  throw_fiber = cur ? cur->id : -1;
  if (tracing) tracef("throw: %s", symbolise(throw_bt, throw_n).c_str());
}
std::string shadow_stack()
{
  NoPreempt np;
  if (!fatal_stack.empty()) return fatal_stack;
  void * bt[48];
  int n = backtrace(bt, 48);
  return symbolise(bt, n);
}
}  // namespace simrt

// =====================================================================  interposed libc / pthread
using namespace simrt;
static inline int me() { return (g_sim_active && simrt::cur) ? simrt::cur->id + 1 : 1; }
static int64_t ts_ns(const timespec * t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
static int64_t deadline_of(clockid_t c, const timespec * t)
{
  int64_t a = ts_ns(t);
  if (c == CLOCK_REALTIME) a -= (wall_ns() - now_ns());
  return a < 0 ? 0 : a;
}

extern "C" {
// ---- clocks
int clock_gettime(clockid_t c, struct timespec * ts) noexcept
{
  if (!g_sim_active) return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
  sync_point("clock");
  int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_ns() : now_ns();
  ts->tv_sec = t / 1000000000ll;
  ts->tv_nsec = t % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval * tv, void *) noexcept
{
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t * o) noexcept
{
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec * req, struct timespec *)
{
  if (!g_sim_active) return static_cast<int>(syscall(SYS_nanosleep, req, nullptr));
  sleep_ns(ts_ns(req));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec * req, struct timespec *)
{
  if (!g_sim_active) return static_cast<int>(syscall(SYS_clock_nanosleep, c, flags, req, nullptr));
  if (flags & TIMER_ABSTIME) sleep_until_ns(deadline_of(c, req)); else sleep_ns(ts_ns(req));
  return 0;
}
int usleep(useconds_t u)
{
  if (g_sim_active) { sleep_ns(static_cast<int64_t>(u) * 1000); return 0; }
  timespec t{static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000};
  return static_cast<int>(syscall(SYS_nanosleep, &t, nullptr));
}
int sched_yield(void) noexcept { yield_point(); return 0; }

// ---- threads
int pthread_create(pthread_t * th, const pthread_attr_t *, void * (*fn)(void *), void * arg) noexcept
{
  if (!g_sim_active) { fprintf(stderr, "pthread_create outside simulation\n"); _exit(95); }
  Fiber * f;
  {
    NoPreempt np;
    std::string nm = cur->next_name.empty() ? ("thr" + std::to_string(fibers.size())) : cur->next_name;
    cur->next_name.clear();
    f = new_fiber(nm.c_str());
    f->start = fn;
    f->arg = arg;
    *th = static_cast<pthread_t>(0x7000000 + f->id);
  }
  sync_point("create");
  return 0;
}
int pthread_join(pthread_t th, void ** ret)
{
  sync_point("join");
  int id = static_cast<int>(th - 0x7000000);
  if (id < 0 || id >= (int)fibers.size()) return ESRCH;
  if (fibers[id] == cur) return EDEADLK;
  simrt::join(id);
  if (ret) *ret = fibers[id]->ret;
  return 0;
}
int pthread_detach(pthread_t) noexcept { return 0; }
pthread_t pthread_self(void) noexcept { return static_cast<pthread_t>(0x7000000 + (g_sim_active && cur ? cur->id : 0)); }
int pthread_setname_np(pthread_t th, const char * n) noexcept
{
  NoPreempt np;
  int id = static_cast<int>(th - 0x7000000);
  if (id >= 0 && id < (int)fibers.size()) fibers[id]->name = n;
  return 0;
}

// ---- mutex
static int mtx_lock(pthread_mutex_t * m, bool try_only, int64_t deadline)
{
  if (g_np == 0) sync_point("mutex");
  auto & d = m->__data;
  int self = me();
  if (d.__owner == self) {
    if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++d.__count; return 0; }
    if (try_only) return EBUSY;
    if (!g_sim_active) return 0;
    if ((d.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    fatal(Fatal::Deadlock, "thread '%s' locks a mutex it already holds; %s", current_fiber_name(), shadow_stack().c_str());
  }
  while (d.__owner != 0) {
    if (try_only) return EBUSY;
    if (!g_sim_active) return 0;
    if (!wait_on(m, deadline, "mutex") && deadline >= 0) {
      if (d.__owner == 0) break;
      return ETIMEDOUT;
    }
  }
  d.__owner = self;
  d.__count = 1;
  return 0;
}
int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) noexcept
{
  int kind = 0;
  if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); kind = t; }
  memset(m, 0, sizeof *m);
  m->__data.__kind = kind;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t * m) noexcept { return mtx_lock(m, false, -1); }
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept { return mtx_lock(m, true, -1); }
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * t) noexcept { return mtx_lock(m, false, deadline_of(CLOCK_REALTIME, t)); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * t) noexcept { return mtx_lock(m, false, deadline_of(c, t)); }
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
  auto & d = m->__data;
  if (d.__owner != me()) return EPERM;
  if (--d.__count == 0) {
    d.__owner = 0;
    if (g_sim_active) { wake_all(m); if (g_np == 0) sync_point("unlock"); }
  }
  return 0;
}
// ---- condition variables
static int cnd_wait(pthread_cond_t * c, pthread_mutex_t * m, int64_t deadline)
{
  if (!g_sim_active) return 0;
  auto & d = m->__data;
  unsigned save = d.__count;
  d.__owner = 0;
  d.__count = 0;
  wake_all(m);
  bool ok = true;
  if (cfg.spurious_wake_prob > 0 && wrng.chance(cfg.spurious_wake_prob)) {
    ++cnt.spurious;
    int np = g_np; g_np = 0;
    yield_point();
    g_np = np;
  } else {
    ok = wait_on(c, deadline, "condvar");
  }
  while (d.__owner != 0) wait_on(m, -1, "mutex");
  d.__owner = me();
  d.__count = save;
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t *) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return cnd_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { return cnd_wait(c, m, deadline_of(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) { return cnd_wait(c, m, deadline_of(k, t)); }
int pthread_cond_signal(pthread_cond_t * c) noexcept { if (g_sim_active) { wake_one(c); sync_point("signal"); } return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) noexcept { if (g_sim_active) { wake_all(c); sync_point("broadcast"); } return 0; }
// ---- rwlock
static int rw_lock(pthread_rwlock_t * l, bool wr, bool try_only, int64_t deadline)
{
  if (g_np == 0) sync_point("rwlock");
  auto & d = l->__data;
  int self = me();
  for (;;) {
    if (wr) {
      if (d.__cur_writer == 0 && d.__readers == 0) { d.__cur_writer = self; return 0; }
    } else {
      if (d.__cur_writer == 0) { ++d.__readers; return 0; }
    }
    if (try_only) return EBUSY;
    if (d.__cur_writer == self) {
      if (!g_sim_active) return 0;
      fatal(Fatal::Deadlock, "thread '%s' locks a rwlock it already holds; %s", current_fiber_name(), shadow_stack().c_str());
    }
    if (!g_sim_active) return 0;
    if (!wait_on(l, deadline, "rwlock") && deadline >= 0) return ETIMEDOUT;
  }
}
int pthread_rwlock_init(pthread_rwlock_t * l, const pthread_rwlockattr_t *) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t * l) noexcept { return rw_lock(l, false, false, -1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) noexcept { return rw_lock(l, false, true, -1); }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) noexcept { return rw_lock(l, true, false, -1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) noexcept { return rw_lock(l, true, true, -1); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t * l, const struct timespec * t) noexcept { return rw_lock(l, false, false, deadline_of(CLOCK_REALTIME, t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t * l, const struct timespec * t) noexcept { return rw_lock(l, true, false, deadline_of(CLOCK_REALTIME, t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t * l, clockid_t c, const struct timespec * t) noexcept { return rw_lock(l, false, false, deadline_of(c, t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t * l, clockid_t c, const struct timespec * t) noexcept { return rw_lock(l, true, false, deadline_of(c, t)); }
int pthread_rwlock_unlock(pthread_rwlock_t * l) noexcept
{
  auto & d = l->__data;
  if (d.__cur_writer == me()) d.__cur_writer = 0;
  else if (d.__readers > 0) --d.__readers;
  if (g_sim_active) { wake_all(l); if (g_np == 0) sync_point("rwunlock"); }
  return 0;
}
void __cxa_throw(void *, void *, void (*)(void *)) __attribute__((noreturn));
void __cxa_throw(void * obj, void * tinfo, void (*dest)(void *))
{
  static auto real = reinterpret_cast<void (*)(void *, void *, void (*)(void *))>(dlsym(RTLD_NEXT, "__cxa_throw"));
  if (g_sim_active) record_throw(obj, tinfo);
  real(obj, tinfo, dest);
  __builtin_unreachable();
}
// ---- static local initialisation
int __cxa_guard_acquire(long long int * g)
{
  uint8_t * b = reinterpret_cast<uint8_t *>(g);
  while (true) {
    if (b[0]) return 0;
    if (b[1] == 0) { b[1] = 1; return 1; }
    if (!g_sim_active) return 1;
    wait_on(g, -1, "static-init");
  }
}
void __cxa_guard_release(long long int * g)
{
  uint8_t * b = reinterpret_cast<uint8_t *>(g);
  b[1] = 0;
  b[0] = 1;
  if (g_sim_active) wake_all(g);
}
void __cxa_guard_abort(long long int * g)
{
  reinterpret_cast<uint8_t *>(g)[1] = 0;
  if (g_sim_active) wake_all(g);
}
int pthread_once(pthread_once_t * o, void (*fn)(void))
{
  if (*o == 2) return 0;
  while (*o == 1) wait_on(o, -1, "once");
  if (*o == 2) return 0;
  *o = 1;
  fn();
  *o = 2;
  wake_all(o);
  return 0;
}
}
