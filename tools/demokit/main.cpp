#include "demo.hpp"
#include <cstdlib>
int main(int argc, char ** argv)
{
  alarm(120);
  demo_plugins();
  simrt::set_fatal_handler([](simrt::Fatal f, const char * d) {
    printf("DEMO FAILED: %s %s\n", simrt::fatal_name(f), d);
    fflush(stdout);
    _exit(1);
  });
  simros::set_rt(false, true);
  if (getenv("DEMO_LOG"))
    simros::set_log_hook([](int lvl, const char *, const char * msg) { printf("[%d %s] %s\n", lvl, simrt::current_fiber_name(), msg); });
  uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
  simrt::SchedConfig cfg;
  cfg.policy = simrt::SchedPolicy::Sticky;
  cfg.sync_switch_prob = 0.05;
  cfg.preempt_mean = argc > 2 ? strtoull(argv[2], nullptr, 10) : 0;
  simrt::run(cfg, seed, seed, []() {
    rclcpp::init(0, nullptr);
    int rc = scenario();
    printf(rc ? "DEMO FAILED\n" : "DEMO OK\n");
    fflush(stdout);
    _exit(rc);
  });
  return 3;
}
