#pragma once
#include <map>
#include <string>
#include <vector>
#include "plan.hpp"

struct Env
{
  int64_t clock_start{1600000000000000000LL};
  int clock_mode{0};
  uint64_t clock_seed{1};
  int perturb{0};            // pattern of fresh and freed heap memory and of the unused stack
  bool logs{false};
  int level{0};              // debug level
  bool faults{true};         // apply the plan's disk and clock operations
  bool full_stdout{false};
  int dups{0};               // 1: apply rejected registrations unobserved, 2: leave them out
  double shift{0};           // added to every time stamp
  int stop_at{-1};           // clean shutdown before this operation
  int kill_at{-1};           // die right after this operation
  long crash_write{-1}, crash_bytes{0};
  std::string dir;
};
struct Trace
{
  std::vector<uint64_t> h;   // observation after every operation
  int status{0};
  bool done{false};
  std::map<std::string, std::string> logs;
};
std::string trace_here(const Plan & p, const Env & e);
Trace trace_child(const Plan & p, const Env & e);
Trace trace_exec(const std::string & bin, const Plan & p, const Env & e, const std::string & tmp);
int trace_main(const std::vector<std::string> & a);
std::string log_diff(const std::map<std::string, std::string> & a, const std::map<std::string, std::string> & b);
