// Oracles: one-step refinement against the reference model, invariants, twins, log and crash checks.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "plan.hpp"
#include "ref.hpp"

struct RunOut
{
  bool viol{false};
  std::string what;          // violated clause, stable under minimisation up to numbers
  std::string cls;           // violation class: used to keep the minimiser on the same failure
  int op{-1};
  uint64_t hash{1469598103934665603ull};
  std::map<std::string, double> cnt;
  std::set<uint64_t> states;
};

inline void mix(uint64_t & h, uint64_t v)
{
  for (int i = 0; i < 8; ++i) {h = (h ^ (v & 255)) * 1099511628211ull; v >>= 8;}
}
inline void mixd(uint64_t & h, double d) {uint64_t v; std::memcpy(&v, &d, 8); mix(h, v);}
uint64_t hash_obs(const Obs & o);
void mix_str(uint64_t & h, const std::string & s);

// Runs the plan in this process and evaluates the oracle of p.prop.  `dir` is a scratch directory
// (ending in '/') the run may fill.
RunOut run_plan(const Plan & p, const std::string & dir);

// Generate the plan of one seed.
Plan generate(const std::string & prop, uint64_t seed, bool thorough);

// Families (each fills RunOut)
void run_refine(const Plan & p, const std::string & dir, RunOut & out);
void run_twin(const Plan & p, const std::string & dir, RunOut & out);
void run_root(const Plan & p, const std::string & dir, RunOut & out);
void run_crash(const Plan & p, const std::string & dir, RunOut & out);
void run_datalog(const Plan & p, const std::string & dir, RunOut & out);
void run_recover(const Plan & p, const std::string & dir, RunOut & out);
void run_streams(const Plan & p, const std::string & dir, RunOut & out);
void run_images(const Plan & p, const std::string & dir, RunOut & out);
extern void (* g_run_ros)(const Plan &, const std::string &, RunOut &);   // linked into simros only
void run_app(const Plan & p, const std::string & dir, RunOut & out);
const char * status_text(int st, std::string & buf);
void run_repro(const Plan & p, const std::string & dir, RunOut & out);
int app_main(const std::vector<std::string> & a);

bool fail(RunOut & out, int op, const std::string & cls, const std::string & what);
std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));

// judgements shared by the families
std::string layout_error(const Obs & o, bool any_reg);
std::string finite_error(const Obs & o);
std::string cov_error(const Obs & o, double slack);
std::string step_error(const Obs & post, const RefResult & r);

// log directory helpers
std::map<std::string, std::string> read_logs(const std::string & dir);
std::vector<std::string> split(const std::string & s, char c);
void wipe_dir(const std::string & dir);
