#include "checks.hpp"
#include "exec.hpp"

void (* g_run_ros)(const Plan &, const std::string &, RunOut &) = nullptr;

RunOut run_plan(const Plan & p, const std::string & dir)
{
  RunOut out;
  const std::string & P = p.prop;
  if (P == "C16" && p.cfg.extra.count("app")) {run_repro(p, dir, out); return out;}
  if (P == "C07") {run_root(p, dir, out);} else if (P == "C14" || P == "C16" || P == "C19" || (P == "C20" && p.profile == 2)) {run_twin(p, dir, out);
  } else if (P == "C15") {run_crash(p, dir, out);} else if (P == "C13" && p.profile == 1) {run_datalog(p, dir, out);
  } else if (P == "C17") {run_streams(p, dir, out);
  } else if (P == "C22") {run_app(p, dir, out);
  } else if (P == "C21") {run_images(p, dir, out);
  } else if (P == "C25") {
    if (!g_run_ros) {std::fprintf(stderr, "this binary has no node\n"); std::exit(3);}
    g_run_ros(p, dir, out);
  } else if (P == "C18") {run_recover(p, dir, out);
  } else {run_refine(p, dir, out);}
  return out;
}
