#pragma once
#include <functional>
#include <string>
extern volatile int * g_progress;               // operation under way, shared with the parent
extern std::string g_self, g_sim_bin, g_repo;
int in_child(const std::function<std::string()> & fn, std::string & out, int cpu_s);
