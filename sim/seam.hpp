// The seams: wall clock and disk.  Everything the code under test learns about either goes
// through here, and every answer is decided by the plan.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace seam
{
enum DiskFault
{
  D_NONE = 0, D_ENOSPC = 1, D_EIO = 2, D_SHORT = 3, D_EINTR = 4, D_STALL = 5, D_CRASH = 6,
  D_OPEN_ENOENT = 7, D_OPEN_EACCES = 8, D_OPEN_EMFILE = 9
};

void clock_init(int64_t start_ns, int64_t tick_ns, int mode, uint64_t seed);
void clock_jump(int64_t ns);
int64_t clock_now();
uint64_t clock_reads();

// Watch files below this directory.  Empty: watch nothing.
void disk_init(const std::string & root);
// The next `count` matching calls suffer fault `kind`; `arg` is kind specific (bytes let through).
void disk_fault(int kind, int count, int arg);
// The same, from the n-th call on.
void disk_fault_at(long n, int kind, int count, int arg);
// Crash (exit 77 without any clean-up) at the n-th write, after `bytes` of it.
void disk_crash_at(long n, long bytes);
long disk_writes();
extern uint64_t fired[16];                 // faults that really fired, by kind
}  // namespace seam
