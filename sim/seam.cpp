#include "seam.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstring>

namespace seam
{
static int64_t g_now = 1600000000000000000LL, g_tick = 1000;
static int g_mode = 0;
static uint64_t g_cs = 1, g_reads = 0;
uint64_t fired[16];

void clock_init(int64_t start_ns, int64_t tick_ns, int mode, uint64_t seed)
{
  g_now = start_ns; g_tick = tick_ns; g_mode = mode; g_cs = seed | 1; g_reads = 0;
}
void clock_jump(int64_t ns) {g_now += ns;}
int64_t clock_now() {return g_now;}
uint64_t clock_reads() {return g_reads;}

static int64_t tick()
{
  ++g_reads;
  if (g_mode == 0) {
    g_now += g_tick;
  } else if (g_mode == 1) {                // frozen
  } else {                                 // erratic: forwards and backwards
    g_cs ^= g_cs << 13; g_cs ^= g_cs >> 7; g_cs ^= g_cs << 17;
    g_now += static_cast<int64_t>(g_cs % 4000000000ull) - 1000000000LL;
  }
  return g_now;
}

static std::string g_root;
static bool g_fd[4096];
static int g_kind = 0, g_count = 0, g_arg = 0;
static int g_next[3] = {0, 0, 0};
static long g_fault_at = -1, g_calls = 0;
static long g_writes = 0, g_crash_at = -1, g_crash_bytes = 0;

void disk_init(const std::string & root)
{
  g_root = root;
  std::memset(g_fd, 0, sizeof g_fd);
  g_kind = 0; g_count = 0; g_writes = 0; g_crash_at = -1; g_fault_at = -1; g_calls = 0;
}
void disk_fault(int kind, int count, int arg) {g_kind = kind; g_count = count; g_arg = arg;}
void disk_fault_at(long n, int kind, int count, int arg)
{
  g_fault_at = g_calls + n; g_next[0] = kind; g_next[1] = count; g_next[2] = arg;
}
static void disk_call()
{
  if (g_calls++ == g_fault_at) {disk_fault(g_next[0], g_next[1], g_next[2]);}
}
void disk_crash_at(long n, long bytes) {g_crash_at = n; g_crash_bytes = bytes;}
long disk_writes() {return g_writes;}

static bool ours(const char * p)
{
  return p && !g_root.empty() && std::strncmp(p, g_root.c_str(), g_root.size()) == 0;
}

static int open_fault()
{
  disk_call();
  if (g_count > 0 && g_kind >= D_OPEN_ENOENT) {
    --g_count;
    ++fired[g_kind];
    return g_kind == D_OPEN_ENOENT ? ENOENT : g_kind == D_OPEN_EACCES ? EACCES : EMFILE;
  }
  return 0;
}
}  // namespace seam

using namespace seam;

template<class F> static F real(const char * n) {return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));}

extern "C" FILE * fopen64(const char * path, const char * mode)
{
  static auto f = real<FILE * (*)(const char *, const char *)>("fopen64");
  if (ours(path)) {
    if (int e = open_fault()) {errno = e; return nullptr;}
  }
  FILE * r = f(path, mode);
  if (r && fileno(r) < 4096) {g_fd[fileno(r)] = ours(path);}
  return r;
}

extern "C" FILE * fopen(const char * path, const char * mode) {return fopen64(path, mode);}

extern "C" int open64(const char * path, int flags, ...)
{
  static auto f = real<int (*)(const char *, int, ...)>("open64");
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (ours(path)) {
    if (int e = open_fault()) {errno = e; return -1;}
  }
  int r = f(path, flags, mode);
  if (r >= 0 && r < 4096) {g_fd[r] = ours(path);}
  return r;
}

static ssize_t raw_write(int fd, const void * b, size_t n)
{
  static auto f = real<ssize_t (*)(int, const void *, size_t)>("write");
  return f(fd, b, n);
}

static ssize_t do_write(int fd, const char * b, size_t n)
{
  ++g_writes;
  disk_call();
  if (g_crash_at == g_writes) {
    size_t k = std::min<size_t>(n, static_cast<size_t>(g_crash_bytes));
    if (k) {raw_write(fd, b, k);}
    _exit(77);
  }
  if (g_count > 0 && g_kind > 0 && g_kind < D_OPEN_ENOENT) {
    --g_count;
    ++fired[g_kind];
    switch (g_kind) {
      case D_ENOSPC:
        if (g_arg > 0 && n > 1) {          // the disk fills up in the middle of the write
          return raw_write(fd, b, std::min<size_t>(static_cast<size_t>(g_arg), n - 1));
        }
        errno = ENOSPC; return -1;
      case D_EIO: errno = EIO; return -1;
      case D_SHORT: return raw_write(fd, b, n > 1 ? std::max<size_t>(1, n / 3) : n);
      case D_EINTR: errno = EINTR; return -1;
      case D_STALL: clock_jump(static_cast<int64_t>(g_arg) * 1000000000LL); break;
      default: break;
    }
  }
  return raw_write(fd, b, n);
}

extern "C" ssize_t write(int fd, const void * b, size_t n)
{
  if (fd >= 0 && fd < 4096 && g_fd[fd]) {return do_write(fd, static_cast<const char *>(b), n);}
  return raw_write(fd, b, n);
}

extern "C" ssize_t writev(int fd, const struct iovec * v, int c)
{
  static auto f = real<ssize_t (*)(int, const struct iovec *, int)>("writev");
  if (fd >= 0 && fd < 4096 && g_fd[fd]) {
    std::string s;
    for (int i = 0; i < c; ++i) {s.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);}
    return do_write(fd, s.data(), s.size());
  }
  return f(fd, v, c);
}

extern "C" int close(int fd)
{
  static auto f = real<int (*)(int)>("close");
  if (fd >= 0 && fd < 4096) {g_fd[fd] = false;}
  return f(fd);
}

namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
  return time_point(duration(seam::tick()));
}
steady_clock::time_point steady_clock::now() noexcept
{
  return time_point(duration(seam::tick()));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
