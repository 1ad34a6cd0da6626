// Small helpers shared by the enumerating harnesses (not the explorer).
#pragma once
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>

#include <tiny/optional.h>

namespace vh
{
template <class T>
using rcvr = std::remove_cv_t<std::remove_reference_t<T>>;

// Makes the compiler forget what it knows about the memory at p.
inline void opaque(void const volatile * p) { asm volatile("" : : "r"(p) : "memory"); }

inline std::string gCtx = "start";
inline std::string gName = "?";
inline std::string gOnly, gReplay;
inline int gShard = 0, gShards = 1;
inline int gTier = 0;
inline long gFails = 0;

struct Counts
{
  long states = 0, transitions = 0, executions = 0;
};
inline Counts gC;

inline void fail(char const * cat, std::string const & path, std::string const & msg)
{
  if (++gFails <= 20) {
    std::printf("FAIL|%s|%s|%s|%s\n", cat, gName.c_str(), path.c_str(), msg.c_str());
    std::fflush(stdout);
  }
}
inline char gSigBuf[1024];
[[noreturn]] inline void die(char const * why)
{
  int n = std::snprintf(gSigBuf, sizeof gSigBuf, "FAIL|CRASH|%s|%s|%s\n", gName.c_str(), gCtx.c_str(), why);
  (void)!::write(1, gSigBuf, static_cast<std::size_t>(n));
  ::_exit(1);
}
inline void onSig(int s)
{
  die(s == SIGABRT ? "abort() (assertion failed or terminate)" : s == SIGALRM ? "did not terminate" : s == SIGILL ? "SIGILL" : "invalid memory access");
}
inline void setup(int argc, char ** argv)
{
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) {
    std::signal(s, onSig);
  }
  std::set_terminate([] { die("std::terminate() was called"); });
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--only=", 0) == 0) gOnly = a.substr(7);
    else if (a.rfind("--replay=", 0) == 0) gReplay = a.substr(9);
    else if (a.rfind("--tier=", 0) == 0) gTier = std::atoi(a.c_str() + 7);
    else if (a.rfind("--shard=", 0) == 0) std::sscanf(a.c_str() + 8, "%d/%d", &gShard, &gShards);
  }
}
inline bool begin(std::string const & name)
{
  if (!gOnly.empty() && gOnly != name) {
    return false;
  }
  gName = name;
  gCtx = "start";
  gC = Counts{};
  return true;
}
inline void stat(char const * extra = "")
{
  std::printf("STAT|%s|states=%ld|transitions=%ld|executions=%ld%s\n", gName.c_str(), gC.states, gC.transitions, gC.executions, extra);
  std::fflush(stdout);
}
inline void sample(std::string const & s)
{
  std::printf("SAMPLE|%s|%s\n", gName.c_str(), s.c_str());
}
inline int finish() { return gFails ? 1 : 0; }
} // namespace vh
