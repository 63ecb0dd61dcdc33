// Controlled scheduler below code compiled with -fsanitize=thread.
//
// The compiler's instrumentation calls land in tsanrt.cpp instead of the ThreadSanitizer runtime. Program
// threads are real threads, but exactly one runs at any time; at every visible step (access to static or
// thread-local data, to memory another thread has touched, atomics, locks, stream output) the exploration
// decides which thread takes the next step. Happens-before race detection with vector clocks runs along.
#ifndef TSANRT_HPP_
#define TSANRT_HPP_
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>
#include "mc.hpp"

namespace rt
{
struct Options
{
  int preemptions = 2;          // switches away from a thread that could have continued
  bool tls_visible = false;     // accesses to thread-local data are scheduling points
  bool reads_visible = true;    // plain reads of static data are scheduling points
  bool stdio_visible = true;
};
struct Output {int thread; int fd; std::string text;};
struct Report
{
  std::string race;             // empty: none
  std::string deadlock;
  std::vector<Output> out;      // writes to stdout / stderr in their order
  uint64_t steps = 0, points = 0, switches = 0, accesses = 0, sync = 0;
};
// Runs all bodies to completion under one schedule drawn from c.
Report run(mc::Ctx & c, const std::vector<std::function<void()>> & bodies, const Options & o);
// global order stamp, for histories; callable from bodies
uint64_t stamp();
// instrumentation is ignored while one of these lives (harness code inside a body)
struct Quiet
{
  Quiet();
  ~Quiet();
};
// number of the running body, or -1
int self();
}  // namespace rt
#endif  // TSANRT_HPP_
