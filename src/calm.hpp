// C48: a call that succeeds leaves the error state of the thread as it found it. arm() puts it into one of two
// states, check() compares. C52 and C53 share its way of going over the explorations of other properties.
#ifndef CALM_HPP_
#define CALM_HPP_
#include "mc.hpp"
#include "rcutils/error_handling.h"

namespace calm
{
inline std::string part;          // whose exploration it is
inline int mode = 0;              // 1: an error is already set when the library is called
inline bool on()
{
  static const bool b = mc::cfg().prop == "C48";
  return b;
}
// other properties that go over the explorations of all the others, at smaller bounds
inline bool pass()
{
  static const bool b = on() || mc::cfg().prop == "C52" || mc::cfg().prop == "C53";
  return b;
}
inline void arm()
{
  (rcutils_reset_error)();
  if (mode) {rcutils_set_error_state("an earlier error", "elsewhere.c", 77);}
}
// an error appeared, or the earlier one is no longer what it was
inline bool changed()
{
  bool set = rcutils_error_is_set();
  if (!mode) {return set;}
  const rcutils_error_state_t * s = set ? rcutils_get_error_state() : nullptr;
  return !s || strcmp(s->message, "an earlier error") || strcmp(s->file, "elsewhere.c") || s->line_number != 77;
}
inline void check(const char * what)
{
  if (!changed()) {return;}
  bool set = rcutils_error_is_set();
  std::string now = set ? rcutils_get_error_string().str : "no error";
  (rcutils_reset_error)();
  if (mode) {mc::fail("calm:earlier", "%s succeeded, but an earlier error became %s", what, mc::q(now).c_str());}
  mc::fail("calm:set", "%s succeeded, but left the error %s", what, mc::q(now).c_str());
}
// Registers a task; for C48 twice, each execution of it ends in a comparison of the error state.
inline void dfs(
  const std::string & name, std::function<void(mc::Ctx &)> body, int nshards = 1, int shard_depth = 2)
{
  if (!on()) {
    mc::dfs(pass() ? part + " " + name : name, body, nshards, shard_depth);
    return;
  }
  for (int m = 0; m < 2; ++m) {
    mc::dfs(
      part + " " + name + (m ? " (earlier error)" : " (no error)"), [=](mc::Ctx & c) {
        mode = m;
        arm();
        body(c);
        check("everything that was called");
      }, nshards, shard_depth);
  }
}
// what a harness does for the given properties, instead of for C48 and its like
inline std::vector<std::string> parts(std::vector<std::string> those, std::vector<std::string> more = {})
{
  if (!pass()) {return {mc::cfg().prop};}
  if (!on()) {those.insert(those.end(), more.begin(), more.end());}
  return those;
}
// tasks of which only a part is wanted
inline bool light() {return pass() && !mc::cfg().thorough;}
}  // namespace calm
#define rcutils_error_is_set() (calm::on() ? calm::changed() : (rcutils_error_is_set)())
// what a harness does after a call that failed as expected
#define rcutils_reset_error() (calm::on() ? calm::arm() : (rcutils_reset_error)())
#endif  // CALM_HPP_
