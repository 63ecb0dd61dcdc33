// C46: what is documented not to allocate memory does not allocate any.
struct Still
{
  Log & L;
  uint64_t total;
  int calls;
  size_t live;
  explicit Still(Log & l)
  : L(l), total(l.T.total), calls(l.T.calls), live(l.T.live.size())
  {
    wraps::watch = 1;
    wraps::direct_allocs = wraps::direct_frees = 0;
  }
  // none, or with `temp` only blocks that are given back
  void done(const char * what, bool temp = false)
  {
    wraps::watch = 0;
    int n = L.T.calls - calls + wraps::direct_allocs;
    MC_CHECK(
      n == 0 || temp, "still:allocates", "%s is documented not to allocate memory, but made %d allocator calls and %d "
      "direct ones", what, L.T.calls - calls, wraps::direct_allocs);
    MC_CHECK(
      n == 0 || L.T.live.size() == live, "still:retains", "%s is documented not to allocate memory, but %zu blocks "
      "are live instead of %zu", what, L.T.live.size(), live);
  }
  ~Still() {wraps::watch = 0;}
};
template<class F>
void still(Log & L, const std::string & what, F f, bool temp = false)
{
  Still s(L);
  f();
  s.done(what.c_str(), temp);
  rcutils_reset_error();
}
// The lookups of a logger by name copy the name and free the copy (known finding, judged by still_named).
bool temp_of(const char * name, const std::map<std::string, int> & set, bool by_length)
{
  if (!name) {return false;}
  if (by_length) {return *name != 0;}
  if (set.empty()) {return false;}
  auto it = set.find(name);
  return it == set.end() || !it->second;
}
void still_histories(mc::Ctx & c, int depth)
{
  static const char * const names[] = {nullptr, "", "a", "a.b", "a.b.c.d", "x.y", "ab"};
  Log L("still");
  int conf = c.choose(4);
  setenv("RCUTILS_COLORIZED_OUTPUT", conf & 1 ? "1" : "0", 1);
  if (conf & 2) {setenv("RCUTILS_LOGGING_USE_STDOUT", "1", 1);}
  L.up();
  std::map<std::string, int> set;       // loggers that have an entry
  int pre = c.choose(3);
  auto level = [&](const char * n, int v) {
      MC_CHECK(rcutils_logging_set_logger_level(n, v) == RCUTILS_RET_OK, "still:set", "setting a level failed");
      set[n] = v;
    };
  if (pre > 0) {level("a", 30);}
  if (pre > 1) {level("a.b", 10); level("x.y", 0);}
  c.note("configuration %d, %zu loggers with a level", conf, set.size());
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(12);
    const char * n = op >= 5 && op <= 9 ? names[c.choose(7)] : nullptr;
    std::string nm = n ? n : "(null)";
    switch (op) {
      case 0: still(L, "get_output_handler", [&] {(void)rcutils_logging_get_output_handler();}); break;
      case 1: still(L, "set_output_handler", [&] {rcutils_logging_set_output_handler(h1);}); break;
      case 2:
        still(L, "set_output_handler", [&] {rcutils_logging_set_output_handler(rcutils_logging_console_output_handler);});
        break;
      case 3: still(L, "get_default_logger_level", [&] {(void)rcutils_logging_get_default_logger_level();}); break;
      case 4: {
          int v = c.pick({0, 10, 50, 7});
          still(L, "set_default_logger_level", [&] {rcutils_logging_set_default_logger_level(v);});
          break;
        }
      case 5:
        still(
          L, "get_logger_level of " + nm, [&] {(void)rcutils_logging_get_logger_level(n);}, temp_of(n, set, true));
        break;
      case 6: {
          size_t len = n ? strlen(n) : 0;
          if (len > 1) {len = c.flip() ? len : 1;}
          still(
            L, "get_logger_leveln of " + nm, [&] {(void)rcutils_logging_get_logger_leveln(n, len);},
            temp_of(n, set, true));
          break;
        }
      case 7:
        still(
          L, "get_logger_effective_level of " + nm, [&] {(void)rcutils_logging_get_logger_effective_level(n);},
          temp_of(n, set, false));
        break;
      case 8:
        for (int sev : SEV) {
          still(
            L, "logger_is_enabled_for of " + nm, [&] {(void)rcutils_logging_logger_is_enabled_for(n, sev);},
            temp_of(n, set, false));
        }
        break;
      case 9: {
          int sev = c.pick({0, 10, 30, 50});
          still(L, "rcutils_log by " + nm, [&] {rcutils_log(&LOC1, sev, n, "text %d %s", 5, "x");}, temp_of(n, set, false));
          still(L, "rcutils_log_internal by " + nm, [&] {rcutils_log_internal(&LOC1, sev, n, "text %d %s", 5, "x");});
          break;
        }
      case 10:                  // initialized already
        still(L, "another initialization", [&] {(void)!rcutils_logging_initialize_with_allocator(L.A);});
        break;
      case 11: {
          still(L, "rcutils_logging_shutdown", [&] {(void)!rcutils_logging_shutdown();});
          MC_CHECK(L.T.live.empty(), "still:leak", "%zu blocks are left after shutdown", L.T.live.size());
          set.clear();
          L.up();
          break;
        }
    }
    L.drop();
    recs.clear();
  }
  still(L, "rcutils_logging_shutdown", [&] {(void)!rcutils_logging_shutdown();});
  L.clean("after shutdown");
  c.outcome(fmt("%d %d %zu", conf, pre, set.size()));
}
// every length of the formatted output up to the documented 1023 characters
void still_lengths(mc::Ctx & c)
{
  Log L("still");
  Setup s{};
  s.colour = c.choose(2);
  s.use_stdout = c.flip();
  s.f = c.pick(
    {"", "{message}", "{message}|{name}", "{name}{message}", "literal text only", "{severity}{message}{line_number}",
      "{time}{time_as_nanoseconds}{date_time_with_ms}{message}", "{function_name}{file_name}{message}\\n"});
  configure(s);
  L.up();
  int how = c.choose(3);        // the message, its format and the logger name get long
  int block = c.choose(32);
  c.note("%s, lengths %d..%d", how == 0 ? "message" : how == 1 ? "format" : "name", block * 32, block * 32 + 31);
  int sev = SEV[(block + how) % 5];
  for (int i = 0; i < 32; ++i) {
    size_t n = (size_t)(block * 32 + i);
    std::string t = text_of(n);
    Exact e(t);
    const char * name = how == 2 ? e.p : "n.m";
    In in{&LOC1, sev, name, os::clock_ns, how == 2 ? "text" : t};
    if (line(s, in).size() > 1024) {break;}       // the newline is written on its own
    auto call = [&](const char * what, auto f) {
        L.drop();
        still(L, fmt("%s with a message of %zu and a line of %zu characters", what, in.msg.size(), line(s, in).size()), f);
        L.flush();
        const std::string & on = s.use_stdout ? L.out : L.err;
        MC_CHECK(on == line(s, in), "still:line", "%s wrote another line: %s", what, q(on.data(), on.size(), 200).c_str());
      };
    if (how == 1) {
      call("the console handler", [&] {console(&LOC1, sev, name, in.ts, e.p);});
      call("rcutils_log_internal", [&] {rcutils_log_internal(&LOC1, sev, name, e.p, 0);});
      call("rcutils_log", [&] {rcutils_log(&LOC1, sev < 20 ? (in.sev = 20) : sev, name, e.p, 0);});
      in.sev = sev;
    } else {
      call("the console handler", [&] {console(&LOC1, sev, name, in.ts, "%s", in.msg.c_str());});
      call("rcutils_log_internal", [&] {rcutils_log_internal(&LOC1, sev, name, "%s", ro(in.msg));});
      if (sev >= 20) {call("rcutils_log", [&] {rcutils_log(&LOC1, sev, name, "%s", ro(in.msg));});}
    }
  }
  still(L, "rcutils_logging_shutdown", [&] {(void)!rcutils_logging_shutdown();});
  L.clean("after shutdown");
  c.outcome(fmt("%d %d", how, block));
}
void still_time(mc::Ctx & c)
{
  static const int64_t at[] = {0, 1, -1, 999999999, 1700000000123456789, -1700000000123456789, INT64_MAX, INT64_MIN,
    INT64_MIN + 1, 951782400000000000};
  Log L("still");
  os::clock_on = false;
  int64_t t = c.pick(at);
  int k = c.choose(6);
  rcutils_time_point_value_t now;
  for (size_t n = 0; n < 72; ++n) {
    Exact e(n);
    rcutils_time_point_value_t * p = n % 5 == 4 ? nullptr : &t;
    char * b = n % 7 == 6 ? nullptr : e.p;
    if (k == 0) {still(L, "rcutils_system_time_now", [&] {(void)!rcutils_system_time_now(n % 3 ? &now : nullptr);});}
    if (k == 1) {still(L, "rcutils_steady_time_now", [&] {(void)!rcutils_steady_time_now(n % 3 ? &now : nullptr);});}
    if (k == 2) {
      still(L, "the nanoseconds string", [&] {(void)!rcutils_time_point_value_as_nanoseconds_string(p, b, n);});
    }
    if (k == 3) {still(L, "the seconds string", [&] {(void)!rcutils_time_point_value_as_seconds_string(p, b, n);});}
    if (k == 4) {still(L, "the date string", [&] {(void)!rcutils_time_point_value_as_date_string(p, b, n);});}
    if (k == 5) {
      still(L, "rcutils_get_default_allocator", [&] {(void)rcutils_get_default_allocator();});
      still(L, "rcutils_get_zero_initialized_allocator", [&] {(void)rcutils_get_zero_initialized_allocator();});
    }
  }
  c.note("function %d at %lld", k, (long long)t);
  c.outcome(fmt("%d %lld", k, (long long)t));
}
// the lookups by name on their own
void still_named(mc::Ctx & c)
{
  Log L("still");
  L.up();
  int which = c.choose(2);
  c.note("lookup %d of a name without level", which);
  MC_CHECK(rcutils_logging_set_logger_level("other", 30) == RCUTILS_RET_OK, "still:set", "setting a level failed");
  Still s(L);
  if (which) {
    (void)rcutils_logging_get_logger_effective_level("a.b");
  } else {
    (void)rcutils_logging_get_logger_level("a.b");
  }
  wraps::watch = 0;
  int n = L.T.calls - s.calls + wraps::direct_allocs;
  bool kept = L.T.live.size() != s.live;
  L.down();
  MC_CHECK(
    n == 0, kept ? "still:named-other" : which ? "still:named-effective" : "still:named-level",
    "the lookup of a logger by name is documented not to allocate memory, but made %d allocations%s", n,
    kept ? ", kept" : " that are given back before it returns");
  L.clean("after shutdown");
  c.outcome(fmt("%d", which));
}
