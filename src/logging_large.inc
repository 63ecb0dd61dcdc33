// ------------------------------------------------------------------ large inputs and long runs
const int LARGE[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16385,
  32767, 32768, 32769, 65535, 65536, 65537, 70001};
int large(mc::Ctx & c, int max = 1 << 30)
{
  int n = 0;
  while (n < (int)(sizeof(LARGE) / sizeof(LARGE[0])) && LARGE[n] <= max) {++n;}
  return LARGE[c.choose(n)];
}
// long logger names with an ancestor at a large offset, and many loggers
void levels_large(mc::Ctx & c)
{
  Log L("levels");
  bool many = c.flip();
  int n = large(c, many ? 4097 : 70001);
  L.up();
  Levels m;
  auto set = [&](const std::string & s, int l) {
      Exact e(s);
      rcutils_ret_t r = rcutils_logging_set_logger_level(e.p, l);
      MC_CHECK(r == RCUTILS_RET_OK, "levels:set", "setting level %d for %s returned %d", l, q(s).c_str(), r);
      m.lv[s] = l;
    };
  std::vector<std::string> names;
  if (many) {
    int order = c.choose(2);
    auto name = [&](int i) {return i % 2 ? fmt("node%d", i - 1) + fmt(".c%d", i) : fmt("node%d", i);};
    for (int k = 0; k < n; ++k) {int i = order ? n - 1 - k : k; set(name(i), SEV[i * 3 % 5]);}
    for (int i : {0, 1, 126, 127, 128, 255, 256, 257, 1023, 1024, 32768, 65535, 65536, n - 1}) {
      if (i < n) {names.push_back(name(i)); names.push_back(name(i) + ".below");}
    }
    names.push_back("node");
    check_levels(L, m, names, false);
    for (int i = 0; i < n; i += 3) {set(name(i), 0);}
    check_levels(L, m, names, false);
    set(name(n - 1), 50);
    check_levels(L, m, names, false);
  } else {
    std::string a = text_of((size_t)n, 1), b = "x." + text_of((size_t)n, 2) + ".end", d;
    int what = c.choose(4);
    if (what == 0) {set(a, 40);} else if (what == 1) {set("x", 40);} else if (what == 2) {set(b.substr(0, b.size() - 4), 10);} else {
      set(b, 30);
      set(b + "x", 50);
    }
    names = {a, a + ".c", a.substr(0, a.size() - 1), a + "k", b, b + ".c", b.substr(0, b.size() - 4), b + "x", "x"};
    check_levels(L, m, names, false);
    for (auto & l : m.lv) {l.second = 20; rcutils_ret_t r = rcutils_logging_set_logger_level(ro(l.first), 20); MC_CHECK(!r, "levels:set", "%d", r);}
    check_levels(L, m, names, false);
  }
  c.note("%s %d", many ? "loggers" : "characters", n);
  c.outcome(fmt("%d %d", many, n));
  L.down();
  L.clean("after shutdown");
}
// a deep hierarchy with a level at one ancestor
void levels_deep(mc::Ctx & c)
{
  Log L("levels");
  int d = large(c, 1025), at = c.choose(4);
  L.up();
  Levels m;
  std::vector<std::string> names;
  std::string n = "r", where;
  int k = at == 0 ? 0 : at == 1 ? d / 2 : at == 2 ? d - 2 : -1;
  for (int i = 0; i < d; ++i) {
    if (i == k) {where = n;}
    if (i < 3 || i > d - 3 || i == k) {names.push_back(n);}
    n += ".s";
  }
  names.push_back(n);
  if (k >= 0) {
    rcutils_ret_t r = rcutils_logging_set_logger_level(ro(where), 40);
    MC_CHECK(r == RCUTILS_RET_OK, "levels:set", "returned %d", r);
    m.lv[where] = 40;
  } else {rcutils_logging_set_default_logger_level(50); m.def = 50;}
  check_levels(L, m, names, false);
  c.outcome(fmt("%d %d", d, at));
  L.down();
  L.clean("after shutdown");
}
std::string long_text;
size_t long_calls;
void h_long(
  const rcutils_log_location_t *, int, const char * name, rcutils_time_point_value_t, const char * f, va_list * a)
{
  ++long_calls;
  va_list ap;
  va_copy(ap, *a);
  int n = vsnprintf(nullptr, 0, f, ap);
  va_end(ap);
  long_text.resize((size_t)n + 1);
  va_copy(ap, *a);
  vsnprintf(&long_text[0], (size_t)n + 1, f, ap);
  va_end(ap);
  long_text.resize((size_t)n);
  long_text = std::string(name ? name : "") + ":" + long_text;
}
// many messages in a row, long messages, and many changes of the handler
void dispatch_large(mc::Ctx & c)
{
  Log L("dispatch");
  L.up();
  rcutils_logging_set_output_handler(h_long);
  int what = c.choose(3);
  int n = large(c, what == 0 ? 70001 : 70001);
  long_calls = 0;
  Levels m;
  if (what == 0) {
    for (int i = 0; i < n; ++i) {
      int sev = SEV[i % 5];
      size_t before = long_calls;
      const char * name = i % 7 == 0 ? nullptr : i % 7 == 1 ? "" : "a.b";
      rcutils_log(nullptr, sev, name, "message %d of %s", i, "many");
      bool en = sev >= 20;
      MC_CHECK(long_calls - before == (en ? 1u : 0u), "dispatch:count", "message %d called the handler %zu times", i, long_calls - before);
      if (en) {
        MC_CHECK(long_text == std::string(name ? name : "") + fmt(":message %d of many", i), "dispatch:text", "message %d arrived as %s", i, q(long_text).c_str());
      }
    }
  } else if (what == 1) {
    std::string t = text_of((size_t)n, 3), nm = text_of((size_t)n / 3, 4);
    rcutils_log(nullptr, 30, ro(nm), "<%s>%d", ro(t), 5);
    MC_CHECK(long_calls == 1 && long_text == nm + ":<" + t + ">5", "dispatch:text", "a message of %d characters arrived as %s", n, q(long_text).c_str());
    Exact literal(t);
    rcutils_log(nullptr, 30, nullptr, literal.p, 0);
    MC_CHECK(long_calls == 2 && long_text == ":" + t, "dispatch:text", "a format of %d characters arrived as %s", n, q(long_text).c_str());
  } else {
    for (int i = 0; i < n; ++i) {
      bool own = i % 3 != 1;
      rcutils_logging_set_output_handler(own ? h_long : nullptr);
      rcutils_logging_set_default_logger_level(i % 5 == 0 ? 50 : 20);
      size_t before = long_calls;
      rcutils_log(nullptr, 30, "x", "%d", i);
      MC_CHECK(long_calls - before == (own && i % 5 ? 1u : 0u), "dispatch:count", "message %d called the handler %zu times", i, long_calls - before);
    }
  }
  L.flush();
  MC_CHECK(L.err.empty() && L.out.empty(), "dispatch:console", "something was written to the console");
  c.outcome(fmt("%d %d", what, n));
  L.down();
  L.clean("after shutdown");
}
// long messages, names and locations through the formatter and the console handler
void format_large(mc::Ctx & c, bool through_console)
{
  Log L(through_console ? "console" : "format");
  int what = c.choose(4);
  size_t n = (size_t)large(c);
  std::string t = text_of(n, 2);
  Setup s{};
  s.colour = 0;
  if (through_console) {s.colour = c.choose(2); s.use_stdout = c.flip();}
  s.f = "{name}|{message}|{file_name}|{function_name}|{line_number}|{message}";
  configure(s);
  L.up();
  rcutils_log_location_t loc = {what == 2 ? t.c_str() : "fn", what == 3 ? t.c_str() : "file.c", 12345};
  In in{&loc, 40, what == 1 ? t.c_str() : "nm", 1700000000123456789, what == 0 ? t : "msg"};
  if (through_console) {
    console(in.loc, in.sev, in.name, in.ts, "%s", in.msg.c_str());
    expect(L, s, line(s, in), "a long text");
    L.drop();
    in.msg = "short";
    console(in.loc, in.sev, in.name, in.ts, "%s", in.msg.c_str());
    expect(L, s, line(s, in), "a text after a long one");
  } else {
    expansion(c, L, s.f, in, 0);
    expansion(c, L, s.f, in, 1024);
  }
  c.outcome(fmt("%d %zu", what, n));
  L.down();
  L.clean("after shutdown");
}
// many messages through the console handler
void console_many(mc::Ctx & c)
{
  Log L("console");
  Setup s{};
  s.colour = c.choose(2);
  s.use_stdout = c.choose(2);
  configure(s);
  L.up();
  int n = large(c, 4097);
  std::string all;
  for (int i = 0; i < n; ++i) {
    In in{i % 2 ? &LOC1 : nullptr, SEV[i % 5], i % 3 ? "n" : nullptr, 1700000000123456789 + i, text_of((size_t)(i * 37 % 1100), i)};
    console(in.loc, in.sev, in.name, in.ts, "%s", in.msg.c_str());
    all += line(s, in);
  }
  expect(L, s, all, "a long sequence of messages");
  c.outcome(fmt("%d %d", s.colour, n));
  L.down();
  L.clean("after shutdown");
}
// the same call site many times
void macro_long(mc::Ctx & c, size_t tab, int max)
{
  Log L("macros");
  const Tab & t = TABS[tab];
  const RigSite & s = t.s[c.choose(t.n)];
  if (t.min > s.severity) {return;}
  int n = large(c, max), pat = c.choose(3);
  L.up();
  rcutils_logging_set_output_handler(h1);
  macro_now = 1000000000000000000;
  MacroState m;
  Levels lv;
  for (int i = 0; i < n; ++i) {
    int asked = 0;
    macro_step_with(c, s, m, 0, lv, [&](int k) {
        if (asked++ == 0) {return pat == 0 ? 1 : pat == 1 ? (i % 3 != 1) : (i == 0 || i > n / 2);}
        return pat == 0 ? (i % 4) % k : (i * 5 + i / 7) % k;
      });
  }
  L.flush();
  MC_CHECK(L.out.empty() && L.err.empty(), "macros:noise", "%s wrote %s", s.macro, q(L.err).c_str());
  c.outcome(fmt("%s %d %d", s.macro, n, pat));
  L.down();
  L.clean("after shutdown");
}
// many initializations and shutdowns
void init_many(mc::Ctx & c)
{
  Log L("init");
  int n = large(c, 1025), pat = c.choose(3);
  for (int i = 0; i < n; ++i) {
    bool bad = pat == 1 && i % 5 == 3;
    setenv("RCUTILS_COLORIZED_OUTPUT", bad ? "x" : i % 2 ? "1" : "0", 1);
    setenv("RCUTILS_LOGGING_USE_STDOUT", i % 3 == 0 ? "1" : "0", 1);
    set_format(i % 4 == 0 ? "{message}" : fmt("%d {message}{name}", i));
    rcutils_ret_t r = L.init();
    MC_CHECK((r == RCUTILS_RET_OK) == !bad, "init:ret", "initialization %d returned %d", i, r);
    rcutils_reset_error();
    if (bad) {continue;}
    if (pat == 2) {for (int k = 0; k <= i % 3; ++k) {MC_CHECK(L.init() == RCUTILS_RET_OK, "init:again", "initializing again failed");}}
    Setup s{};
    s.colour = i % 2;
    s.use_stdout = i % 3 == 0;
    s.f = i % 4 == 0 ? "{message}" : fmt("%d {message}{name}", i);
    L.drop();
    In in{&LOC1, 30, "a.b", os::clock_ns, fmt("m %d", i)};
    MC_CHECK(rcutils_logging_get_logger_effective_level("a.b") == 20, "init:levels", "levels are left from before initialization %d", i);
    rcutils_log(in.loc, in.sev, in.name, "m %d", i);
    expect(L, s, line(s, in), fmt("a message after initialization %d", i).c_str());
    rcutils_ret_t q1 = rcutils_logging_set_logger_level("a.b", 50);
    MC_CHECK(q1 == RCUTILS_RET_OK, "init:map", "setting a level returned %d", q1);
    L.down();
    L.clean("after shutdown");
  }
  c.outcome(fmt("%d %d", n, pat));
}
