// ------------------------------------------------------------------ large inputs
// Sizes around the widths of counters and usual buffer sizes, far beyond the exhaustive bounds.
const int LARGE[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16385,
  32767, 32768, 32769, 65535, 65536, 65537, 70001};
int large(mc::Ctx & c, int max = 1 << 30)
{
  int n = 0;
  while (n < (int)(sizeof(LARGE) / sizeof(LARGE[0])) && LARGE[n] <= max) {++n;}
  return LARGE[c.choose(n)];
}
// positions of interest among n
std::vector<size_t> spots(size_t n)
{
  std::set<size_t> s;
  for (size_t k : {(size_t)0, (size_t)1, (size_t)126, (size_t)127, (size_t)128, (size_t)254, (size_t)255, (size_t)256, (size_t)257,
      (size_t)1023, (size_t)1024, (size_t)4095, (size_t)4096, (size_t)32767, (size_t)32768, (size_t)65534, (size_t)65535, (size_t)65536,
      n / 2, n - 2, n - 1})
  {
    if (k < n) {s.insert(k);}
  }
  return std::vector<size_t>(s.begin(), s.end());
}
void options_large(mc::Ctx & c)
{
  bool wide = c.flip();                 // long words, or many words
  size_t n = (size_t)large(c);
  std::vector<std::string> w;
  if (wide) {
    std::string x = text_of(n, 1), y = x;
    y[n - 1] ^= 1;
    w = {y, x + "k", x.substr(0, n - 1), x, "value", x, "other"};
    std::vector<char *> v;
    std::vector<std::unique_ptr<Exact>> keep;
    for (auto & s : w) {keep.emplace_back(new Exact(s)); v.push_back(keep.back()->p);}
    Exact arr((void *)v.data(), v.size() * sizeof(char *)), o(x), no(x + "q");
    char ** b = (char **)arr.p;
    MC_CHECK(rcutils_cli_option_exist(b, b + 7, o.p) && !rcutils_cli_option_exist(b, b + 3, o.p), "cli:long", "an option of %zu characters", n);
    MC_CHECK(rcutils_cli_get_option(b, b + 7, o.p) == v[4] && !rcutils_cli_get_option(b, b + 3, o.p) &&
      !rcutils_cli_get_option(b, b + 4, o.p), "cli:long", "the value of an option of %zu characters", n);
    MC_CHECK(!rcutils_cli_option_exist(b, b + 7, no.p) && !rcutils_cli_get_option(b, b + 7, no.p), "cli:long", "an absent option of %zu characters", n);
  } else {
    std::vector<char> text(n * 8);
    std::vector<char *> v;
    for (size_t i = 0; i < n; ++i) {snprintf(&text[i * 8], 8, "-%05zu", i); v.push_back(&text[i * 8]);}
    Exact arr((void *)v.data(), v.size() * sizeof(char *));
    char ** b = (char **)arr.p;
    for (size_t i : spots(n)) {
      MC_CHECK(rcutils_cli_option_exist(b, b + n, v[i]), "cli:many", "argument %zu of %zu is not found", i, n);
      char * g = rcutils_cli_get_option(b, b + n, v[i]);
      MC_CHECK(g == (i + 1 < n ? v[i + 1] : nullptr), "cli:many", "argument %zu of %zu has the value %s", i, n, q(g).c_str());
      MC_CHECK(!rcutils_cli_option_exist(b, b + i, v[i]) && !rcutils_cli_get_option(b, b + i + 1, v[i]), "cli:many", "argument %zu is found before it", i);
    }
    MC_CHECK(!rcutils_cli_option_exist(b, b + n, "-x") && !rcutils_cli_get_option(b, b + n, "-x"), "cli:many", "an absent option is found");
  }
  c.outcome(fmt("%d %zu", wide, n));
}
void environment_large(mc::Ctx & c)
{
  int what = c.choose(3);               // long value, long name, many variables
  size_t n = (size_t)large(c, what == 2 ? 4097 : 1 << 30);
  std::vector<std::pair<std::string, std::string>> vars;
  if (what == 0) {vars.push_back({"VP_LONG", text_of(n, 3)});} else if (what == 1) {
    vars.push_back({"VP_" + std::string(n, 'N'), "x"});
    vars.push_back({"VP_" + std::string(n - 1, 'N'), "y"});
    vars.push_back({"VP_" + std::string(n, 'N') + "M", "z"});
  } else {
    for (size_t i = 0; i < n; ++i) {vars.push_back({fmt("VP_MANY%zu", i), fmt("value %zu", i)});}
  }
  os::env_fail = false;
  auto check = [&](const std::string & name, const char * want, const char * when) {
      const char * v = nullptr;
      const char * e = rcutils_get_env(ro(name), &v);
      MC_CHECK(!e && v && !strcmp(v, want), "env:large", "a name of %zu characters reads %s %s", name.size(), q(v).c_str(), when);
    };
  for (auto & v : vars) {
    Exact en(v.first), ev(v.second);
    MC_CHECK(rcutils_set_env(en.p, ev.p), "env:large", "setting a name of %zu to %zu characters failed", v.first.size(), v.second.size());
  }
  for (auto & v : vars) {check(v.first, v.second.c_str(), "after setting");}
  for (auto & v : vars) {
    MC_CHECK(rcutils_set_env_overwrite(ro(v.first), "other", false), "env:large", "keeping failed");
    check(v.first, v.second.c_str(), "after keeping");
  }
  for (size_t i : spots(vars.size())) {
    MC_CHECK(rcutils_set_env(ro(vars[i].first), nullptr), "env:large", "unsetting failed");
    vars[i].second = "";
  }
  for (auto & v : vars) {check(v.first, v.second.c_str(), "after unsetting some");}
  for (auto & v : vars) {__real_unsetenv(v.first.c_str());}
  c.outcome(fmt("%d %zu", what, n));
}
void libraries_many(mc::Ctx & c)
{
  // the same handle, or as many handles at once
  bool at_once = c.flip();
  int n = large(c, 1025);
  Env e("library_many");
  std::vector<rcutils_shared_library_t> h((size_t)(at_once ? n : 1), rcutils_get_zero_initialized_shared_library());
  auto use = [&](rcutils_shared_library_t & x, int i) {
      MC_CHECK(rcutils_is_shared_library_loaded(&x), "library:many", "library %d is not loaded", i);
      int * p = (int *)rcutils_get_symbol(&x, "vp_common");
      MC_CHECK(p && *p == i % 2 + 10 && rcutils_has_symbol(&x, ro(fmt("vp_only%d", i % 2))) && !rcutils_has_symbol(&x, "vp_none"),
        "library:many", "wrong symbols in library %d", i);
    };
  auto unload = [&](rcutils_shared_library_t & x, int i) {
      rcutils_ret_t r = rcutils_unload_shared_library(&x);
      MC_CHECK(r == RCUTILS_RET_OK && !rcutils_is_shared_library_loaded(&x), "library:many", "unload %d returned %d", i, r);
    };
  for (int i = 0; i < n; ++i) {
    rcutils_shared_library_t & x = h[at_once ? (size_t)i : 0];
    rcutils_ret_t r = rcutils_load_shared_library(&x, ro(lib_path(i % 2)), e.A);
    MC_CHECK(r == RCUTILS_RET_OK, "library:many", "load %d returned %d", i, r);
    use(x, i);
    if (!at_once) {unload(x, i);}
  }
  if (at_once) {
    for (int i = 0; i < n; ++i) {use(h[(size_t)i], i);}
    for (int i = n - 1; i >= 0; --i) {
      MC_CHECK(loaded_in_process(lib_path(i % 2)), "library:process", "the library is gone with %d handles left", i + 1);
      unload(h[(size_t)i], i);
    }
  }
  for (int l = 0; l < 2; ++l) {MC_CHECK(!loaded_in_process(lib_path(l)), "library:process", "a library is still loaded");}
  e.clean("after unloading");
  rcutils_reset_error();
  c.outcome(fmt("%d %d", at_once, n));
}
void case_large(mc::Ctx & c)
{
  size_t n = (size_t)large(c);
  std::vector<size_t> s = spots(n);
  size_t at = s[(size_t)c.choose((int)s.size())];
  int kind = c.choose(3);               // a smaller, a larger, no character
  std::string a(n, 'a');
  for (size_t i = 0; i < n; ++i) {a[i] = (char)('a' + i % 25);}
  std::string b = a;
  for (auto & x : b) {x = (char)(x - 32);}
  if (kind == 2) {b.resize(at);} else {b[at] = kind ? '{' : '@';}
  Exact ea(a), eb(b);
  int v = 77, w = kind == 1 ? -1 : 1;
  MC_CHECK(rcutils_strcasecmp(ea.p, eb.p, &v) == 0 && sign(v) == w, "case:large", "difference at %zu of %zu gives %d", at, n, v);
  MC_CHECK(rcutils_strcasecmp(eb.p, ea.p, &v) == 0 && sign(v) == -w, "case:large", "difference at %zu of %zu gives %d swapped", at, n, v);
  for (size_t k : {at, at + 1, n, n + 1, (size_t)SIZE_MAX}) {
    MC_CHECK(rcutils_strncasecmp(ea.p, eb.p, k, &v) == 0 && sign(v) == (k > at ? w : 0), "ncase:large",
      "difference at %zu of %zu gives %d with a limit of %zu", at, n, v, k);
  }
  c.outcome(fmt("%zu %zu %d", n, at, kind));
}
void sort_huge(mc::Ctx & c)
{
  bool wide = c.flip();
  size_t n = (size_t)large(c, wide ? 70001 : 70001);
  size_t size = wide ? n : c.flip() ? 4 : 1;
  size_t count = wide ? 7 : n;
  int mode = c.choose(2), shape = c.choose(4);
  std::vector<int> k;
  for (size_t i = 0; i < count; ++i) {
    k.push_back((int)((shape == 0 ? i : shape == 1 ? count - i : shape == 2 ? i * 97 + 13 : i / 3 + (i % 3 == 1)) & 255));
  }
  sorted(k, size, mode, true);
  c.outcome(fmt("%zu %zu %d %d", size, count, mode, shape));
}
void executable_names_large(mc::Ctx & c)
{
  size_t n = (size_t)large(c);
  int where = c.choose(3);
  Env e("exename");
  std::string name = where == 0 ? text_of(n) : where == 1 ? "/" + text_of(n) + "/prog" : "/d/" + text_of(n, 2);
  Exact keep(name);
  char * old = program_invocation_name;
  program_invocation_name = keep.p;
  char * got = rcutils_get_executable_name(e.A);
  program_invocation_name = old;
  e.take(got, base_oracle(name), "executable name");
  e.clean("after an executable name");
  c.outcome(fmt("%zu %d", n, where));
}
void alloc_large(mc::Ctx & c)
{
  // sizes up to 2^31 (untouched beyond the ends), and requests that cannot be served
  rcutils_allocator_t A = rcutils_get_default_allocator();
  static const size_t sizes[] = {127, 128, 255, 256, 4095, 4096, 4097, 65535, 65536, 65537, 1u << 20, (1u << 24) + 1, (1u << 31) + 5};
  size_t n = c.pick(sizes), m = c.pick(sizes);
  bool z = c.flip(), f = c.flip();
  if ((n > 1u << 24) && z) {n = 1u << 24;}
  size_t per = z ? 16 : 1, total = n;
  char * p = (char *)(z ? A.zero_allocate(n / per + 1, per, A.state) : A.allocate(n, A.state));
  if (z) {total = (n / per + 1) * per;}
  MC_CHECK(p, "alloc:null", "%zu bytes were not allocated", total);
  if (z) {for (size_t i = 0; i < total; ++i) {MC_CHECK(p[i] == 0, "alloc:zero", "byte %zu of %zu is not zero", i, total);}}
  size_t use = total < 70000 ? total : 70000;
  std::string head = text_of(use, 5);
  memcpy(p, head.data(), use);
  p[total - 1] = 'e';
  head[use - 1] = total == use ? 'e' : head[use - 1];
  size_t big = total > (1u << 24) ? total / 2 : m;
  char * r = (char *)(f ? rcutils_reallocf(p, big, &A) : A.reallocate(p, big, A.state));
  MC_CHECK(r, "alloc:null", "resizing from %zu to %zu bytes failed", total, big);
  size_t k = use < big ? use : big;
  MC_CHECK(memcmp(r, head.data(), k) == 0, "alloc:kept", "resizing from %zu to %zu bytes changed the content", total, big);
  r[big - 1] = 'x';
  // more than can be there
  static const size_t never[] = {SIZE_MAX, SIZE_MAX / 2, (size_t)1 << 60};
  for (size_t x : never) {
    void * a = A.allocate(x, A.state), * b = A.zero_allocate(x / 2 + 3, 4, A.state);
    MC_CHECK(!a && !b, "alloc:impossible", "%zu bytes were allocated", x);
  }
  if (!f) {
    void * q2 = A.reallocate(r, SIZE_MAX / 2, A.state);
    MC_CHECK(!q2 && memcmp(r, head.data(), k < big ? k : k - 1) == 0 && r[big - 1] == 'x', "alloc:kept", "a failing resize changed the content");
    A.deallocate(r, A.state);
  } else {
    void * q2 = rcutils_reallocf(r, SIZE_MAX / 2, &A);
    MC_CHECK(!q2 && !__sanitizer_get_ownership(r), "alloc:released", "a failing reallocf did not release the memory");
    rcutils_reset_error();
  }
  c.outcome(fmt("%zu %zu %d %d", n, big, z, f));
}
void err_many(mc::Ctx & c)
{
  // many errors in one thread, with and without a reset in between, and reads of either kind
  int n = large(c, 4097);
  int how = c.choose(4);
  rcutils_reset_error();
  ErrModel m;
  for (int i = 0; i < n; ++i) {
    if (how & 1) {rcutils_reset_error(); m = ErrModel();}
    err_set(m, fmt("message %d", i), fmt("file%d.c", i), (uint64_t)i * 1000003u);
    if (how & 2) {err_observe(m, "in a long sequence");}
  }
  err_observe(m, "after a long sequence");
  rcutils_reset_error();
  m = ErrModel();
  err_observe(m, "after the reset");
  c.outcome(fmt("%d %d", n, how));
}
