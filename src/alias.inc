// C54: arguments that are texts the library handed out, or the same text twice.

// a string map whose own keys and values come back as arguments
void alias_map(mc::Ctx & c, int depth)
{
  Env e("alias");
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  MC_CHECK(rcutils_string_map_init(&m, (size_t)c.choose(3), e.A) == RCUTILS_RET_OK, "alias:init", "init failed");
  std::map<std::string, std::string> model;
  std::string how;
  auto put = [&](const char * k, const char * v) {
      MC_CHECK(rcutils_string_map_set(&m, k, v) == RCUTILS_RET_OK, "alias:ret", "set failed");
      model[k] = v;
    };
  put("kone", "vone");
  put("one", "ktwo");
  int fresh = 0;
  std::string made;
  auto arg = [&](int i) -> const char * {
      const char * k = rcutils_string_map_get_next_key(&m, nullptr), * last = k;
      while (last) {
        const char * n = rcutils_string_map_get_next_key(&m, last);
        if (!n) {break;}
        last = n;
      }
      made = fmt("new%d", fresh++);
      const char * v = k ? rcutils_string_map_get(&m, k) : nullptr;
      const char * r = i == 1 ? k : i == 2 ? last : i == 3 ? v : i == 4 && v && *v ? v + 1 : i == 5 && k && *k ? k + 1 : nullptr;
      return r;
    };
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(6);
    std::string fk, fv;
    const char * k = nullptr, * v = nullptr;
    if (op < 5) {
      int a = c.choose(6);
      k = arg(a);
      if (!k) {fk = made; k = fk.c_str();}
      how += fmt(" %d(%d", op, a);
    }
    if (op < 2) {
      int b = c.choose(6);
      v = arg(b);
      if (!v) {fv = made; v = fv.c_str();}
      how += fmt(",%d", b);
    }
    how += ")";
    // (what the arguments say, before the call may invalidate them)
    std::string ks = k ? k : "", vs = v ? v : "";
    if (op == 0) {
      MC_CHECK(rcutils_string_map_set(&m, k, v) == RCUTILS_RET_OK, "alias:ret", "%s: set failed", how.c_str());
      model[ks] = vs;
    } else if (op == 1) {
      size_t cap = 0;
      (void)!rcutils_string_map_get_capacity(&m, &cap);
      bool room = model.count(ks) || model.size() < cap;
      int r = rcutils_string_map_set_no_resize(&m, k, v);
      MC_CHECK(r == (room ? 0 : RCUTILS_RET_NOT_ENOUGH_SPACE), "alias:ret", "%s: set_no_resize returned %d", how.c_str(), r);
      if (room) {model[ks] = vs;}
    } else if (op == 2) {
      int r = rcutils_string_map_unset(&m, k);
      MC_CHECK((r == 0) == (model.count(ks) == 1), "alias:ret", "%s: unset returned %d", how.c_str(), r);
      model.erase(ks);
      rcutils_reset_error();
    } else if (op == 3) {
      const char * g = rcutils_string_map_getn(&m, k, ks.size());
      MC_CHECK(
        (g != nullptr) == (model.count(ks) == 1) && (!g || model[ks] == g), "alias:get", "%s: getn gave %s", how.c_str(),
        g ? g : "NULL");
      rcutils_reset_error();
    } else if (op == 4) {
      bool g = rcutils_string_map_key_exists(&m, k);
      MC_CHECK(g == (model.count(ks) == 1), "alias:get", "%s: key_exists gave %d", how.c_str(), g);
    } else {
      MC_CHECK(rcutils_string_map_copy(&m, &m) == RCUTILS_RET_OK, "alias:ret", "%s: copying a map onto itself failed", how.c_str());
    }
    size_t n = 0;
    (void)!rcutils_string_map_get_size(&m, &n);
    MC_CHECK(n == model.size(), "alias:content", "%s: %zu keys, expected %zu", how.c_str(), n, model.size());
    for (auto & kv : model) {
      const char * g = rcutils_string_map_get(&m, kv.first.c_str());
      MC_CHECK(
        g && kv.second == g, "alias:content", "%s: key %s has %s, expected %s", how.c_str(), kv.first.c_str(), g ? g : "none",
        kv.second.c_str());
    }
    MC_CHECK(e.T.error.empty(), "alias:misuse", "%s: %s", how.c_str(), e.T.error.c_str());
    rcutils_reset_error();
  }
  c.note("%s", how.c_str());
  MC_CHECK(rcutils_string_map_fini(&m) == RCUTILS_RET_OK, "alias:ret", "fini failed");
  e.clean("after the last operation");
  c.outcome(how);
}
// the error state set from what it says itself, as layers of a library do
void alias_error(mc::Ctx & c, int depth)
{
  rcutils_reset_error();
  bool set = false;
  std::string msg, file, how;
  size_t line = 0;
  Capture cap;
  auto text = [&]() {return fmt("%s, at %s:%zu", msg.c_str(), file.c_str(), line);};
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(8);
    how += fmt(" %d", op);
    c.note("operation %d", op);
    const rcutils_error_state_t * s = rcutils_get_error_state();
    MC_CHECK((s != nullptr) == set, "alias:error", "%s: there is %s error", how.c_str(), s ? "an" : "no");
    if (op == 0 || (!set && op != 6)) {
      rcutils_set_error_state("fresh", "first.c", 10 + (size_t)i);
      msg = "fresh";
      file = "first.c";
      line = 10 + (size_t)i;
      set = true;
    } else if (op == 1) {
      std::string was = text();
      rcutils_set_error_state(rcutils_get_error_string().str, "outer.c", 7);
      msg = was;
      file = "outer.c";
      line = 7;
    } else if (op == 2) {
      rcutils_set_error_state(s->message, s->file, s->line_number + 1);
      ++line;
    } else if (op == 3) {
      if (msg.size() < 2 || file.empty()) {continue;}
      rcutils_set_error_state(s->message + 2, s->file + 1, s->line_number);
      msg = msg.substr(2);
      file = file.substr(1);
    } else if (op == 4) {
      rcutils_set_error_state(s->file, s->message, 5);
      std::swap(msg, file);
      line = 5;
    } else if (op == 5) {
      std::string was = text();
      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("again: %s", rcutils_get_error_string().str); line = __LINE__;
      msg = "again: " + was;
      file = __FILE__;
    } else if (op == 6) {
      rcutils_reset_error();
      set = false;
    } else {
      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s/%s", s->message, s->file); line = __LINE__;
      msg += "/" + file;
      file = __FILE__;
    }
    if (set) {
      // (documented limits)
      if (msg.size() > 500 || file.size() > 200) {break;}
      std::string got = rcutils_get_error_string().str;
      MC_CHECK(
        got == text(), "alias:error", "%s: the error reads %s, expected %s", how.c_str(), mc::q(got).c_str(),
        mc::q(text()).c_str());
      s = rcutils_get_error_state();
      MC_CHECK(
        s && msg == s->message && file == s->file && line == s->line_number, "alias:error",
        "%s: the members of the error state are others", how.c_str());
    }
  }
  rcutils_reset_error();
  c.outcome(how);
}
// a text, and a place within the same text, as two arguments: as if they were two texts
void alias_texts(mc::Ctx & c, int max)
{
  std::string t = all_strings(c, "aA-/", max);
  if (t.empty()) {return;}
  Exact s(t);
  int i = c.choose((int)t.size()), j = c.choose((int)t.size() + 1);
  int f = c.choose(9);
  Exact x(t), y(t.substr((size_t)i)), z(t.substr((size_t)j));
  Env e("alias");
  auto text = [&](char * p) {
      std::string r = p ? std::string("'") + p + "'" : "NULL";
      if (p) {e.A.deallocate(p, e.A.state);}
      return r;
    };
  auto call = [&](const char * a, const char * b, const char * d) -> std::string {
      int r = 77;
      std::string out;
      switch (f) {
        case 0: return text(rcutils_join_path(a, b, e.A));
        case 1: return text(rcutils_repl_str(a, b, d, &e.A));
        case 2: return text(rcutils_repl_str(b, a, d, &e.A));
        case 3: out = fmt("%d ", rcutils_strcasecmp(a, b, &r)); return out + fmt("%d", (r > 0) - (r < 0));
        case 4: out = fmt("%d ", rcutils_strncasecmp(a, d, (size_t)j, &r)); return out + fmt("%d", (r > 0) - (r < 0));
        case 5: return text(rcutils_format_string(e.A, "%s+%s+%s", a, b, d));
        case 6: {
            rcutils_string_array_t w = rcutils_get_zero_initialized_string_array();
            w.data = (char **)(uintptr_t)e.A.allocate(2 * sizeof(char *), e.A.state);
            w.data[0] = (char *)a;
            w.data[1] = (char *)b;
            w.size = 2;
            w.allocator = e.A;
            rcutils_string_array_t v = w;
            out = fmt("%d ", rcutils_string_array_cmp(&w, f ? &w : &v, &r)) + fmt("%d;", r);
            out += fmt("%d ", rcutils_string_array_cmp(&w, &v, &r)) + fmt("%d;", r);
            out += fmt("%d ", rcutils_string_array_sort(&w)) + w.data[0] + "," + w.data[1];
            e.A.deallocate(w.data, e.A.state);
            return out;
          }
        case 7: {
            char * argv[] = {(char *)a, (char *)b, (char *)d};
            const char * o = rcutils_cli_get_option(argv, argv + 3, b);
            return fmt("%d %s", rcutils_cli_option_exist(argv, argv + 3, b), o ? o : "NULL");
          }
        default: {
            rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
            (void)!rcutils_hash_map_init(
              &h, 2, sizeof(char *), sizeof(char *), rcutils_hash_map_string_hash_func, rcutils_hash_map_string_cmp_func,
              &e.A);
            // key and value are the same variable
            out = fmt("%d %d ", rcutils_hash_map_set(&h, &a, &a), rcutils_hash_map_set(&h, &b, &b));
            const char * g = d;
            r = rcutils_hash_map_get(&h, &g, &g);
            out += fmt("%d %s ", r, g);
            (void)!rcutils_hash_map_fini(&h);
            return out;
          }
      }
    };
  std::string want = call(x.p, y.p, z.p), got = call(s.p, s.p + i, s.p + j);
  rcutils_reset_error();
  c.note("function %d of %s, %d, %d: %s", f, t.c_str(), i, j, got.c_str());
  MC_CHECK(
    got == want, "alias:text", "function %d gave %s for texts within one text, %s for equal texts apart (%s, +%d, +%d)", f,
    got.c_str(), want.c_str(), t.c_str(), i, j);
  MC_CHECK(t == s.p, "alias:text", "function %d changed its input", f);
  e.clean("afterwards");
  c.outcome(fmt("%d %s", f, got.c_str()));
}
// values of the environment, directory entries and library paths as arguments
void alias_system(mc::Ctx & c, int depth)
{
  static const char * const N[] = {"VP_ALIAS_A", "VP_ALIAS_B", "VP_ALIAS_VP_ALIAS_A"};
  std::map<std::string, std::string> m;
  for (auto n : N) {unsetenv(n);}
  MC_CHECK(rcutils_set_env(N[0], "VP_ALIAS_B"), "alias:env", "set failed");
  m[N[0]] = N[1];
  std::string how;
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(4), a = c.choose(3), b = c.choose(2);
    how += fmt(" %d,%d,%d", op, a, b);
    c.note("operation %d of %s and %s", op, N[a], N[b]);
    const char * v = nullptr;
    const char * err = rcutils_get_env(N[b], &v);
    MC_CHECK(!err && v && m[N[b]] == v, "alias:env", "%s: %s holds %s, expected %s", how.c_str(), N[b], v ? v : "?", m[N[b]].c_str());
    std::string was = v;
    if (op == 0) {                      // a variable from another one, or from itself
      MC_CHECK(rcutils_set_env(N[a], v), "alias:env", "%s: set failed", how.c_str());
      m[N[a]] = was;
    } else if (op == 1 && was.size() > 1) {
      MC_CHECK(rcutils_set_env(N[a], v + 1), "alias:env", "%s: set failed", how.c_str());
      m[N[a]] = was.substr(1);
    } else if (op == 2 && m.count(was)) {       // the variable a variable names
      const char * w = nullptr;
      err = rcutils_get_env(v, &w);
      MC_CHECK(!err && w && m[was] == w, "alias:env", "%s: another value", how.c_str());
    } else if (op == 3) {
      std::string x = fmt("text%d", i);
      MC_CHECK(rcutils_set_env(N[a], x.c_str()), "alias:env", "%s: set failed", how.c_str());
      m[N[a]] = x;
    }
    for (auto n : N) {
      err = rcutils_get_env(n, &v);
      MC_CHECK(!err && v && m[n] == v, "alias:env", "%s: %s holds %s, expected %s", how.c_str(), n, v ? v : "?", m[n].c_str());
    }
  }
  for (auto n : N) {unsetenv(n);}
  c.outcome(how);
}
void alias_library(mc::Ctx & c)
{
  Env e("alias");
  rcutils_shared_library_t h[2] = {rcutils_get_zero_initialized_shared_library(), rcutils_get_zero_initialized_shared_library()};
  Closer closer{h};
  MC_CHECK(rcutils_load_shared_library(&h[0], lib_path(0).c_str(), e.A) == 0, "alias:library", "load failed");
  MC_CHECK(
    rcutils_load_shared_library(&h[1], h[0].library_path, e.A) == 0, "alias:library", "the path of a handle cannot be loaded");
  int first = c.flip();
  MC_CHECK(rcutils_unload_shared_library(&h[first]) == 0, "alias:library", "unload failed");
  bool again = c.flip();
  if (again) {
    MC_CHECK(
      rcutils_load_shared_library(&h[first], h[1 - first].library_path, e.A) == 0, "alias:library",
      "the path of a handle cannot be loaded");
  }
  MC_CHECK(
    lib_path(0) == h[1 - first].library_path && rcutils_has_symbol(&h[1 - first], "vp_only0"), "alias:library",
    "the other handle has changed");
  for (int k = 0; k < 2; ++k) {
    int w = k ? first : 1 - first;
    if (w == first && !again) {continue;}
    MC_CHECK(rcutils_unload_shared_library(&h[w]) == 0, "alias:library", "unload failed");
  }
  e.clean("afterwards");
  c.outcome(fmt("%d %d", first, again));
}
