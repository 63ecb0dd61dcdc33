// ------------------------------------------------------------------ large objects
// Sizes around the widths of counters and the usual growth steps, far beyond what histories reach.
const int LARGE[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
  10000, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001};
int large(mc::Ctx & c, int max)
{
  int n = 0;
  while (n < (int)(sizeof(LARGE) / sizeof(LARGE[0])) && LARGE[n] <= max) {++n;}
  return LARGE[c.choose(n)];
}
void array_list_large(mc::Ctx & c, int max)
{
  bool wide = c.flip();               // few wide entries, or many narrow ones
  int k = large(c, max);
  size_t ds = wide ? (size_t)k : c.flip() ? 8 : 1, n = wide ? 9 : (size_t)k;
  size_t cap = c.flip() ? 1 : n;
  c.note("%zu entries of %zu bytes, initial capacity %zu", n, ds, cap);
  ArrayList a(cap, ds);
  a.id = "array_list_large";
  a.start();
  std::vector<int> want;
  auto add = [&](int v) {
      Bytes b = pattern(v, ds);
      rcutils_ret_t r = a.lib([&] {return rcutils_array_list_add(&a.l, b.data());});
      MC_CHECK(r == RCUTILS_RET_OK, "array_list_large:add", "add %zu returned %d", want.size(), r);
      want.push_back(v);
    };
  for (size_t i = 0; i < n; ++i) {add((int)i);}
  a.verify(want);
  for (size_t i : {(size_t)0, n / 2, n - 1, (size_t)255, (size_t)256, (size_t)65535, (size_t)65536}) {
    if (i >= n) {continue;}
    Bytes b = pattern(77 + (int)i, ds);
    rcutils_ret_t r = a.lib([&] {return rcutils_array_list_set(&a.l, i, b.data());});
    MC_CHECK(r == RCUTILS_RET_OK, "array_list_large:set", "set(%zu) of %zu returned %d", i, n, r);
    want[i] = 77 + (int)i;
  }
  a.verify(want);
  for (size_t i : {(size_t)0, (size_t)255, n / 2, (size_t)65534, n - 4, (size_t)0}) {
    if (i >= want.size()) {continue;}
    rcutils_ret_t r = a.lib([&] {return rcutils_array_list_remove(&a.l, i);});
    MC_CHECK(r == RCUTILS_RET_OK, "array_list_large:remove", "remove(%zu) of %zu returned %d", i, want.size(), r);
    want.erase(want.begin() + (long)i);
  }
  a.verify(want);
  add(1);
  while (want.size() > 3) {
    size_t i = want.size() - 1;
    rcutils_ret_t r = a.lib([&] {return rcutils_array_list_remove(&a.l, i);});
    MC_CHECK(r == RCUTILS_RET_OK, "array_list_large:remove", "remove(%zu) of %zu returned %d", i, want.size(), r);
    want.pop_back();
  }
  add(2);
  a.verify(want);
  a.finish();
  c.outcome(fmt("%zu %zu %zu", n, ds, cap));
}
size_t h_spread(const void * k) {uint32_t v; memcpy(&v, k, 4); return (size_t)v * 2654435761u;}
void hash_map_large(mc::Ctx & c, int max, bool iteration)
{
  int how = c.choose(3);              // many entries, wide keys, wide values
  int k = large(c, max);
  size_t n = how ? 9 : (size_t)k, ks = how == 1 ? (size_t)k : 4, vs = how == 2 ? (size_t)k : 4;
  bool big = n > 5000;                // these take a while: one way only
  size_t cap = !big && c.flip() ? n : 1;
  bool spread = !big && c.flip();
  c.note("%zu entries, keys of %zu bytes, values of %zu, initial capacity %zu, hash %d", n, ks, vs, cap, spread);
  HashMap a(1, ID32, vs, 1);
  a.id = "hash_map_large";
  rcutils_ret_t r = a.lib([&] {return rcutils_hash_map_init(&a.h, cap, ks, vs, spread ? h_spread : h_id32, c_32, &a.A);});
  MC_CHECK(r == RCUTILS_RET_OK, "hash_map_large:init", "init returned %d", r);
  std::vector<int> value(n + 1, -1);  // -1: absent
  auto key = [&](size_t i) {
      Bytes b(ks, 0x5a);
      uint32_t v = (uint32_t)i * 3 + 1;
      memcpy(b.data(), &v, 4);
      return b;
    };
  auto set = [&](size_t i, int v) {
      Bytes kb = key(i), vb = pattern(v, vs);
      rcutils_ret_t q = a.lib([&] {return rcutils_hash_map_set(&a.h, kb.data(), vb.data());});
      MC_CHECK(q == RCUTILS_RET_OK, "hash_map_large:set", "set of key %zu returned %d", i, q);
      value[i] = v;
    };
  auto verify = [&] {
      size_t present = 0, size = 0, cp = 0;
      for (int v : value) {present += v >= 0;}
      MC_CHECK(
        a.lib([&] {return rcutils_hash_map_get_size(&a.h, &size);}) == RCUTILS_RET_OK && size == present, "hash_map_large:size",
        "size is %zu, expected %zu", size, present);
      MC_CHECK(
        a.lib([&] {return rcutils_hash_map_get_capacity(&a.h, &cp);}) == RCUTILS_RET_OK && (cp & (cp - 1)) == 0 && cp >= cap, "hash_map_large:capacity",
        "capacity is %zu", cp);
      Bytes out(vs), ok(ks);
      for (size_t i = 0; i <= n; ++i) {
        Bytes kb = key(i);
        rcutils_ret_t q = a.lib([&] {return rcutils_hash_map_get(&a.h, kb.data(), out.data());});
        MC_CHECK(
          q == (value[i] < 0 ? RCUTILS_RET_NOT_FOUND : RCUTILS_RET_OK), "hash_map_large:get", "get of key %zu returned %d", i, q);
        MC_CHECK(
          a.lib([&] {return rcutils_hash_map_key_exists(&a.h, kb.data());}) == (value[i] >= 0), "hash_map_large:exists", "key %zu: wrong existence", i);
        if (value[i] >= 0) {MC_CHECK(out == pattern(value[i], vs), "hash_map_large:value", "key %zu has a wrong value", i);}
      }
      if (!iteration) {return;}
      std::vector<char> seen(n + 1, 0);
      size_t steps = 0;
      rcutils_ret_t q = a.lib([&] {return rcutils_hash_map_get_next_key_and_data(&a.h, nullptr, ok.data(), out.data());});
      for (; q == RCUTILS_RET_OK; q = a.lib([&] {return rcutils_hash_map_get_next_key_and_data(&a.h, ok.data(), ok.data(), out.data());})) {
        uint32_t v;
        memcpy(&v, ok.data(), 4);
        size_t i = (v - 1) / 3;
        MC_CHECK(
          ++steps <= present && v % 3 == 1 && i <= n && value[i] >= 0 && !seen[i] && ok == key(i), "hash_map_large:iterate",
          "iteration yields %zu at step %zu", i, steps);
        seen[i] = 1;
        MC_CHECK(out == pattern(value[i], vs), "hash_map_large:iterate", "iteration yields a wrong value for key %zu", i);
      }
      MC_CHECK(
        q == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && steps == present, "hash_map_large:iterate",
        "iteration yields %zu of %zu entries and ends with %d", steps, present, q);
    };
  for (size_t i = 0; i < n; ++i) {set(i, (int)i);}
  verify();
  for (size_t i = 0; i < n; i += 3) {set(i, (int)i + 1);}
  for (size_t i = 1; i < n; i += 2) {
    Bytes kb = key(i);
    MC_CHECK(a.lib([&] {return rcutils_hash_map_unset(&a.h, kb.data());}) == RCUTILS_RET_OK, "hash_map_large:unset", "unset failed");
    value[i] = -1;
  }
  verify();
  for (size_t i = 1; i < n; i += 4) {set(i, 5);}
  verify();
  a.finish();
  c.outcome(fmt("%zu %zu %zu %zu %d", n, ks, vs, cap, spread));
}
void string_map_large(mc::Ctx & c, int max, int maxwide)
{
  int how = c.choose(3);              // many pairs, long keys, long values
  int k = large(c, how ? maxwide : max);
  size_t n = how ? 5 : (size_t)k;
  size_t cap = c.flip() ? 0 : n;
  c.note("%zu pairs, %s of %d, initial capacity %zu", n, how == 0 ? "numbers" : how == 1 ? "keys" : "values", k, cap);
  StringMap a(cap, 0);
  a.id = "string_map_large";
  a.start();
  auto key = [&](size_t i) {
      // long keys that differ in their last character only
      return how == 1 ? std::string((size_t)k - 1, 'k') + (char)('a' + i) : fmt("%zu", i);
    };
  auto val = [&](size_t i, char x) {return how == 2 ? std::string((size_t)k - 1, x) + (char)('a' + i) : fmt("%c%zu", x, i);};
  auto verify = [&] {
      size_t size = 777;
      MC_CHECK(
        a.lib([&] {return rcutils_string_map_get_size(&a.s, &size);}) == RCUTILS_RET_OK && size == a.m.size(), "string_map_large:size",
        "size is %zu, expected %zu", size, a.m.size());
      for (size_t i = 0; i < n; i += how || n < 300 ? 1 : 37) {
        std::string s = key(i);
        a.probe(s, a.lib([&] {return rcutils_string_map_get(&a.s, ro(s));}), a.lib([&] {return rcutils_string_map_key_exists(&a.s, ro(s));}), "get");
        std::string longer = s + "#";
        a.probe(
          s, a.lib([&] {return rcutils_string_map_getn(&a.s, ro(longer), s.size());}), a.lib([&] {return rcutils_string_map_key_existsn(&a.s, ro(longer), s.size());}),
          "getn");
      }
      if (how || n < 300) {
        std::string s = how == 1 ? std::string((size_t)k - 1, 'k') : "x";
        a.probe(s, a.lib([&] {return rcutils_string_map_get(&a.s, ro(s));}), a.lib([&] {return rcutils_string_map_key_exists(&a.s, ro(s));}), "get");
      }
      std::map<std::string, int> seen;
      for (const char * p = a.lib([&] {return rcutils_string_map_get_next_key(&a.s, nullptr);}); p; p = a.lib([&] {return rcutils_string_map_get_next_key(&a.s, p);})) {
        MC_CHECK(
          seen.size() < a.m.size() && a.m.count(p) && !seen[p]++, "string_map_large:iterate", "iteration yields %s at step %zu",
          mc::q(p).c_str(), seen.size());
      }
      MC_CHECK(seen.size() == a.m.size(), "string_map_large:iterate", "iteration yields %zu of %zu keys", seen.size(), a.m.size());
    };
  for (size_t i = 0; i < n; ++i) {a.do_set(key(i).c_str(), val(i, 'v').c_str(), true);}
  verify();
  for (size_t i = 0; i < n; i += 2) {
    rcutils_ret_t r = a.lib([&] {return rcutils_string_map_unset(&a.s, ro(key(i)));});
    MC_CHECK(r == RCUTILS_RET_OK, "string_map_large:unset", "unset returned %d", r);
    a.m.erase(key(i));
  }
  verify();
  rcutils_string_map_t copy = rcutils_get_zero_initialized_string_map();
  MC_CHECK(rcutils_string_map_init(&copy, 0, a.A) == RCUTILS_RET_OK, "string_map_large:copy", "init failed");
  rcutils_ret_t r = a.lib([&] {return rcutils_string_map_copy(&a.s, &copy);});
  MC_CHECK(r == RCUTILS_RET_OK, "string_map_large:copy", "copy returned %d", r);
  r = a.lib([&] {return rcutils_string_map_reserve(&a.s, 0);});
  MC_CHECK(r == RCUTILS_RET_OK && a.getcap() == a.m.size(), "string_map_large:reserve", "reserve(0) leaves capacity %zu", a.getcap());
  a.mcap = a.getcap();
  verify();
  for (size_t i = 0; i < n; i += 4) {a.do_set(key(i).c_str(), val(i, 'w').c_str(), true);}
  verify();
  r = a.lib([&] {return rcutils_string_map_clear(&a.s);});
  MC_CHECK(r == RCUTILS_RET_OK, "string_map_large:clear", "clear returned %d", r);
  a.m.clear();
  verify();
  // the copy is independent of its source
  std::swap(a.s, copy);
  for (size_t i = 1; i < n; i += 2) {a.m[key(i)] = val(i, 'v');}
  verify();
  MC_CHECK(rcutils_string_map_fini(&copy) == RCUTILS_RET_OK, "string_map_large:fini", "fini failed");
  a.finish();
  c.outcome(fmt("%zu %d %d %zu", n, how, k, cap));
}
void string_array_large(mc::Ctx & c, int max)
{
  bool wide = c.flip();
  int k = large(c, max);
  size_t n = wide ? 4 : (size_t)k;
  int order = c.choose(3);
  c.note("%zu entries of %d characters, order %d", n, wide ? k : 6, order);
  StringArray a(n), b(n);
  a.id = b.id = "string_array_large";
  a.start();
  b.start();
  auto text = [&](size_t i) {return wide ? std::string((size_t)k - 1, 'x') + (char)('a' + i) : fmt("%06zu", i);};
  for (size_t i = 0; i < n; ++i) {
    size_t v = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7919) % n;
    a.put(i, text(v).c_str());
    b.put(i, text(i).c_str());
  }
  a.apply(17);
  a.check();
  auto cmp = [&](int want, const char * what) {
      int res = 99;
      rcutils_ret_t r = a.lib([&] {return rcutils_string_array_cmp(&a.s, &b.s, &res);});
      MC_CHECK(
        r == RCUTILS_RET_OK && (res < 0 ? -1 : res > 0) == want, "string_array_large:cmp", "%s: returned %d, result %d", what, r, res);
    };
  std::sort(a.m.begin(), a.m.end());
  if (order < 2 || a.m == b.m) {cmp(0, "equal");}
  for (size_t i : {(size_t)0, n / 2, n - 1}) {
    if (order == 2 && a.m != b.m) {break;}
    std::string was = b.m[i];
    b.put(i, (was + "!").c_str());
    cmp(-1, "longer entry");
    b.put(i, was.substr(0, was.size() - 1).c_str());
    cmp(1, "shorter entry");
    b.put(i, was.c_str());
  }
  for (size_t m : {n + 1, n * 2, n, n - 1, (size_t)2}) {
    rcutils_ret_t r = a.lib([&] {return rcutils_string_array_resize(&a.s, m);});
    MC_CHECK(r == RCUTILS_RET_OK, "string_array_large:resize", "resize to %zu returned %d", m, r);
    a.m.resize(m, StringArray::null());
    a.check();
  }
  a.finish();
  b.finish();
  c.outcome(fmt("%zu %d %d", n, k, order));
}
