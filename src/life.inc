// C49: objects own what they need and may be moved. C50: life cycles. C51: callbacks that use the library.

// One object of a type, in a block of its own that can be replaced by a copy elsewhere.
struct Thing
{
  Env & e;
  std::string name;
  size_t bytes;
  void * p;
  Thing(Env & env, const char * n, size_t size)
  : e(env), name(n), bytes(size), p(malloc(size)) {}
  virtual ~Thing() {free(p);}
  Thing(const Thing &) = delete;
  void move()
  {
    void * to = malloc(bytes);
    memcpy(to, p, bytes);
    memset(p, 0xA5, bytes);
    free(p);
    p = to;
  }
  // an allocator description that is gone when the call has returned
  template<class F>
  int lend(F f)
  {
    rcutils_allocator_t * a = (rcutils_allocator_t *)malloc(sizeof(rcutils_allocator_t));
    *a = e.A;
    int r = (int)f(a);
    memset((void *)a, 0x5A, sizeof(*a));
    free(a);
    return r;
  }
  void ok(int r, const char * what) const
  {
    MC_CHECK(r == 0, "life:ret", "%s: %s returned %d", name.c_str(), what, r);
  }
  void same(bool b, const std::string & what) const
  {
    MC_CHECK(b, "life:content", "%s: %s", name.c_str(), what.c_str());
  }
  virtual int init() = 0;
  virtual int fini() = 0;
  virtual int nops() = 0;
  virtual std::string op(int i) = 0;
  virtual void verify() = 0;
  virtual std::string model() = 0;
  virtual bool bare() {return true;}         // what users can see of the structure is as in one never initialized
  virtual int use_dead() {return -77;}       // result of using it uninitialized; -77: no such use
  virtual int dead_result() {return -77;}
  virtual int live_init() {return -77;}      // result of initializing it while in use; -77: not defined
};
struct TList : Thing
{
  std::vector<int> m;
  rcutils_array_list_t * o() {return (rcutils_array_list_t *)p;}
  rcutils_array_list_t z;
  explicit TList(Env & env)
  : Thing(env, "array list", sizeof z)
  {
    z = rcutils_get_zero_initialized_array_list();
    memcpy(p, &z, sizeof z);
  }
  int init() override
  {
    m.clear();
    return lend([&](rcutils_allocator_t * a) {return rcutils_array_list_init(o(), 1, sizeof(int), a);});
  }
  int fini() override {m.clear(); return rcutils_array_list_fini(o());}
  bool bare() override {return !o()->impl;}
  int nops() override {return 3;}
  std::string op(int i) override
  {
    int v = 7 + (int)m.size();
    Exact x(&v, sizeof v);
    if (i == 0 || m.empty()) {
      ok(rcutils_array_list_add(o(), x.p), "add");
      m.push_back(v);
      return "add";
    }
    if (i == 1) {
      ok(rcutils_array_list_set(o(), m.size() - 1, x.p), "set");
      m.back() = v;
      return "set";
    }
    ok(rcutils_array_list_remove(o(), 0), "remove");
    m.erase(m.begin());
    return "remove";
  }
  void verify() override
  {
    size_t n = 99;
    ok(rcutils_array_list_get_size(o(), &n), "get_size");
    same(n == m.size(), fmt("size %zu, expected %zu", n, m.size()));
    for (size_t i = 0; i < n; ++i) {
      int v = -1;
      ok(rcutils_array_list_get(o(), i, &v), "get");
      same(v == m[i], fmt("entry %zu is %d, expected %d", i, v, m[i]));
    }
  }
  std::string model() override {std::string s; for (int v : m) {s += fmt("%d,", v);} return s;}
  int use_dead() override {int v = 1; return rcutils_array_list_add(o(), &v);}
  int dead_result() override {return NOI;}
  int live_init() override
  {
    return lend([&](rcutils_allocator_t * a) {return rcutils_array_list_init(o(), 1, sizeof(int), a);}) == INV ? 0 : 1;
  }
};
struct THash : Thing
{
  std::map<int, int> m;
  rcutils_hash_map_t * o() {return (rcutils_hash_map_t *)p;}
  rcutils_hash_map_t z;
  explicit THash(Env & env)
  : Thing(env, "hash map", sizeof z)
  {
    z = rcutils_get_zero_initialized_hash_map();
    memcpy(p, &z, sizeof z);
  }
  int init() override
  {
    m.clear();
    return lend([&](rcutils_allocator_t * a) {
               return rcutils_hash_map_init(o(), 2, sizeof(int), sizeof(int), PHash::hash, PHash::cmp, a);
             });
  }
  int fini() override {m.clear(); return rcutils_hash_map_fini(o());}
  bool bare() override {return !o()->impl;}
  int nops() override {return 3;}
  std::string op(int i) override
  {
    int k = i == 0 ? 10 + (int)m.size() : i == 1 ? 1 : m.empty() ? 1 : m.begin()->first, v = 100 + (int)m.size();
    Exact x(&k, sizeof k), y(&v, sizeof v);
    if (i < 2) {
      ok(rcutils_hash_map_set(o(), x.p, y.p), "set");
      m[k] = v;
      return fmt("set %d", k);
    }
    ok(rcutils_hash_map_unset(o(), x.p), "unset");
    m.erase(k);
    return fmt("unset %d", k);
  }
  void verify() override
  {
    size_t n = 99;
    ok(rcutils_hash_map_get_size(o(), &n), "get_size");
    same(n == m.size(), fmt("size %zu, expected %zu", n, m.size()));
    for (auto & kv : m) {
      int v = -1, k = kv.first;
      ok(rcutils_hash_map_get(o(), &k, &v), "get");
      same(v == kv.second, fmt("key %d has %d, expected %d", k, v, kv.second));
    }
    int k = 0, v = 0;
    std::set<int> seen;
    rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(o(), nullptr, &k, &v);
    while (r == RCUTILS_RET_OK) {
      same(m.count(k) && m[k] == v && seen.insert(k).second, fmt("iteration gives key %d", k));
      r = rcutils_hash_map_get_next_key_and_data(o(), &k, &k, &v);
    }
    same(seen.size() == m.size(), "iteration misses keys");
  }
  std::string model() override {std::string s; for (auto & v : m) {s += fmt("%d:%d,", v.first, v.second);} return s;}
  int use_dead() override {int v = 1; return rcutils_hash_map_set(o(), &v, &v);}
  int dead_result() override {return NOI;}
};
struct TMap : Thing
{
  std::map<std::string, std::string> m;
  rcutils_string_map_t * o() {return (rcutils_string_map_t *)p;}
  rcutils_string_map_t z;
  explicit TMap(Env & env)
  : Thing(env, "string map", sizeof z)
  {
    z = rcutils_get_zero_initialized_string_map();
    memcpy(p, &z, sizeof z);
  }
  int init() override {m.clear(); return rcutils_string_map_init(o(), 0, e.A);}
  int fini() override {m.clear(); return rcutils_string_map_fini(o());}
  bool bare() override {return !o()->impl;}
  int nops() override {return 4;}
  std::string op(int i) override
  {
    if (i < 2) {
      std::string k = i ? "same" : fmt("k%zu", m.size()), v = fmt("v%zu", m.size());
      Exact x(k), y(v);
      ok(rcutils_string_map_set(o(), x.p, y.p), "set");
      m[k] = v;
      return "set " + k;
    }
    if (i == 2 && !m.empty()) {
      std::string k = m.begin()->first;
      Exact x(k);
      ok(rcutils_string_map_unset(o(), x.p), "unset");
      m.erase(k);
      return "unset " + k;
    }
    ok(rcutils_string_map_reserve(o(), m.size() + 1), "reserve");
    return "reserve";
  }
  void verify() override
  {
    size_t n = 99;
    ok(rcutils_string_map_get_size(o(), &n), "get_size");
    same(n == m.size(), fmt("size %zu, expected %zu", n, m.size()));
    for (auto & kv : m) {
      const char * v = rcutils_string_map_get(o(), kv.first.c_str());
      same(v && kv.second == v, "key " + kv.first + " has another value");
    }
    std::set<std::string> seen;
    for (const char * k = rcutils_string_map_get_next_key(o(), nullptr); k; k = rcutils_string_map_get_next_key(o(), k)) {
      same(m.count(k) && seen.insert(k).second, "iteration gives a wrong key");
    }
    same(seen.size() == m.size(), "iteration misses keys");
  }
  std::string model() override {std::string s; for (auto & v : m) {s += v.first + ":" + v.second + ",";} return s;}
  int use_dead() override {return rcutils_string_map_set(o(), "a", "b");}
  int dead_result() override {return SMI;}
  int live_init() override {return rcutils_string_map_init(o(), 2, e.A) == SMA ? 0 : 1;}
};
struct TStrings : Thing
{
  std::vector<std::string> m;         // "": no entry
  rcutils_string_array_t * o() {return (rcutils_string_array_t *)p;}
  rcutils_string_array_t z;
  explicit TStrings(Env & env)
  : Thing(env, "string array", sizeof z)
  {
    z = rcutils_get_zero_initialized_string_array();
    memcpy(p, &z, sizeof z);
  }
  int init() override
  {
    m.assign(1, "");
    return lend([&](rcutils_allocator_t * a) {return rcutils_string_array_init(o(), 1, a);});
  }
  int fini() override {m.clear(); return rcutils_string_array_fini(o());}
  bool bare() override
  {
    rcutils_string_array_t n = rcutils_get_zero_initialized_string_array();
    int r = 9;
    return !o()->data && !o()->size && rcutils_string_array_cmp(o(), &n, &r) == 0 && r == 0;
  }
  int nops() override {return 4;}
  std::string op(int i) override
  {
    if (i == 0) {
      ok(rcutils_string_array_resize(o(), m.size() + 1), "resize");
      m.push_back("");
      return "grow";
    }
    if (i == 1 && !m.empty()) {
      ok(rcutils_string_array_resize(o(), m.size() - 1), "resize");
      m.pop_back();
      return "shrink";
    }
    if (i == 2) {
      for (size_t k = 0; k < m.size(); ++k) {
        if (!m[k].empty()) {continue;}
        m[k] = fmt("text%d", 9 - (int)k);
        o()->data[k] = rcutils_strdup(m[k].c_str(), e.A);
        same(o()->data[k] != nullptr, "strdup failed");
        break;
      }
      return "fill";
    }
    ok(rcutils_string_array_sort(o()), "sort");
    std::sort(m.begin(), m.end(), [](const std::string & x, const std::string & y) {
        return x.empty() ? false : y.empty() ? true : x < y;
      });
    return "sort";
  }
  void verify() override
  {
    same(o()->size == m.size(), fmt("size %zu, expected %zu", o()->size, m.size()));
    for (size_t i = 0; i < m.size(); ++i) {
      char * s = o()->data[i];
      same(m[i].empty() ? !s : s && m[i] == s, fmt("entry %zu is another one", i));
    }
  }
  std::string model() override {std::string s; for (auto & v : m) {s += v + ",";} return s;}
};
struct TChars : Thing
{
  std::string m;
  rcutils_char_array_t * o() {return (rcutils_char_array_t *)p;}
  rcutils_char_array_t z;
  explicit TChars(Env & env)
  : Thing(env, "char array", sizeof z)
  {
    z = rcutils_get_zero_initialized_char_array();
    memcpy(p, &z, sizeof z);
  }
  int init() override
  {
    m.clear();
    return lend([&](rcutils_allocator_t * a) {return rcutils_char_array_init(o(), 2, a);});
  }
  int fini() override {m.clear(); return rcutils_char_array_fini(o());}
  bool bare() override {return !o()->buffer && !o()->buffer_length && !o()->buffer_capacity;}
  int nops() override {return 4;}
  std::string op(int i) override
  {
    if (i == 0) {
      Exact x(std::string("first"));
      ok(rcutils_char_array_strcpy(o(), x.p), "strcpy");
      m = "first";
      return "strcpy";
    }
    if (i == 1) {
      Exact x(std::string("+more"));
      ok(rcutils_char_array_strcat(o(), x.p), "strcat");
      m += "+more";
      return "strcat";
    }
    if (i == 2) {
      Exact f(std::string("%d-%s")), x(std::string("a text"));
      ok(PChars::print(o(), f.p, 12345, x.p), "vsprintf");
      m = "12345-a text";
      return "vsprintf";
    }
    ok(rcutils_char_array_expand_as_needed(o(), o()->buffer_capacity + 3), "expand");
    return "expand";
  }
  void verify() override
  {
    same(!strcmp(o()->buffer, m.c_str()), "the text is another one");
    same(m.empty() || o()->buffer_length == m.size() + 1, "the length is another one");
  }
  std::string model() override {return m;}
};
struct TBytes : Thing
{
  std::string m;
  rcutils_uint8_array_t * o() {return (rcutils_uint8_array_t *)p;}
  rcutils_uint8_array_t z;
  explicit TBytes(Env & env)
  : Thing(env, "byte array", sizeof z)
  {
    z = rcutils_get_zero_initialized_uint8_array();
    memcpy(p, &z, sizeof z);
  }
  int init() override
  {
    m = "ab";
    int r = lend([&](rcutils_allocator_t * a) {return rcutils_uint8_array_init(o(), 2, a);});
    if (r == 0) {
      memcpy(o()->buffer, "ab", 2);
      o()->buffer_length = 2;
    }
    return r;
  }
  int fini() override {m.clear(); return rcutils_uint8_array_fini(o());}
  bool bare() override {return !o()->buffer && !o()->buffer_length && !o()->buffer_capacity;}
  int nops() override {return 3;}
  std::string op(int i) override
  {
    if (i == 2) {
      while (m.size() < o()->buffer_capacity) {
        m += (char)('a' + m.size() % 26);
        o()->buffer[m.size() - 1] = (uint8_t)m.back();
      }
      o()->buffer_length = m.size();
      return "fill";
    }
    size_t n = i == 0 ? o()->buffer_capacity + 3 : 1;
    ok(rcutils_uint8_array_resize(o(), n), "resize");
    if (m.size() > n) {m.resize(n);}
    return fmt("resize %zu", n);
  }
  void verify() override
  {
    same(o()->buffer_length == m.size() && !memcmp(o()->buffer, m.data(), m.size()), "the bytes are others");
  }
  std::string model() override {return m;}
};
struct TSha : Thing
{
  std::string m;
  rcutils_sha256_ctx_t * o() {return (rcutils_sha256_ctx_t *)p;}
  rcutils_sha256_ctx_t z;
  explicit TSha(Env & env)
  : Thing(env, "sha256 context", sizeof z) {memset(p, 0, sizeof z);}
  int init() override {m.clear(); rcutils_sha256_init(o()); return 0;}
  int fini() override
  {
    uint8_t a[32], b[32];
    rcutils_sha256_final(o(), a);
    rcutils_sha256_ctx_t c;
    rcutils_sha256_init(&c);
    rcutils_sha256_update(&c, (const uint8_t *)m.data(), m.size());
    rcutils_sha256_final(&c, b);
    same(!memcmp(a, b, 32), "the digest differs from that of a context that stayed where it was");
    return 0;
  }
  int nops() override {return 3;}
  std::string op(int i) override
  {
    static const size_t n[] = {1, 63, 130};
    std::string t = text_of(n[i], (int)m.size());
    Exact x(t.data(), t.size());
    rcutils_sha256_update(o(), (const uint8_t *)x.p, x.n);
    m += t;
    return fmt("update %zu", n[i]);
  }
  void verify() override {}
  std::string model() override {return fmt("%zu", m.size());}
};
struct TLib : Thing
{
  int loaded = -1;
  rcutils_shared_library_t * o() {return (rcutils_shared_library_t *)p;}
  rcutils_shared_library_t z;
  explicit TLib(Env & env)
  : Thing(env, "shared library", sizeof z)
  {
    z = rcutils_get_zero_initialized_shared_library();
    memcpy(p, &z, sizeof z);
  }
  ~TLib() override {if (loaded >= 0 && o()->lib_pointer) {__real_dlclose(o()->lib_pointer);}}
  int load(int k)
  {
    Exact x(lib_path(k));
    int r = rcutils_load_shared_library(o(), x.p, e.A);
    if (r == 0) {loaded = k;}
    return r;
  }
  int init() override {return load(0);}
  int fini() override {loaded = -1; return rcutils_unload_shared_library(o());}
  bool bare() override {return !o()->lib_pointer && !o()->library_path && !rcutils_is_shared_library_loaded(o());}
  int nops() override {return 2;}
  std::string op(int i) override
  {
    if (i == 0) {
      Exact x(std::string("vp_common"));
      same(rcutils_has_symbol(o(), x.p) && rcutils_get_symbol(o(), x.p), "the symbol is gone");
      return "get_symbol";
    }
    int k = 1 - loaded;
    ok(rcutils_unload_shared_library(o()), "unload");
    ok(load(k), "load");
    return fmt("reload %d", k);
  }
  void verify() override
  {
    same(o()->library_path && lib_path(loaded) == o()->library_path && rcutils_is_shared_library_loaded(o()), "the path is another one");
  }
  std::string model() override {return fmt("%d", loaded);}
  int use_dead() override {return rcutils_unload_shared_library(o());}
  int dead_result() override {return INV;}
  int live_init() override
  {
    Exact x(lib_path(1));
    return rcutils_load_shared_library(o(), x.p, e.A) == INV ? 0 : 1;
  }
};
enum {THINGS = 8};
const char * const THING_NAMES[] = {"array list", "hash map", "string map", "string array", "char array", "byte array",
  "sha256 context", "shared library"};
std::unique_ptr<Thing> thing(int k, Env & e)
{
  switch (k) {
    case 0: return std::make_unique<TList>(e);
    case 1: return std::make_unique<THash>(e);
    case 2: return std::make_unique<TMap>(e);
    case 3: return std::make_unique<TStrings>(e);
    case 4: return std::make_unique<TChars>(e);
    case 5: return std::make_unique<TBytes>(e);
    case 6: return std::make_unique<TSha>(e);
    default: return std::make_unique<TLib>(e);
  }
}
void moved(mc::Ctx & c, int kind, int depth)
{
  Env e("life");
  auto t = thing(kind, e);
  std::string how = t->name + ":";
  auto step = [&](const std::string & s) {how += " " + s; c.note("%s", s.c_str());};
  auto maybe = [&]() {
      if (c.flip()) {
        t->move();
        step("moved");
      }
    };
  t->ok(t->init(), "init");
  for (int i = 0; i < depth; ++i) {
    maybe();
    step(t->op(c.choose(t->nops())));
    t->verify();
    MC_CHECK(e.T.error.empty(), "life:misuse", "%s: %s", how.c_str(), e.T.error.c_str());
    c.state(t->name + t->model());
  }
  maybe();
  t->verify();
  maybe();
  t->ok(t->fini(), "fini");
  rcutils_reset_error();
  MC_CHECK(t->bare(), "life:bare", "%s: once finalized it still describes what it held", how.c_str());
  e.clean("after finalizing a moved object");
  c.outcome(how);
}
// ---- life cycles of two objects of a kind
void life_cycle(mc::Ctx & c, int kind, int depth)
{
  Env e("life");
  std::unique_ptr<Thing> t[2] = {thing(kind, e), thing(kind, e)};
  enum S {FRESH, LIVE, DONE} s[2] = {FRESH, FRESH};
  std::string how = t[0]->name + ":";
  auto judge = [&]() {
      MC_CHECK(e.T.error.empty(), "life:misuse", "%s: %s", how.c_str(), e.T.error.c_str());
      for (int k = 0; k < 2; ++k) {
        if (s[k] == LIVE) {t[k]->verify();} else {
          MC_CHECK(t[k]->bare(), "life:bare", "%s: object %d still describes what it held", how.c_str(), k);
        }
      }
      MC_CHECK(
        s[0] == LIVE || s[1] == LIVE || e.T.live.empty(), "life:leak", "%s: %zu blocks are allocated by no live object",
        how.c_str(), e.T.live.size());
    };
  for (int i = 0; i < depth; ++i) {
    int k = c.flip();
    Thing & x = *t[k];
    std::string was((char *)x.p, x.bytes);
    // 0 initialize, 1 finalize, 2.. use
    int op = c.choose(2 + std::min(x.nops(), 3));
    const char * n = op == 0 ? "init" : op == 1 ? "fini" : "use";
    how += fmt(" %s %d", n, k);
    c.note("%s %d", n, k);
    if (op == 0 && s[k] != LIVE) {
      x.ok(x.init(), s[k] == FRESH ? "init" : "init after fini");
      s[k] = LIVE;
    } else if (op == 0) {
      int r = x.live_init();
      MC_CHECK(r == -77 || r == 0, "life:again", "%s: initializing an object in use is not refused", how.c_str());
      if (r != -77) {
        MC_CHECK(was == std::string((char *)x.p, x.bytes), "life:again", "%s: refused, but changed", how.c_str());
      }
    } else if (op == 1 && s[k] == LIVE) {
      x.ok(x.fini(), "fini");
      s[k] = DONE;
    } else if (op == 1) {
      if (kind == 6) {continue;}
      int r = x.fini();
      MC_CHECK(
        r == 0 || r == INV || r == NOI || r == ERR, "life:fini", "%s: finalizing once more returned %d", how.c_str(), r);
    } else if (s[k] == LIVE) {
      how += " " + x.op(op - 2);
    } else {
      int r = x.use_dead();
      MC_CHECK(
        r == x.dead_result(), "life:dead", "%s: using an object that is not initialized returned %d", how.c_str(), r);
    }
    rcutils_reset_error();
    judge();
    c.state(fmt("%d %d %d ", kind, s[0], s[1]) + t[0]->model() + "|" + t[1]->model());
  }
  for (int k = 0; k < 2; ++k) {
    if (s[k] == LIVE) {
      t[k]->ok(t[k]->fini(), "fini");
      s[k] = DONE;
    }
  }
  rcutils_reset_error();
  e.clean("after the last finalization");
  c.outcome(how);
}
// ---- C51: callbacks that use the library
// A program works on objects of its own and writes down what it observes. Its allocator functions, hash, comparison
// and output functions call tick(), where another program may run.
struct Play
{
  struct Level {int ticks = 0; std::map<int, int> at; int every = -1; int prog = -1;};
  std::vector<Level> stack;
  std::vector<std::string> * solo = nullptr;
  std::map<int, std::map<int, int>> deeper;      // plan of the programs started at the first level
  std::string where;
};
Play * PLAY = nullptr;
std::string play_run(int prog, const std::map<int, int> & at, int every);
void tick()
{
  if (!PLAY || PLAY->stack.empty()) {return;}
  Play::Level & l = PLAY->stack.back();
  int k = l.ticks++;
  auto it = l.at.find(k);
  int p = it != l.at.end() ? it->second : l.every;
  if (p < 0) {return;}
  std::map<int, int> in;
  if (PLAY->stack.size() == 1 && PLAY->deeper.count(k)) {in = PLAY->deeper[k];}
  std::string got = play_run(p, in, -1);
  MC_CHECK(
    got == (*PLAY->solo)[(size_t)p], "nested:inner", "a program run inside a callback observed %s, alone it observes %s",
    mc::q(got).c_str(), mc::q((*PLAY->solo)[(size_t)p]).c_str());
}
struct Play_env
{
  Env e{"nested"};
  rcutils_allocator_t A;
  std::string log;
  Play_env()
  {
    A = e.A;
    A.state = &e;
    A.allocate = [](size_t n, void * s) {tick(); Env * x = (Env *)s; return x->A.allocate(n, x->A.state);};
    A.deallocate = [](void * p, void * s) {tick(); Env * x = (Env *)s; x->A.deallocate(p, x->A.state);};
    A.reallocate = [](void * p, size_t n, void * s) {
        tick();
        Env * x = (Env *)s;
        return x->A.reallocate(p, n, x->A.state);
      };
    A.zero_allocate = [](size_t n, size_t m, void * s) {
        tick();
        Env * x = (Env *)s;
        return x->A.zero_allocate(n, m, x->A.state);
      };
  }
  void say(const std::string & s) {log += s + ";";}
  void rc(const char * w, int r) {log += fmt("%s=%d;", w, r);}
  void text(char * s)
  {
    say(s ? std::string("'") + s + "'" : "NULL");
    if (s) {A.deallocate(s, A.state);}
  }
};
size_t play_hash(const void * k) {tick(); return (size_t)*(const int *)k & 1;}
int play_cmp(const void * a, const void * b) {tick(); return *(const int *)a - *(const int *)b;}
size_t play_text_hash(const void * k) {tick(); return rcutils_hash_map_string_hash_func(k);}
int play_text_cmp(const void * a, const void * b) {tick(); return rcutils_hash_map_string_cmp_func(a, b);}
std::vector<std::string *> play_logs;
void play_output(
  const rcutils_log_location_t * l, int severity, const char * name, rcutils_time_point_value_t, const char * f,
  va_list * ap)
{
  if (play_logs.empty()) {return;}
  std::string * to = play_logs.back();
  va_list copy;
  va_copy(copy, *ap);
  char early[80];
  vsnprintf(early, sizeof early, f, copy);
  va_end(copy);
  tick();
  char b[80], line[400];
  va_copy(copy, *ap);
  vsnprintf(b, sizeof b, f, copy);
  va_end(copy);
  *to += fmt("[%s %s %zu %d %s: %s %s]", l->function_name, l->file_name, l->line_number, severity, name, early, b);
  rcutils_char_array_t out = {line, true, 0, sizeof line, rcutils_get_default_allocator()};
  out.owns_buffer = false;
  line[0] = 0;
  out.buffer_length = 1;
  int r = rcutils_logging_format_message(l, severity, name, 1234567890123456789, b, &out);
  *to += fmt("%d %s;", r, out.buffer);
  tick();
  if (out.owns_buffer) {free(out.buffer);}
}
enum {PLAYS = 14};
const char * const PLAY_NAMES[] = {"array list", "hash map", "hash map of texts", "string map", "string array", "char array", "byte array", "texts",
  "splitting", "sorting", "logging", "files", "system", "environment"};
void play(int prog, Play_env & x, int level)
{
  rcutils_allocator_t & A = x.A;
  switch (prog) {
    case 0: {
        rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
        x.rc("init", rcutils_array_list_init(&l, 1, 4, &A));
        for (int i = 0; i < 4; ++i) {int v = i * 3 + 1; x.rc("add", rcutils_array_list_add(&l, &v));}
        int w = 50;
        x.rc("set", rcutils_array_list_set(&l, 2, &w));
        x.rc("remove", rcutils_array_list_remove(&l, 1));
        size_t n = 0;
        x.rc("size", rcutils_array_list_get_size(&l, &n));
        for (size_t i = 0; i < n; ++i) {int v = 0; x.rc("get", rcutils_array_list_get(&l, i, &v)); x.say(fmt("%d", v));}
        x.rc("fini", rcutils_array_list_fini(&l));
        break;
      }
    case 1: {
        rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
        x.rc("init", rcutils_hash_map_init(&h, 2, 4, 4, play_hash, play_cmp, &A));
        for (int i = 0; i < 4; ++i) {int k = i, v = i * 11; x.rc("set", rcutils_hash_map_set(&h, &k, &v));}
        int k = 1, v = 77;
        x.rc("set", rcutils_hash_map_set(&h, &k, &v));
        k = 2;
        x.rc("unset", rcutils_hash_map_unset(&h, &k));
        for (k = 0; k < 4; ++k) {
          v = -1;
          x.say(fmt("%d", (int)rcutils_hash_map_key_exists(&h, &k)));
          if (k != 2) {x.rc("get", rcutils_hash_map_get(&h, &k, &v)); x.say(fmt("%d", v));}
        }
        k = 3;
        x.rc("next", rcutils_hash_map_get_next_key_and_data(&h, nullptr, &k, &v));
        x.say(fmt("%d %d", k, v));
        int r = rcutils_hash_map_get_next_key_and_data(&h, &k, &k, &v);
        x.say(fmt("%d %d %d", r, k, v));
        x.rc("fini", rcutils_hash_map_fini(&h));
        break;
      }
    case 2: {
        rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
        x.rc("init", rcutils_hash_map_init(&h, 1, sizeof(char *), 4, play_text_hash, play_text_cmp, &A));
        static const char * const keys[] = {"one", "two", "three"};
        for (int i = 0; i < 3; ++i) {x.rc("set", rcutils_hash_map_set(&h, &keys[i], &i));}
        x.rc("unset", rcutils_hash_map_unset(&h, &keys[0]));
        for (int i = 1; i < 3; ++i) {int v = -1; x.rc("get", rcutils_hash_map_get(&h, &keys[i], &v)); x.say(fmt("%d", v));}
        size_t n = 9;
        x.rc("size", rcutils_hash_map_get_size(&h, &n));
        x.say(fmt("%zu", n));
        x.rc("fini", rcutils_hash_map_fini(&h));
        break;
      }
    case 3: {
        rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
        x.rc("init", rcutils_string_map_init(&m, 1, A));
        x.rc("set", rcutils_string_map_set(&m, "a", "first"));
        x.rc("set", rcutils_string_map_set(&m, "b", "second"));
        x.rc("set", rcutils_string_map_set(&m, "a", "third"));
        x.rc("unset", rcutils_string_map_unset(&m, "b"));
        x.rc("set", rcutils_string_map_set(&m, "c", "fourth"));
        for (const char * k = rcutils_string_map_get_next_key(&m, nullptr); k; k = rcutils_string_map_get_next_key(&m, k)) {
          const char * v = rcutils_string_map_get(&m, k);
          x.say(std::string(k) + ":" + (v ? v : "NULL"));
        }
        rcutils_string_map_t d = rcutils_get_zero_initialized_string_map();
        x.rc("init", rcutils_string_map_init(&d, 0, A));
        x.rc("copy", rcutils_string_map_copy(&m, &d));
        x.rc("clear", rcutils_string_map_clear(&m));
        const char * v = rcutils_string_map_get(&d, "a");
        x.say(v ? v : "NULL");
        x.rc("fini", rcutils_string_map_fini(&m));
        x.rc("fini", rcutils_string_map_fini(&d));
        break;
      }
    case 4: {
        rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(), b = rcutils_get_zero_initialized_string_array();
        x.rc("init", rcutils_string_array_init(&a, 3, &A));
        x.rc("init", rcutils_string_array_init(&b, 1, &A));
        a.data[0] = rcutils_strdup("pear", A);
        a.data[1] = rcutils_strdup("apple", A);
        b.data[0] = rcutils_strdup("apple", A);
        x.rc("sort", rcutils_string_array_sort(&a));
        x.rc("resize", rcutils_string_array_resize(&a, 1));
        int r = 9;
        x.rc("cmp", rcutils_string_array_cmp(&a, &b, &r));
        x.say(fmt("%d %zu %s", r, a.size, a.data[0]));
        x.rc("resize", rcutils_string_array_resize(&b, 2));
        x.say(fmt("%zu %s %d", b.size, b.data[0], b.data[1] != nullptr));
        x.rc("fini", rcutils_string_array_fini(&a));
        x.rc("fini", rcutils_string_array_fini(&b));
        break;
      }
    case 5: {
        rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
        x.rc("init", rcutils_char_array_init(&a, 0, &A));
        x.rc("strcpy", rcutils_char_array_strcpy(&a, "start"));
        x.rc("strcat", rcutils_char_array_strcat(&a, " and more"));
        x.say(a.buffer);
        x.rc("strncat", rcutils_char_array_strncat(&a, "12345", 2));
        x.say(a.buffer);
        x.rc("vsprintf", PChars::print(&a, "%d %s %c", 4711, "long text that needs more space", 'z'));
        x.say(a.buffer);
        x.rc("resize", rcutils_char_array_resize(&a, 80));
        x.say(a.buffer);
        x.rc("fini", rcutils_char_array_fini(&a));
        break;
      }
    case 6: {
        rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array();
        x.rc("init", rcutils_uint8_array_init(&a, 3, &A));
        memcpy(a.buffer, "xyz", 3);
        a.buffer_length = 3;
        x.rc("resize", rcutils_uint8_array_resize(&a, 9));
        x.say(std::string((char *)a.buffer, 3));
        x.rc("resize", rcutils_uint8_array_resize(&a, 2));
        x.say(std::string((char *)a.buffer, a.buffer_length));
        x.rc("fini", rcutils_uint8_array_fini(&a));
        break;
      }
    case 7:
      x.text(rcutils_strdup("duplicate", A));
      x.text(rcutils_strndup("duplicate", 4, A));
      x.text(rcutils_format_string(A, "%s=%d, %s", "value", 42, "and a longer rest of it"));
      x.text(rcutils_repl_str("a-b-c", "-", "<+>", &A));
      x.text(rcutils_join_path("left", "right", A));
      x.text(rcutils_to_native_path("p/q", A));
      x.text(rcutils_expand_user("/no/home", A));
      break;
    case 8: {
        rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(), b = rcutils_get_zero_initialized_string_array();
        x.rc("split", rcutils_split("/one/two//three", '/', A, &a));
        for (size_t i = 0; i < a.size; ++i) {x.say(a.data[i]);}
        x.rc("split_last", rcutils_split_last("one/two/three", '/', A, &b));
        for (size_t i = 0; i < b.size; ++i) {x.say(b.data[i]);}
        x.rc("fini", rcutils_string_array_fini(&a));
        x.rc("fini", rcutils_string_array_fini(&b));
        break;
      }
    case 9: {
        int v[7] = {5, 3, 9, 1, 3, 8, 2};
        x.rc("qsort", rcutils_qsort(v, 7, sizeof(int), play_cmp));
        for (int i : v) {x.say(fmt("%d", i));}
        struct Wide {int k; char pad[44];} w[4];
        for (int i = 0; i < 4; ++i) {memset(w[i].pad, 'a' + i, 44); w[i].k = (i * 3 + 2) % 4;}
        x.rc("qsort", rcutils_qsort(w, 4, sizeof(Wide), play_cmp));
        for (auto & i : w) {x.say(fmt("%d %c%c", i.k, i.pad[0], i.pad[43]));}
        break;
      }
    case 10: {
        std::string name = fmt("n%d.sub", level), log;
        play_logs.push_back(&log);
        rcutils_log_location_t at = {"f", "file.c", 99};
        x.rc("level", rcutils_logging_set_logger_level(fmt("n%d", level).c_str(), RCUTILS_LOG_SEVERITY_WARN));
        rcutils_log(&at, RCUTILS_LOG_SEVERITY_INFO, name.c_str(), "below %d", 1);
        rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, name.c_str(), "message %d %s %d", 17, "text", 18);
        x.rc("enabled", rcutils_logging_logger_is_enabled_for(name.c_str(), RCUTILS_LOG_SEVERITY_DEBUG));
        x.rc("level", rcutils_logging_set_logger_level(name.c_str(), RCUTILS_LOG_SEVERITY_DEBUG));
        rcutils_log(&at, RCUTILS_LOG_SEVERITY_DEBUG, name.c_str(), "%s", "second");
        x.rc("level", rcutils_logging_set_logger_level(name.c_str(), RCUTILS_LOG_SEVERITY_UNSET));
        x.rc("level", rcutils_logging_set_logger_level(fmt("n%d", level).c_str(), RCUTILS_LOG_SEVERITY_UNSET));
        play_logs.pop_back();
        std::string own = fmt("n%d", level);
        for (size_t i; (i = log.find(own)) != std::string::npos; ) {log.replace(i, own.size(), "N");}
        x.say(log);
        break;
      }
    case 11: {
        rcutils_dir_iter_t * it = rcutils_dir_iter_start("tree", A);
        std::set<std::string> seen;
        if (it) {
          do {seen.insert(it->entry_name);} while (rcutils_dir_iter_next(it));
          rcutils_dir_iter_end(it);
        }
        for (auto & s : seen) {x.say(s);}
        uint64_t size = 0;
        x.rc("size", rcutils_calculate_directory_size_with_recursion("tree", 0, &size, A));
        x.say(fmt("%llu", (unsigned long long)size));
        x.say(fmt("%zu %d", rcutils_get_file_size("tree/a"), rcutils_is_directory("tree/d")));
        break;
      }
    case 12: {
        x.text(rcutils_get_executable_name(A));
        rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
        x.rc("load", rcutils_load_shared_library(&l, lib_path(0).c_str(), A));
        x.say(fmt("%d", rcutils_has_symbol(&l, "vp_only0")));
        x.rc("unload", rcutils_unload_shared_library(&l));
        break;
      }
    default: {
        std::string n = fmt("VP_NESTED_%d", level);
        const char * v = nullptr;
        x.rc("set", rcutils_set_env(n.c_str(), "first"));
        const char * err = rcutils_get_env(n.c_str(), &v);
        x.say(err ? err : v);
        tick();
        x.say(v);                       // valid until the variable is changed
        x.rc("unset", rcutils_set_env(n.c_str(), nullptr));
        char date[40];
        x.rc("time", rcutils_time_point_value_as_nanoseconds_string(&std::array<int64_t, 1>{-12}[0], date, sizeof date));
        x.say(date);
        char * argv[] = {(char *)"p", (char *)"-o", (char *)"v"};
        tick();
        const char * o = rcutils_cli_get_option(argv, argv + 3, "-o");
        x.say(o ? o : "NULL");
      }
  }
}
std::string play_run(int prog, const std::map<int, int> & at, int every)
{
  Play::Level l;
  l.at = at;
  l.every = every;
  l.prog = prog;
  PLAY->stack.push_back(l);
  struct Pop {~Pop() {PLAY->stack.pop_back();}} pop;
  Play_env x;
  play(prog, x, (int)PLAY->stack.size());
  if (rcutils_error_is_set()) {
    x.say(std::string("error: ") + rcutils_get_error_string().str);
    rcutils_reset_error();
  }
  x.e.clean("after a program");
  return x.log;
}
int play_ticks[PLAYS];
std::vector<std::string> & play_solo()
{
  static std::vector<std::string> s;
  if (s.empty()) {
    mkdir("tree", 0755);
    mkdir("tree/d", 0755);
    for (auto n : {"tree/a", "tree/b", "tree/d/c"}) {
      FILE * f = fopen(n, "w");
      fprintf(f, "content of %s", n);
      fclose(f);
    }
    Play p;
    PLAY = &p;
    rcutils_logging_set_output_handler(play_output);
    for (int i = 0; i < PLAYS; ++i) {
      p.stack.clear();
      p.stack.emplace_back();
      p.stack.clear();
      // counted through a level that starts nothing
      Play::Level l;
      p.stack.push_back(l);
      Play_env x;
      play(i, x, 1);
      play_ticks[i] = p.stack.back().ticks;
      p.stack.clear();
      if (rcutils_error_is_set()) {mc::fail("nested:solo", "%s alone sets an error", PLAY_NAMES[i]);}
      s.push_back(x.log);
    }
    PLAY = nullptr;
  }
  return s;
}
// kind 0: one program at one callback; 1: two programs at two; 2: one at every; 3: one in one in one
void nested(mc::Ctx & c, int prog, int kind)
{
  rcutils_reset_error();
  Play p;
  p.solo = &play_solo();
  PLAY = &p;
  struct Off {~Off() {PLAY = nullptr; play_logs.clear();}} off;
  std::map<int, int> at;
  int every = -1;
  std::string how = PLAY_NAMES[prog];
  int n = play_ticks[prog];
  if (!n) {return;}
  if (kind == 2) {
    every = c.choose(PLAYS);
    how += std::string(": at every callback ") + PLAY_NAMES[every];
  } else {
    int k = c.choose(n), q = c.choose(PLAYS);
    at[k] = q;
    how += fmt(": at callback %d %s", k, PLAY_NAMES[q]);
    if (kind == 1) {
      int k2 = k + 1 + c.choose(n - k);
      if (k2 >= n) {return;}
      int q2 = c.choose(PLAYS);
      at[k2] = q2;
      how += fmt(", at %d %s", k2, PLAY_NAMES[q2]);
    } else if (kind == 3 && play_ticks[q]) {
      int k2 = c.choose(play_ticks[q]), q2 = c.choose(PLAYS);
      p.deeper[k][k2] = q2;
      how += fmt(", in which at %d %s", k2, PLAY_NAMES[q2]);
    }
  }
  c.note("%s", how.c_str());
  std::string got = play_run(prog, at, every);
  MC_CHECK(
    got == (*p.solo)[(size_t)prog], "nested:outer", "%s: the program observed %s, alone it observes %s", how.c_str(),
    mc::q(got).c_str(), mc::q((*p.solo)[(size_t)prog]).c_str());
  c.outcome(how);
}
