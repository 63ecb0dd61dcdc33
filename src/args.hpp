// C37: a table of every public function with checked arguments. Each argument has variants; variant 0 is
// valid, every other one carries the result the call has to give. All combinations are tried.
enum {OK_ = 0, INV = RCUTILS_RET_INVALID_ARGUMENT, NOI = RCUTILS_RET_NOT_INITIALIZED, ERR = RCUTILS_RET_ERROR,
  SMI = RCUTILS_RET_STRING_MAP_INVALID, SMA = RCUTILS_RET_STRING_MAP_ALREADY_INIT, NUL = 1000, MIN1 = 1001,
  EOI = 1002 /* RCUTILS_RET_ERROR or invalid argument */, HARMLESS = 1003 /* succeeds without any effect */,
  HNUL = 1004 /* null without an error message */,
  QINV = 1005 /* invalid argument, perhaps without a message */};
struct World
{
  Env e{"args"};
  rcutils_allocator_t bad = rcutils_get_zero_initialized_allocator(), half = e.A;
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list(), l0 = l;
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map(), h0 = h;
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), m0 = m, n = m;
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(), a0 = a, ab = a, ad = a, ae = a;
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array(), c0 = c, cb = c;
  rcutils_uint8_array_t u = rcutils_get_zero_initialized_uint8_array(), u0 = u, ub = u;
  rcutils_shared_library_t s = rcutils_get_zero_initialized_shared_library(), s0 = s;
  rcutils_dir_iter_t di0{};
  char out[512];
  char elem[8] = "element";
  int key = 3, val = 44, nokey = 4;
  std::string path = scratch;
  void need(rcutils_ret_t r) {if (r != RCUTILS_RET_OK) {throw mc::Divergence{"setup of C37"};}}
  explicit World(bool emptied)
  {
    half.reallocate = nullptr;
    memset(out, 0x5A, sizeof(out));
    need(rcutils_array_list_init(&l, 2, 4, &e.A));
    need(rcutils_array_list_add(&l, "abc"));
    need(rcutils_hash_map_init(&h, 2, 4, 4, PHash::hash, PHash::cmp, &e.A));
    need(rcutils_hash_map_set(&h, &key, &val));
    need(rcutils_string_map_init(&m, 2, e.A));
    need(rcutils_string_map_set(&m, "k", "v"));
    need(rcutils_string_map_init(&n, 1, e.A));
    need(rcutils_string_array_init(&a, 2, &e.A));
    a.data[0] = rcutils_strdup("s", e.A);
    a.data[1] = rcutils_strdup("r", e.A);
    ab = a;
    ab.allocator = bad;
    ad = a;
    ad.data = nullptr;
    need(rcutils_string_array_init(&ae, 2, &e.A));
    ae.data[0] = rcutils_strdup("s", e.A);      // second entry NULL
    need(rcutils_char_array_init(&c, 4, &e.A));
    need(rcutils_char_array_strcpy(&c, "xy"));
    cb = c;
    cb.allocator = bad;
    need(rcutils_uint8_array_init(&u, 4, &e.A));
    memcpy(u.buffer, "wxyz", 4);
    u.buffer_length = 3;
    ub = u;
    ub.allocator = half;
    need(rcutils_load_shared_library(&s, ro(lib_path(0)), e.A));
    if (emptied) {
      need(rcutils_array_list_remove(&l, 0));
      need(rcutils_hash_map_unset(&h, &key));
      need(rcutils_string_map_clear(&m));
      need(rcutils_string_map_reserve(&m, 0));
      u.buffer_length = 0;
    }
    rcutils_reset_error();
  }
  uint64_t digest()
  {
    mc::Hasher H;
    trk::canon(
      H, e.T, {{&l, sizeof l}, {&l0, sizeof l0}, {&h, sizeof h}, {&h0, sizeof h0}, {&m, sizeof m}, {&m0, sizeof m0},
        {&n, sizeof n}, {&a, sizeof a}, {&a0, sizeof a0}, {&ab, sizeof ab}, {&ad, sizeof ad}, {&ae, sizeof ae},
        {&c, sizeof c}, {&c0, sizeof c0}, {&cb, sizeof cb}, {&u, sizeof u}, {&u0, sizeof u0}, {&ub, sizeof ub},
        {&s, sizeof s}, {&s0, sizeof s0}, {&di0, sizeof di0}, {out, sizeof out}, {elem, sizeof elem}, {&key, sizeof key},
        {&val, sizeof val}});
    return H.a ^ H.b * 31;
  }
  void fini()
  {
    bool ok = rcutils_array_list_fini(&l) == 0 && rcutils_hash_map_fini(&h) == 0 && rcutils_string_map_fini(&m) == 0 &&
      rcutils_string_map_fini(&n) == 0 && rcutils_string_array_fini(&a) == 0 && rcutils_string_array_fini(&ae) == 0 &&
      rcutils_char_array_fini(&c) == 0 && rcutils_uint8_array_fini(&u) == 0 && rcutils_unload_shared_library(&s) == 0;
    MC_CHECK(ok, "args:fini", "the objects cannot be finalized after a rejected call");
    rcutils_reset_error();
    e.clean("after finalizing everything");
  }
  ~World()
  {
    if (s.lib_pointer) {__real_dlclose(s.lib_pointer);}
  }
};
typedef const int * V;      // variant index of each argument
typedef std::function<int(World &, V)> Call;
struct ArgCase
{
  const char * name;
  std::vector<std::vector<int>> args;
  int err;                  // 1: sets the error message, 0: not judged
  Call call;
};
inline int ptr(const void * p) {return p ? OK_ : NUL;}
template<class T>
T * opt(int v, T * p) {return v ? nullptr : p;}
// variants: 0 the object, 1 NULL, 2 zero-initialized
template<class T>
T * obj(int v, T * p, T * z) {return v == 0 ? p : v == 1 ? nullptr : z;}
// variants of an allocator pointer: 0 valid, 1 NULL, 2 all functions missing, 3 one function missing
inline rcutils_allocator_t * alp(World & w, int v)
{
  return v == 0 ? &w.e.A : v == 1 ? nullptr : v == 2 ? &w.bad : &w.half;
}
inline rcutils_allocator_t alv(World & w, int v) {return v == 0 ? w.e.A : v == 1 ? w.bad : w.half;}
std::vector<ArgCase> ARGS;
void args_table()
{
  auto & t = ARGS;
  auto O = [&](World & w) -> void * {return w.out;};
  // ---- array list
  const std::vector<int> L = {OK_, INV, NOI}, N = {OK_, INV}, AP = {OK_, QINV, QINV, QINV}, AV = {OK_, QINV, QINV};
  t.push_back({"array_list_init", {{OK_, INV, INV}, {OK_, INV}, {OK_, INV}, AP}, 1, [](World & w, V v) {
        rcutils_array_list_t * p = v[0] == 0 ? &w.l0 : v[0] == 1 ? nullptr : &w.l;      // the last one is in use
        int r = rcutils_array_list_init(p, v[1] ? 0 : 2, v[2] ? 0 : 4, alp(w, v[3]));
        if (r == 0) {(void)!rcutils_array_list_fini(p);}
        return r;
      }});
  t.push_back({"array_list_fini", {L}, 1, [](World & w, V v) {
        int r = rcutils_array_list_fini(obj(v[0], &w.l, &w.l0));
        if (r == 0) {w.need(rcutils_array_list_init(&w.l, 2, 4, &w.e.A));}
        return r;
      }});
  t.push_back({"array_list_add", {L, N}, 1, [](World & w, V v) {
        return (int)rcutils_array_list_add(obj(v[0], &w.l, &w.l0), opt(v[1], w.elem));
      }});
  const std::vector<int> IX = {OK_, INV, INV, INV};
  static const size_t ix[] = {0, 1, 2, SIZE_MAX};
  t.push_back({"array_list_set", {L, IX, N}, 1, [](World & w, V v) {
        return (int)rcutils_array_list_set(obj(v[0], &w.l, &w.l0), ix[v[1]], opt(v[2], w.elem));
      }});
  t.push_back({"array_list_remove", {L, IX}, 1, [](World & w, V v) {
        return (int)rcutils_array_list_remove(obj(v[0], &w.l, &w.l0), ix[v[1]]);
      }});
  t.push_back({"array_list_get", {L, IX, N}, 1, [O](World & w, V v) {
        return (int)rcutils_array_list_get(obj(v[0], &w.l, &w.l0), ix[v[1]], opt(v[2], O(w)));
      }});
  t.push_back({"array_list_get_size", {L, N}, 1, [](World & w, V v) {
        return (int)rcutils_array_list_get_size(obj(v[0], &w.l, &w.l0), opt(v[1], (size_t *)w.out));
      }});
  // ---- hash map
  t.push_back({"hash_map_init", {N, N, N, N, N, N, AP}, 1, [](World & w, V v) {
        int r = rcutils_hash_map_init(
          opt(v[0], &w.h0), v[1] ? 0 : 2, v[2] ? 0 : 4, v[3] ? 0 : 4, v[4] ? nullptr : PHash::hash,
          v[5] ? nullptr : PHash::cmp, alp(w, v[6]));
        if (r == 0) {(void)!rcutils_hash_map_fini(&w.h0);}
        return r;
      }});
  t.push_back({"hash_map_fini", {L}, 1, [](World & w, V v) {
        int r = rcutils_hash_map_fini(obj(v[0], &w.h, &w.h0));
        if (r == 0) {w.need(rcutils_hash_map_init(&w.h, 2, 4, 4, PHash::hash, PHash::cmp, &w.e.A));}
        return r;
      }});
  t.push_back({"hash_map_get_capacity", {L, N}, 1, [](World & w, V v) {
        return (int)rcutils_hash_map_get_capacity(obj(v[0], &w.h, &w.h0), opt(v[1], (size_t *)w.out));
      }});
  t.push_back({"hash_map_get_size", {L, N}, 1, [](World & w, V v) {
        return (int)rcutils_hash_map_get_size(obj(v[0], &w.h, &w.h0), opt(v[1], (size_t *)w.out));
      }});
  t.push_back({"hash_map_set", {L, N, N}, 1, [](World & w, V v) {
        return (int)rcutils_hash_map_set(obj(v[0], &w.h, &w.h0), opt(v[1], &w.key), opt(v[2], &w.val));
      }});
  t.push_back({"hash_map_unset", {L, N}, 1, [](World & w, V v) {
        return (int)rcutils_hash_map_unset(obj(v[0], &w.h, &w.h0), opt(v[1], &w.key));
      }});
  t.push_back({"hash_map_key_exists", {{OK_, NUL, NUL}, {OK_, NUL}}, 0, [](World & w, V v) {
        return rcutils_hash_map_key_exists(obj(v[0], &w.h, &w.h0), opt(v[1], &w.key)) ? OK_ : NUL;
      }});
  t.push_back({"hash_map_get", {L, N, N}, 1, [O](World & w, V v) {
        return (int)rcutils_hash_map_get(obj(v[0], &w.h, &w.h0), opt(v[1], &w.key), opt(v[2], O(w)));
      }});
  t.push_back({"hash_map_get_next", {L, {OK_, OK_, RCUTILS_RET_NOT_FOUND}, N, N}, 0, [O](World & w, V v) {
        int r = rcutils_hash_map_get_next_key_and_data(
          obj(v[0], &w.h, &w.h0), v[1] == 0 ? nullptr : v[1] == 1 ? &w.key : &w.nokey, opt(v[2], O(w)),
          opt(v[3], (void *)(w.out + 64)));
        return v[1] == 1 && r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES ? (int)OK_ : r;
      }});
  // ---- string map
  const std::vector<int> M = {OK_, INV, SMI};
  t.push_back({"string_map_init", {{OK_, INV, SMA}, {OK_, OK_}, AV}, 1, [](World & w, V v) {
        int r = rcutils_string_map_init(obj(v[0], &w.m0, &w.m), v[1] ? 0 : 2, alv(w, v[2]));
        if (r == 0) {(void)!rcutils_string_map_fini(&w.m0);}
        return r;
      }});
  t.push_back({"string_map_fini", {{OK_, INV, HARMLESS}}, 1, [](World & w, V v) {
        int r = rcutils_string_map_fini(obj(v[0], &w.m, &w.m0));
        if (r == 0 && v[0] == 0) {w.need(rcutils_string_map_init(&w.m, 2, w.e.A));}
        return r;
      }});
  t.push_back({"string_map_get_capacity", {M, N}, 1, [](World & w, V v) {
        return (int)rcutils_string_map_get_capacity(obj(v[0], &w.m, &w.m0), opt(v[1], (size_t *)w.out));
      }});
  t.push_back({"string_map_get_size", {M, N}, 1, [](World & w, V v) {
        return (int)rcutils_string_map_get_size(obj(v[0], &w.m, &w.m0), opt(v[1], (size_t *)w.out));
      }});
  t.push_back({"string_map_reserve", {M, {OK_, OK_, RCUTILS_RET_BAD_ALLOC}}, 1, [](World & w, V v) {
        static const size_t n[] = {3, 0, SIZE_MAX};
        return (int)rcutils_string_map_reserve(obj(v[0], &w.m, &w.m0), n[v[1]]);
      }});
  t.push_back({"string_map_clear", {M}, 1, [](World & w, V v) {
        return (int)rcutils_string_map_clear(obj(v[0], &w.m, &w.m0));
      }});
  t.push_back({"string_map_set", {M, N, N}, 1, [](World & w, V v) {
        return (int)rcutils_string_map_set(obj(v[0], &w.m, &w.m0), opt(v[1], "k2"), opt(v[2], "v2"));
      }});
  t.push_back({"string_map_set_no_resize", {M, N, N}, 1, [](World & w, V v) {
        return (int)rcutils_string_map_set_no_resize(obj(v[0], &w.m, &w.m0), opt(v[1], "k2"), opt(v[2], "v2"));
      }});
  t.push_back({"string_map_unset", {M, {OK_, INV, RCUTILS_RET_STRING_KEY_NOT_FOUND}}, 1, [](World & w, V v) {
        return (int)rcutils_string_map_unset(obj(v[0], &w.m, &w.m0), v[1] == 0 ? "k" : v[1] == 1 ? nullptr : "none");
      }});
  const std::vector<int> Z3 = {OK_, HNUL, HNUL};
  t.push_back({"string_map_key_exists", {Z3, Z3}, 1, [](World & w, V v) {
        return rcutils_string_map_key_exists(obj(v[0], &w.m, &w.m0), v[1] == 0 ? "k" : v[1] == 1 ? nullptr : "q") ?
               OK_ : HNUL;
      }});
  t.push_back({"string_map_key_existsn", {Z3, {OK_, HNUL, HNUL, HNUL}}, 1, [](World & w, V v) {
        return rcutils_string_map_key_existsn(
          obj(v[0], &w.m, &w.m0), v[1] == 1 ? nullptr : v[1] == 2 ? "q" : "k", v[1] == 3 ? 0 : 1) ? OK_ : HNUL;
      }});
  t.push_back({"string_map_get", {Z3, Z3}, 1, [](World & w, V v) {
        return rcutils_string_map_get(obj(v[0], &w.m, &w.m0), v[1] == 0 ? "k" : v[1] == 1 ? nullptr : "q") ? OK_ : HNUL;
      }});
  t.push_back({"string_map_getn", {Z3, {OK_, HNUL, HNUL, HNUL}}, 1, [](World & w, V v) {
        return rcutils_string_map_getn(
          obj(v[0], &w.m, &w.m0), v[1] == 1 ? nullptr : v[1] == 2 ? "q" : "k", v[1] == 3 ? 0 : 1) ? OK_ : HNUL;
      }});
  t.push_back({"string_map_get_next_key", {Z3, {OK_, HNUL, HNUL}}, 1, [](World & w, V v) {
        return rcutils_string_map_get_next_key(
          obj(v[0], &w.m, &w.m0), v[1] == 0 ? nullptr : v[1] == 1 ? rcutils_string_map_get_next_key(&w.m, nullptr) :
          "foreign") ? OK_ : HNUL;
      }});
  t.push_back({"string_map_copy", {M, M}, 1, [](World & w, V v) {
        return (int)rcutils_string_map_copy(obj(v[0], &w.m, &w.m0), obj(v[1], &w.n, &w.m0));
      }});
  // ---- string array
  t.push_back({"string_array_init", {N, {OK_, OK_}, N}, 1, [](World & w, V v) {
        int r = rcutils_string_array_init(opt(v[0], &w.a0), v[1] ? 0 : 2, opt(v[2], &w.e.A));
        if (r == 0) {(void)!rcutils_string_array_fini(&w.a0); w.a0 = rcutils_get_zero_initialized_string_array();}
        return r;
      }});
  t.push_back({"string_array_fini", {{OK_, INV, HARMLESS, INV}}, 1, [](World & w, V v) {
        int r = rcutils_string_array_fini(v[0] == 3 ? &w.ab : obj(v[0], &w.a, &w.a0));
        if (r == 0 && v[0] == 0) {w.need(rcutils_string_array_init(&w.a, 0, &w.e.A));}
        return r;
      }});
  const std::vector<int> SA = {OK_, INV, OK_, INV, ERR};
  t.push_back({"string_array_cmp", {SA, SA, N}, 1, [](World & w, V v) {
        auto pick = [&](int k) {
            return k == 0 ? &w.a : k == 1 ? nullptr : k == 2 ? &w.a0 : k == 3 ? &w.ad : &w.ae;
          };
        // an empty array has no elements to look at
        if ((v[0] == 2 && v[1] >= 3) || (v[1] == 2 && v[0] >= 3)) {return -77;}
        return (int)rcutils_string_array_cmp(pick(v[0]), pick(v[1]), opt(v[2], (int *)w.out));
      }});
  t.push_back({"string_array_resize", {{OK_, INV, INV, INV}, {OK_}}, 1, [](World & w, V v) {
        return (int)rcutils_string_array_resize(v[0] == 3 ? &w.a0 : v[0] == 2 ? &w.ab : opt(v[0], &w.a), 5);
      }});
  t.push_back({"string_array_sort", {{OK_, INV, HARMLESS, INV}}, 1, [](World & w, V v) {
        return (int)rcutils_string_array_sort(v[0] == 3 ? &w.ad : obj(v[0], &w.a, &w.a0));
      }});
  // ---- char array: errors are RCUTILS_RET_ERROR or an invalid argument
  const std::vector<int> C = {OK_, EOI};
  t.push_back({"char_array_init", {C, {OK_, OK_}, {OK_, EOI, EOI, EOI}}, 1, [](World & w, V v) {
        int r = rcutils_char_array_init(opt(v[0], &w.c0), v[1] ? 0 : 2, alp(w, v[2]));
        if (r == 0) {(void)!rcutils_char_array_fini(&w.c0); w.c0 = rcutils_get_zero_initialized_char_array();}
        return r;
      }});
  t.push_back({"char_array_fini", {{OK_, EOI, EOI}}, 1, [](World & w, V v) {
        int r = rcutils_char_array_fini(obj(v[0], &w.c, &w.cb));
        if (r == 0) {w.need(rcutils_char_array_init(&w.c, 0, &w.e.A));}
        return r;
      }});
  t.push_back({"char_array_resize", {{OK_, EOI, EOI, EOI}, {OK_, INV}}, 1, [](World & w, V v) {
        return (int)rcutils_char_array_resize(
          v[0] == 3 ? &w.c0 : obj(v[0], &w.c, &w.cb), v[1] ? 0 : 9);
      }});
  t.push_back({"char_array_expand", {{OK_, EOI, EOI, EOI}, {OK_}}, 1, [](World & w, V v) {
        return (int)rcutils_char_array_expand_as_needed(v[0] == 3 ? &w.c0 : obj(v[0], &w.c, &w.cb), 9);
      }});
  // ---- byte array
  t.push_back({"uint8_array_init", {N, {OK_, OK_}, AP}, 1, [](World & w, V v) {
        int r = rcutils_uint8_array_init(opt(v[0], &w.u0), v[1] ? 0 : 2, alp(w, v[2]));
        if (r == 0) {(void)!rcutils_uint8_array_fini(&w.u0); w.u0 = rcutils_get_zero_initialized_uint8_array();}
        return r;
      }});
  t.push_back({"uint8_array_fini", {{OK_, INV, QINV, QINV}}, 1, [](World & w, V v) {
        int r = rcutils_uint8_array_fini(v[0] == 3 ? &w.u0 : obj(v[0], &w.u, &w.ub));
        if (r == 0) {w.need(rcutils_uint8_array_init(&w.u, 0, &w.e.A));}
        return r;
      }});
  t.push_back({"uint8_array_resize", {{OK_, INV, QINV, QINV}, {OK_, INV}}, 1, [](World & w, V v) {
        return (int)rcutils_uint8_array_resize(v[0] == 3 ? &w.u0 : obj(v[0], &w.u, &w.ub), v[1] ? 0 : 9);
      }});
  // ---- functions on strings
  const std::vector<int> PN = {OK_, NUL}, PA = {OK_, NUL, NUL}, PAP = {OK_, NUL, NUL, NUL};
  auto give = [](World & w, char * p) {
      int r = ptr(p);
      if (p) {w.e.A.deallocate(p, w.e.A.state);}
      return r;
    };
  t.push_back({"strdup", {PN, PA}, 0, [give](World & w, V v) {
        return give(w, rcutils_strdup(opt(v[0], "x"), alv(w, v[1])));
      }});
  t.push_back({"strndup", {PN, PA}, 0, [give](World & w, V v) {
        return give(w, rcutils_strndup(opt(v[0], "x"), 1, alv(w, v[1])));
      }});
  t.push_back({"format_string", {PN, PA}, 0, [give](World & w, V v) {
        const char * f = v[0] ? nullptr : "x%d";
        return give(w, rcutils_format_string_limit(alv(w, v[1]), 10, f, 5));
      }});
  t.push_back({"repl_str", {PAP}, 0, [give](World & w, V v) {
        return give(w, rcutils_repl_str("abc", "b", "x", alp(w, v[0])));
      }});
  t.push_back({"split", {{OK_, OK_, OK_}, {OK_, OK_}, N}, 0, [](World & w, V v) {
        rcutils_string_array_t x = rcutils_get_zero_initialized_string_array();
        int r = rcutils_split(v[0] == 0 ? "a/b" : v[0] == 1 ? nullptr : "", '/', w.e.A, opt(v[2], &x));
        if (!v[2]) {
          if (v[0] && x.size) {return -1;}
          (void)!rcutils_string_array_fini(&x);
        }
        return r;
      }});
  t.push_back({"split_last", {{OK_, OK_, OK_}}, 0, [](World & w, V v) {
        rcutils_string_array_t x = rcutils_get_zero_initialized_string_array();
        int r = rcutils_split_last(v[0] == 0 ? "a/b" : v[0] == 1 ? nullptr : "", '/', w.e.A, &x);
        if (v[0] && x.size) {return -1;}
        (void)!rcutils_string_array_fini(&x);
        return r;
      }});
  t.push_back({"find", {{OK_, HNUL, HNUL}, {OK_, OK_}}, 0, [](World &, V v) {
        const char * s = v[0] == 0 ? "a/b" : v[0] == 1 ? nullptr : "";
        size_t r = v[1] ? rcutils_find(s, '/') : rcutils_find_last(s, '/');
        return r == SIZE_MAX ? (int)HNUL : r == 1 ? (int)OK_ : -1;
      }});
  t.push_back({"findn", {{OK_, HNUL, HNUL, HNUL}, {OK_, OK_}}, 0, [](World &, V v) {
        const char * s = v[0] == 1 ? nullptr : v[0] == 2 ? "" : "a/b";
        size_t n = v[0] == 3 ? 0 : v[0] == 2 ? 0 : 3;
        size_t r = v[1] ? rcutils_findn(s, '/', n) : rcutils_find_lastn(s, '/', n);
        return r == SIZE_MAX ? (int)HNUL : r == 1 ? (int)OK_ : -1;
      }});
  // ---- environment and process
  t.push_back({"set_env", {{OK_, NUL, NUL, NUL}, {OK_, OK_}}, 1, [](World &, V v) {
        const char * n = v[0] == 0 ? "VP_X" : v[0] == 1 ? nullptr : v[0] == 2 ? "" : "A=B";
        return rcutils_set_env(n, v[1] ? nullptr : "v") ? OK_ : NUL;
      }});
  t.push_back({"get_env", {PN, PN}, 0, [](World & w, V v) {
        const char * r = rcutils_get_env(opt(v[0], "VP_X"), opt(v[1], (const char **)w.out));
        return r ? NUL : OK_;
      }});
  t.push_back({"get_executable_name", {PA}, 1, [give](World & w, V v) {
        return give(w, rcutils_get_executable_name(alv(w, v[0])));
      }});
  // ---- files
  t.push_back({"filesystem predicates", {{OK_, HNUL, HNUL, HNUL}, {OK_, OK_, OK_, OK_}}, 0, [](World & w, V v) {
        const char * p = v[0] == 0 ? w.path.c_str() : v[0] == 1 ? nullptr : v[0] == 2 ? "" : "/nonexistent/x";
        bool r = v[1] == 0 ? rcutils_exists(p) : v[1] == 1 ? rcutils_is_directory(p) : v[1] == 2 ?
          rcutils_is_readable(p) : rcutils_is_readable_and_writable(p);
        return r ? OK_ : HNUL;
      }});
  t.push_back({"mkdir", {{OK_, HNUL, HNUL, HNUL}}, 0, [](World & w, V v) {
        const char * p = v[0] == 0 ? w.path.c_str() : v[0] == 1 ? nullptr : v[0] == 2 ? "" : "relative/path";
        return rcutils_mkdir(p) ? OK_ : HNUL;
      }});
  t.push_back({"get_cwd", {{OK_, NUL}, {OK_, NUL, NUL}}, 0, [](World & w, V v) {
        return rcutils_get_cwd(opt(v[0], w.out), v[1] == 0 ? sizeof(w.out) : v[1] == 1 ? 0 : 1) ? OK_ : NUL;
      }});
  t.push_back({"join_path", {PN, PN, PA}, 0, [give](World & w, V v) {
        return give(w, rcutils_join_path(opt(v[0], "a"), opt(v[1], "b"), alv(w, v[2])));
      }});
  t.push_back({"to_native_path", {PN, PA}, 0, [give](World & w, V v) {
        return give(w, rcutils_to_native_path(opt(v[0], "a"), alv(w, v[1])));
      }});
  t.push_back({"expand_user", {PN, PA}, 0, [give](World & w, V v) {
        return give(w, rcutils_expand_user(opt(v[0], "a"), alv(w, v[1])));
      }});
  t.push_back({"calculate_directory_size", {N, N, AV, {OK_, OK_}}, 0, [](World & w, V v) {
        const char * p = opt(v[0], w.path.c_str());
        uint64_t * o = opt(v[1], (uint64_t *)w.out);
        return (int)(v[3] ? rcutils_calculate_directory_size(p, o, alv(w, v[2])) :
               rcutils_calculate_directory_size_with_recursion(p, 1, o, alv(w, v[2])));
      }});
  t.push_back({"get_file_size", {{OK_, HNUL, HNUL}}, 0, [](World & w, V v) {
        static const std::string f = w.path + "/argfile";
        FILE * x = fopen(f.c_str(), "w");
        fputs("12345", x);
        fclose(x);
        size_t r = rcutils_get_file_size(v[0] == 0 ? ro(f) : v[0] == 1 ? nullptr : ro(w.path));
        return r == 5 ? (int)OK_ : r == 0 ? (int)HNUL : -1;
      }});
  t.push_back({"dir_iter_start", {{OK_, NUL, NUL, NUL}, PA}, 1, [](World & w, V v) {
        static const std::string f = w.path + "/nothere";
        rcutils_dir_iter_t * it = rcutils_dir_iter_start(
          v[0] == 0 ? w.path.c_str() : v[0] == 1 ? nullptr : v[0] == 2 ? f.c_str() : "", alv(w, v[1]));
        int r = ptr(it);
        if (it) {rcutils_dir_iter_end(it);}
        return r;
      }});
  t.push_back({"dir_iter_next", {{NUL, NUL, NUL}}, 1, [](World & w, V v) {
        return rcutils_dir_iter_next(v[0] ? nullptr : &w.di0) ? OK_ : NUL;
      }});
  t.push_back({"dir_iter_end", {{HARMLESS, HARMLESS}}, 0, [](World &, V) {
        rcutils_dir_iter_end(nullptr);
        return (int)OK_;
      }});
  // ---- time
  t.push_back({"time_now", {N, {OK_, OK_}}, 1, [](World & w, V v) {
        auto p = opt(v[0], (rcutils_time_point_value_t *)w.out);
        return (int)(v[1] ? rcutils_system_time_now(p) : rcutils_steady_time_now(p));
      }});
  t.push_back({"time strings", {N, N, {OK_, OK_, OK_}}, 1, [](World & w, V v) {
        rcutils_time_point_value_t x = 5;
        return (int)TFN[v[2]](opt(v[0], &x), opt(v[1], w.out), 64);
      }});
  // ---- shared libraries
  t.push_back({"load_shared_library", {{OK_, INV, INV}, N, AV}, 1, [](World & w, V v) {
        static const std::string p = lib_path(1);
        int r = rcutils_load_shared_library(v[0] == 2 ? &w.s : opt(v[0], &w.s0), opt(v[1], ro(p)), alv(w, v[2]));
        if (r == 0) {(void)!rcutils_unload_shared_library(&w.s0);}
        return r;
      }});
  t.push_back({"get_symbol", {PA, PA}, 1, [](World & w, V v) {
        return ptr(rcutils_get_symbol(obj(v[0], &w.s, &w.s0), v[1] == 0 ? "vp_common" : v[1] == 1 ? nullptr : "none"));
      }});
  t.push_back({"has_symbol", {PA, PA}, 0, [](World & w, V v) {
        return rcutils_has_symbol(obj(v[0], &w.s, &w.s0), v[1] == 0 ? "vp_common" : v[1] == 1 ? nullptr : "none") ?
               OK_ : NUL;
      }});
  t.push_back({"unload_shared_library", {{OK_, INV, INV}}, 1, [](World & w, V v) {
        int r = rcutils_unload_shared_library(obj(v[0], &w.s, &w.s0));
        if (r == 0) {w.need(rcutils_load_shared_library(&w.s, ro(lib_path(0)), w.e.A));}
        return r;
      }});
  t.push_back({"get_platform_library_name", {N, N, {OK_, ERR, ERR}}, 1, [](World & w, V v) {
        return (int)rcutils_get_platform_library_name(
          opt(v[0], "name"), opt(v[1], w.out), v[2] == 0 ? 64 : v[2] == 1 ? 0 : 10, false);
      }});
  // ---- sorting and comparing
  t.push_back({"qsort", {N, {OK_, OK_}, N}, 1, [](World & w, V v) {
        // with at most one element the array is not looked at
        if (v[0] && v[1] && !v[2]) {return -77;}
        cmp_size = 1;
        cmp_mode = 0;
        return (int)rcutils_qsort(v[0] ? nullptr : (void *)w.out, v[1] ? 1 : 4, 1, v[2] ? nullptr : compare);
      }});
  t.push_back({"strcasecmp", {{OK_, MIN1}, {OK_, MIN1}, {OK_, MIN1}, {OK_, OK_}}, 0, [](World & w, V v) {
        const char * a = opt(v[0], "a"), * b = opt(v[1], "b");
        int * o = opt(v[2], (int *)w.out);
        int r = v[3] ? rcutils_strcasecmp(a, b, o) : rcutils_strncasecmp(a, b, 1, o);
        return r == -1 ? (int)MIN1 : r;
      }});
  // ---- allocators and errors
  t.push_back({"allocator_is_valid", {{OK_, NUL, NUL, NUL}}, 0, [](World & w, V v) {
        return rcutils_allocator_is_valid(alp(w, v[0])) ? OK_ : NUL;
      }});
  t.push_back({"reallocf", {{OK_, NUL, NUL, NUL}}, 0, [](World & w, V v) {
        Capture cap;
        char * p = (char *)w.e.A.allocate(4, w.e.A.state);
        void * r = rcutils_reallocf(p, 9, alp(w, v[0]));
        w.e.A.deallocate(r ? r : p, w.e.A.state);
        return ptr(r);
      }});
  t.push_back({"initialize_error_handling_thread_local_storage", {AV}, 0, [](World & w, V v) {
        Capture cap;
        int r = -1;       // on a thread that has not initialized its storage yet
        std::thread([&]() {
            r = (int)rcutils_initialize_error_handling_thread_local_storage(alv(w, v[0]));
            rcutils_reset_error();
          }).join();
        return r;
      }});
  // ---- logging
  t.push_back({"logging_severity_level_from_string",
      {{OK_, INV, RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID, RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID}, AV, N}, 0,
      [](World & w, V v) {
        return (int)rcutils_logging_severity_level_from_string(
          v[0] == 0 ? "info" : v[0] == 1 ? nullptr : v[0] == 2 ? "" : "bogus", alv(w, v[1]), opt(v[2], (int *)w.out));
      }});
  t.push_back({"logging_set_logger_level", {{OK_, INV}, {OK_, INV, INV, INV}}, 0, [](World &, V v) {
        static const int lv[] = {RCUTILS_LOG_SEVERITY_WARN, -1, 7, 60};
        return (int)rcutils_logging_set_logger_level(opt(v[0], "args"), lv[v[1]]);
      }});
  t.push_back({"logging_get_logger_level", {{OK_, NUL}}, 0, [](World &, V v) {
        int r = rcutils_logging_get_logger_level(opt(v[0], "other"));
        return r < 0 ? (int)NUL : OK_;
      }});
  t.push_back({"logging_get_logger_effective_level", {{OK_, NUL}}, 0, [](World &, V v) {
        int r = rcutils_logging_get_logger_effective_level(opt(v[0], "other"));
        return r < 0 ? (int)NUL : OK_;
      }});
  t.push_back({"logging_initialize_with_allocator", {AV}, 0, [](World & w, V v) {
        // (initializing again does nothing)
        bool s = v[0] != 0;
        if (s) {(void)!rcutils_logging_shutdown();}
        int r = rcutils_logging_initialize_with_allocator(alv(w, v[0]));
        if (s) {rcutils_reset_error();}
        if (s) {
          bool is = g_rcutils_logging_initialized;
          if (rcutils_logging_initialize() != RCUTILS_RET_OK) {abort();}
          rcutils_logging_set_output_handler(quiet_handler);
          if (is) {return -1;}
        }
        return r;
      }});
}
int args_run(mc::Ctx & c, int first, int last, bool calm = false)
{
  calm::mode = 0;
  ArgCase & k = ARGS[(size_t)(first + c.choose(last - first))];
  int v[8] = {0};
  int invalid = 0;
  std::set<int> allow;
  bool loud = true;
  std::string how;
  for (size_t i = 0; i < k.args.size(); ++i) {
    v[i] = c.choose((int)k.args[i].size());
    int x = k.args[i][(size_t)v[i]];
    how += fmt("%s%d", i ? "," : "", v[i]);
    if (x == OK_) {continue;}
    ++invalid;
    if (x == EOI) {allow.insert(ERR); allow.insert(INV);}
    else if (x == QINV) {allow.insert(INV); loud = false;}
    else if (x == HARMLESS) {allow.insert(OK_); loud = false;}
    else {
      if (x == HNUL) {loud = false;}
      allow.insert(x);
    }
  }
  bool emptied = c.flip();          // containers that lost what they held
  World w(emptied);
  uint64_t before = w.digest();
  rcutils_reset_error();
  if (calm) {
    // C48: a call that succeeds neither sets an error nor touches one that is set, nor reports anything
    if (invalid) {w.fini(); return 0;}
    bool earlier = c.flip();
    std::string was;
    if (earlier) {
      rcutils_set_error_state("an earlier error", "elsewhere.c", 77);
      was = rcutils_get_error_string().str;
    }
    int r;
    std::string said;
    {
      Capture cap;
      r = k.call(w, v);
      fflush(stderr);
      said = os::err;
    }
    bool set = rcutils_error_is_set();
    std::string now = set ? rcutils_get_error_string().str : "";
    rcutils_reset_error();
    c.note("%s(%s)%s -> %d", k.name, how.c_str(), emptied ? " on emptied objects" : "", r);
    c.outcome(fmt("%s %d", k.name, r));
    if (r == OK_ || r == NUL || r == HNUL) {
      if (r == OK_ || !k.err) {
        MC_CHECK(
          set == earlier && now == was, "calm:error", "%s(%s) gave %d and changed the error state from %s to %s", k.name,
          how.c_str(), r, mc::q(was).c_str(), mc::q(now).c_str());
        MC_CHECK(said.empty(), "calm:said", "%s(%s) gave %d and wrote %s to the error stream", k.name, how.c_str(), r,
          mc::q(said).c_str());
      }
    }
    w.fini();
    return 0;
  }
  int r = k.call(w, v);
  bool set = rcutils_error_is_set();
  std::string msg = set ? rcutils_get_error_string().str : "";
  if (r == -77) {rcutils_reset_error(); return 0;}
  c.note("%s(%s)%s -> %d %s", k.name, how.c_str(), emptied ? " on emptied objects" : "", r, msg.c_str());
  c.outcome(fmt("%s %d", k.name, r));
  c.state(std::string(k.name) + how);
  MC_CHECK(w.e.T.error.empty(), "args:misuse", "%s(%s): %s", k.name, how.c_str(), w.e.T.error.c_str());
  if (invalid) {
    MC_CHECK(
      allow.count(r), "args:ret", "%s with argument variants %s returned %d, expected %d", k.name, how.c_str(), r,
      *allow.begin());
    MC_CHECK(w.digest() == before, "args:changed", "%s with invalid arguments %s changed an object or output", k.name,
      how.c_str());
    if (k.err && loud) {
      MC_CHECK(set && !msg.empty(), "args:message", "%s with invalid arguments %s set no error message", k.name,
        how.c_str());
    }
  } else if (!emptied) {
    MC_CHECK(r == OK_, "args:valid", "%s(%s) with valid arguments returned %d", k.name, how.c_str(), r);
  }
  rcutils_reset_error();
  memset(w.out, 0x5A, sizeof w.out);
  w.fini();
  return 0;
}
