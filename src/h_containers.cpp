// Containers against boring reference models: C01-C08 (behaviour), C09 (allocation failures),
// C11 (allocator discipline).
#include <algorithm>
#include "mc.hpp"
#include "track.hpp"
#include "calm.hpp"
#include "exact.hpp"
#include "wraps.hpp"
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "rcutils/strdup.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/string_map.h"
#include "rcutils/types/uint8_array.h"

using mc::fail;
using mc::fmt;
typedef std::vector<unsigned char> Bytes;

namespace
{
// A failure of the k-th allocation alone is alternative 2k-1, of the k-th and all later ones 2k.
struct Base : mc::Machine
{
  trk::Tracker T;
  rcutils_allocator_t A = T.get();
  bool allocs = false;          // judge allocator discipline (C11)
  bool faulted = false;
  std::string id;

  void arm(int k) override
  {
    faulted = k != 0;
    if (k == 0) {T.plan(0, 0); return;}
    int n = (k + 1) / 2;
    T.plan(n, (k & 1) ? n : 1 << 30);
  }
  int disarm() override {int c = T.calls; T.plan(0, 0); return c;}
  int alternatives() override {return 2;}
  std::string K(const char * s) {return id + ":" + s;}
  static bool gave_ok(rcutils_ret_t r) {return r == RCUTILS_RET_OK;}
  template<class T>
  static bool gave_ok(const T &) {return true;}
#define CK(cond, key, ...) MC_CHECK(cond, K(key).c_str(), __VA_ARGS__)
  // Runs one library call inside the allocator watch window.
  template<class F>
  auto lib(F f) -> decltype(f())
  {
    if (calm::on()) {calm::arm();}
    wraps::Window w;
    auto r = f();
    wraps::watch = 0;
    // (an answer in the negative is no failure, either)
    if (calm::on() && gave_ok(r)) {calm::check("the last operation");}
    if (allocs) {
      CK(
        wraps::direct_allocs == 0, "bypass",
        "the library called malloc/calloc/realloc/strdup directly %d times although an allocator was supplied",
        wraps::direct_allocs);
      CK(
        wraps::direct_frees == 0, "bypass-free",
        "the library called free directly %d times although an allocator was supplied",
        wraps::direct_frees);
    }
    CK(T.error.empty(), "misuse", "allocator misuse: %s", T.error.c_str());
    return r;
  }
  // Runs a library call that is documented not to allocate memory.
  bool noalloc = mc::cfg().prop == "C45";
  template<class F>
  auto still(const char * what, F f) -> decltype(f())
  {
    uint64_t t = T.total;
    int c = T.calls;
    auto r = lib(f);
    CK(
      !noalloc || (T.total == t && T.calls == c && wraps::direct_allocs == 0), "allocates",
      "%s is documented not to allocate memory, but made %d allocator calls and %d direct ones", what,
      T.calls - c, wraps::direct_allocs);
    return r;
  }
  void leak_check()
  {
    CK(T.error.empty(), "misuse", "allocator misuse: %s", T.error.c_str());
    size_t n = T.live.size(), b = 0;
    for (auto & l : T.live) {b += l.second.size;}
    if (n) {
      std::string sizes;
      for (auto & l : T.live) {sizes += fmt(" %zu", l.second.size);}
      fail(K("leak").c_str(), "after fini %zu blocks (%zu bytes) are still allocated; sizes:%s", n, b, sizes.c_str());
    }
  }
  ~Base() override {for (auto & l : T.live) {__real_free((void *)l.first);} wraps::watch = 0;}
};

Bytes pattern(int v, size_t n)
{
  Bytes b(n);
  for (size_t i = 0; i < n; ++i) {b[i] = (unsigned char)(v * 37 + (int)i * 11 + 5);}
  return b;
}

// ------------------------------------------------------------------ array list
struct ArrayList : Base
{
  size_t cap, ds;
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  std::vector<int> m;
  ArrayList(size_t c, size_t d)
  : cap(c), ds(d) {id = "array_list";}
  void start() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_array_list_init(&l, cap, ds, &A);});
    CK(r == RCUTILS_RET_OK, "init", "init(%zu, %zu) returned %d", cap, ds, r);
  }
  // ops: add 1, add 2 | set i (6, last is SIZE_MAX) | remove i (6)
  static size_t idx(int i) {return i == 5 ? SIZE_MAX : (size_t)i;}
  int nops() override {return 14;}
  std::string opname(int op) override
  {
    if (op < 2) {return fmt("add(%d)", op + 1);}
    if (op < 8) {return fmt("set(%zu, 3)", idx(op - 2));}
    return fmt("remove(%zu)", idx(op - 8));
  }
  void apply(int op) override
  {
    if (op < 2) {
      Bytes b = pattern(op + 1, ds);
      Exact e(b.data(), ds);
      rcutils_ret_t r = lib([&] {return rcutils_array_list_add(&l, e.p);});
      if (T.failed && r != RCUTILS_RET_OK) {
        CK(r == RCUTILS_RET_BAD_ALLOC, "add-ret", "add under allocation failure returned %d", r);
      } else {
        CK(r == RCUTILS_RET_OK, "add-ret", "add returned %d", r);
        m.push_back(op + 1);
      }
    } else if (op < 8) {
      size_t i = idx(op - 2);
      Bytes b = pattern(3, ds);
      Exact e(b.data(), ds);
      rcutils_ret_t r = still("array_list_set", [&] {return rcutils_array_list_set(&l, i, e.p);});
      bool in = i < m.size();
      CK(
        r == (in ? RCUTILS_RET_OK : RCUTILS_RET_INVALID_ARGUMENT), "set-ret",
        "set(%zu) on %zu entries returned %d", i, m.size(), r);
      if (in) {m[i] = 3;}
    } else {
      size_t i = idx(op - 8);
      rcutils_ret_t r = still("array_list_remove", [&] {return rcutils_array_list_remove(&l, i);});
      bool in = i < m.size();
      CK(
        r == (in ? RCUTILS_RET_OK : RCUTILS_RET_INVALID_ARGUMENT), "remove-ret",
        "remove(%zu) on %zu entries returned %d", i, m.size(), r);
      if (in) {m.erase(m.begin() + (long)i);}
    }
    rcutils_reset_error();
  }
  void check() override {verify(m);}
  void verify(const std::vector<int> & want)
  {
    size_t n = 777;
    CK(still("array_list_get_size", [&] {return rcutils_array_list_get_size(&l, &n);}) == RCUTILS_RET_OK, "size-ret", "get_size failed");
    CK(n == want.size(), "size", "size is %zu, expected %zu", n, want.size());
    for (size_t i = 0; i < n; ++i) {
      Exact e(ds);
      rcutils_ret_t r = still("array_list_get", [&] {return rcutils_array_list_get(&l, i, e.p);});
      CK(r == RCUTILS_RET_OK, "get-ret", "get(%zu) of %zu returned %d", i, n, r);
      Bytes w = pattern(want[i], ds);
      CK(
        memcmp(w.data(), e.p, ds) == 0, "content", "entry %zu of %zu is not value %d but %s", i, n,
        want[i], mc::q(e.p, ds).c_str());
    }
    for (size_t i : {n, n + 1, (size_t)SIZE_MAX}) {
      Exact e(ds);
      rcutils_ret_t r = still("array_list_get", [&] {return rcutils_array_list_get(&l, i, e.p);});
      CK(r == RCUTILS_RET_INVALID_ARGUMENT, "get-oob", "get(%zu) of %zu returned %d", i, n, r);
    }
    rcutils_reset_error();
  }
  void canon(mc::Hasher & h) override
  {
    trk::canon(h, T, {{&l, sizeof l}});
    for (int v : m) {h.u64((uint64_t)v);}
  }
  void finish() override
  {
    rcutils_ret_t r = still("array_list_fini", [&] {return rcutils_array_list_fini(&l);});
    CK(r == RCUTILS_RET_OK, "fini-ret", "fini returned %d", r);
    leak_check();
  }
};

void array_list_bulk(mc::Ctx & c, int maxn)
{
  static const size_t caps[] = {1, 2, 3, 5, 7, 16, 64};
  static const size_t sizes[] = {1, 2, 3, 4, 8, 12, 17, 64, 100};
  size_t cap = c.pick(caps), ds = c.pick(sizes);
  int n = c.choose(maxn + 1);
  int rm = c.choose(4);
  c.note("init capacity %zu, entry size %zu, add %d entries, removal pattern %d", cap, ds, n, rm);
  ArrayList a(cap, ds);
  a.id = "array_list_bulk";
  a.start();
  std::vector<int> want;
  for (int i = 0; i < n; ++i) {
    Bytes b = pattern(i, ds);
    rcutils_ret_t r = a.lib([&] {return rcutils_array_list_add(&a.l, b.data());});
    MC_CHECK(r == RCUTILS_RET_OK, "array_list_bulk:add-ret", "add %d returned %d", i, r);
    want.push_back(i);
  }
  a.verify(want);
  for (int i = 0; i < n; ++i) {
    size_t k = rm == 0 ? 0 : rm == 1 ? want.size() - 1 : rm == 2 ? want.size() / 2 : (size_t)(i * 7) % want.size();
    MC_CHECK(
      a.still("array_list_remove", [&] {return rcutils_array_list_remove(&a.l, k);}) == RCUTILS_RET_OK,
      "array_list_bulk:remove-ret", "remove failed");
    want.erase(want.begin() + (long)k);
    if (i % 5 == 0 || want.size() < 4) {a.verify(want);}
    if (rm == 3 && i % 3 == 0) {
      Bytes b = pattern(1000 + i, ds);
      MC_CHECK(
        a.lib([&] {return rcutils_array_list_add(&a.l, b.data());}) == RCUTILS_RET_OK,
        "array_list_bulk:add-ret", "add failed");
      want.push_back(1000 + i);
      if (want.size() > (size_t)n) {break;}
    }
  }
  a.verify(want);
  a.finish();
  c.outcome(fmt("%zu/%zu/%d/%d", cap, ds, n, rm));
}

// ------------------------------------------------------------------ hash map
// Keys: a universe of logical ids, encoded per key type.
enum KeyType {ID32, CONST32, HIGH64, PREFIX64, CSTR, KT_COUNT};
const char * kt_name[] = {"u32/identity", "u32/all-collide", "u64/high-bits", "struct/partial-compare",
  "c-string"};
const uint64_t key_values[] = {0, 1, 2, 8, 5, 9, 16, 24, 32};
const char * key_strings[] = {"", "Ab", "BA", "x", "a longer key string", "AbAb", "BABA", "AbBA", "y"};

size_t h_id32(const void * k) {uint32_t v; memcpy(&v, k, 4); return v;}
size_t h_const(const void *) {return 0xdeadbeefull;}
size_t h_high(const void * k) {uint64_t v; memcpy(&v, k, 8); return (size_t)v;}
size_t h_pref(const void * k) {uint32_t v; memcpy(&v, k, 4); return v;}
int c_32(const void * a, const void * b)
{
  uint32_t x, y;
  memcpy(&x, a, 4);
  memcpy(&y, b, 4);
  return x < y ? -1 : x > y ? 5 : 0;
}
int c_64(const void * a, const void * b)
{
  uint64_t x, y;
  memcpy(&x, a, 8);
  memcpy(&y, b, 8);
  return x < y ? -7 : x > y;
}

struct HashMap : Base
{
  size_t cap;
  KeyType kt;
  size_t ds;
  int nkeys;
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
  std::map<int, int> m;
  size_t lastcap = 0;
  bool iter_focus = false;
  HashMap(size_t c, KeyType k, size_t d, int nk)
  : cap(c), kt(k), ds(d), nkeys(nk) {id = "hash_map";}
  size_t ks() const {return kt == ID32 || kt == CONST32 ? 4 : kt == PREFIX64 ? 12 : 8;}
  // A fresh encoding of key `i`, never sharing memory with an earlier one
  struct Key
  {
    std::unique_ptr<Exact> str, raw;
  };
  static std::string kstr(int i)
  {
    if (i < 9) {return key_strings[i];}
    return fmt("k%d", i);
  }
  static uint64_t kval(int i) {return i < 9 ? key_values[i] : (uint64_t)i * 3 + 40;}
  Key key(int i, int junk = 0x55)
  {
    Key k;
    if (kt == CSTR) {
      std::string s = kstr(i);
      k.str.reset(new Exact(s.c_str(), s.size() + 1));
      char * p = k.str->p;
      k.raw.reset(new Exact(&p, sizeof p));
    } else if (kt == HIGH64) {
      uint64_t v = kval(i) << 56 | kval(i) << 2;
      k.raw.reset(new Exact(&v, 8));
    } else if (kt == PREFIX64) {
      unsigned char b[12];
      uint32_t v = (uint32_t)kval(i);
      memcpy(b, &v, 4);
      memset(b + 4, junk & 0x7f, 8);
      k.raw.reset(new Exact(b, 12));
    } else {
      uint32_t v = (uint32_t)kval(i);
      k.raw.reset(new Exact(&v, 4));
    }
    return k;
  }
  int decode(const char * p, int universe)
  {
    for (int i = 0; i < universe; ++i) {
      if (kt == CSTR) {
        const char * s;
        memcpy(&s, p, sizeof s);
        if (kstr(i) == s) {return i;}
      } else if (kt == HIGH64) {
        uint64_t v;
        memcpy(&v, p, 8);
        if (v == (kval(i) << 56 | kval(i) << 2)) {return i;}
      } else {
        uint32_t v;
        memcpy(&v, p, 4);
        if (v == (uint32_t)kval(i)) {return i;}
      }
    }
    return -1;
  }
  // c-string keys: the map stores the pointer, so the string must outlive the entry
  std::vector<Key> keep;
  void start() override
  {
    rcutils_ret_t r = lib([&] {
        return rcutils_hash_map_init(
          &h, cap, ks(), ds,
          kt == CSTR ? rcutils_hash_map_string_hash_func : kt == CONST32 ? h_const :
          kt == HIGH64 ? h_high : kt == PREFIX64 ? h_pref : h_id32,
          kt == CSTR ? rcutils_hash_map_string_cmp_func : kt == HIGH64 ? c_64 : c_32, &A);
      });
    CK(r == RCUTILS_RET_OK, "init", "init(%zu) returned %d", cap, r);
  }
  int nops() override {return nkeys * 3;}
  std::string opname(int op) override
  {
    int k = op / 3, w = op % 3;
    if (w == 2) {return fmt("unset(key %d)", k);}
    return fmt("set(key %d, value %d)", k, w + 1);
  }
  void set(int k, int v)
  {
    Bytes b = pattern(v, ds);
    Exact e(b.data(), ds);
    Key kk = key(k, v);
    rcutils_ret_t r = lib([&] {return rcutils_hash_map_set(&h, kk.raw->p, e.p);});
    if (T.failed && r != RCUTILS_RET_OK) {
      CK(r == RCUTILS_RET_BAD_ALLOC, "set-ret", "set under allocation failure returned %d", r);
    } else {
      CK(r == RCUTILS_RET_OK, "set-ret", "set returned %d", r);
      m[k] = v;
      if (kt == CSTR) {keep.push_back(std::move(kk));}
    }
  }
  void unset(int k)
  {
    Key kk = key(k);
    rcutils_ret_t r = still("hash_map_unset", [&] {return rcutils_hash_map_unset(&h, kk.raw->p);});
    if (m.count(k)) {
      CK(r == RCUTILS_RET_OK, "unset-ret", "unset of a present key returned %d", r);
    } else {
      CK(
        r == RCUTILS_RET_OK || r == RCUTILS_RET_STRING_KEY_NOT_FOUND || r == RCUTILS_RET_NOT_FOUND,
        "unset-ret", "unset of an absent key returned %d", r);
    }
    m.erase(k);
  }
  void apply(int op) override
  {
    int k = op / 3, w = op % 3;
    if (w == 2) {unset(k);} else {set(k, w + 1);}
    rcutils_reset_error();
  }
  void check() override {verify(nkeys + 1);}
  void verify(int universe)
  {
    size_t n = 777, c = 777;
    CK(still("hash_map_get_size", [&] {return rcutils_hash_map_get_size(&h, &n);}) == RCUTILS_RET_OK, "size-ret", "get_size failed");
    CK(n == m.size(), "size", "size is %zu, expected %zu", n, m.size());
    CK(still("hash_map_get_capacity", [&] {return rcutils_hash_map_get_capacity(&h, &c);}) == RCUTILS_RET_OK, "capacity-ret", "get_capacity failed");
    CK(
      c >= cap && (c & (c - 1)) == 0 && c >= lastcap, "capacity",
      "capacity %zu after initial %zu and previous %zu", c, cap, lastcap);
    lastcap = c;
    for (int i = 0; i < universe; ++i) {
      Key kk = key(i);
      bool e = still("hash_map_key_exists", [&] {return rcutils_hash_map_key_exists(&h, kk.raw->p);});
      bool want = m.count(i) != 0;
      CK(e == want, "exists", "key_exists(key %d) is %d, expected %d", i, e, want);
      Exact d(ds);
      rcutils_ret_t r = still("hash_map_get", [&] {return rcutils_hash_map_get(&h, kk.raw->p, d.p);});
      CK(
        r == (want ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND), "get-ret", "get(key %d) returned %d", i, r);
      if (want) {
        Bytes w = pattern(m[i], ds);
        CK(memcmp(w.data(), d.p, ds) == 0, "get-value", "get(key %d) gave a wrong value", i);
      }
    }
    iterate(universe, false);
    iterate(universe, true);
    rcutils_reset_error();
  }
  // alias: the previous key and the out key share a buffer, as in the documented loop
  void iterate(int universe, bool alias)
  {
    std::map<int, int> seen;
    Exact k(ks()), prev(ks()), d(ds);
    rcutils_ret_t r = still("hash_map_get_next_key_and_data", [&] {return rcutils_hash_map_get_next_key_and_data(&h, nullptr, k.p, d.p);});
    size_t steps = 0;
    while (r == RCUTILS_RET_OK) {
      CK(++steps <= m.size(), "iter-endless", "iteration yields more than the %zu entries", m.size());
      int i = decode(k.p, universe);
      CK(i >= 0 && m.count(i), "iter-key", "iteration yields a key that is not in the map");
      CK(!seen.count(i), "iter-dup", "iteration yields key %d twice", i);
      seen[i] = 1;
      Bytes w = pattern(m[i], ds);
      CK(memcmp(w.data(), d.p, ds) == 0, "iter-value", "iteration yields a wrong value for key %d", i);
      memset(d.p, 0x11, ds);
      if (alias) {
        r = still("hash_map_get_next_key_and_data", [&] {return rcutils_hash_map_get_next_key_and_data(&h, k.p, k.p, d.p);});
      } else {
        memcpy(prev.p, k.p, ks());
        memset(k.p, 0x22, ks());
        r = still("hash_map_get_next_key_and_data", [&] {return rcutils_hash_map_get_next_key_and_data(&h, prev.p, k.p, d.p);});
      }
    }
    CK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "iter-end", "iteration ended with %d", r);
    CK(seen.size() == m.size(), "iter-miss", "iteration yields %zu of %zu entries", seen.size(), m.size());
    for (int i = 0; i < universe; ++i) {
      if (m.count(i)) {continue;}
      Key kk = key(i);
      r = still("hash_map_get_next_key_and_data", [&] {return rcutils_hash_map_get_next_key_and_data(&h, kk.raw->p, k.p, d.p);});
      CK(r == RCUTILS_RET_NOT_FOUND, "iter-absent", "iterating from an absent key returned %d", r);
    }
  }
  void canon(mc::Hasher & hh) override
  {
    std::vector<std::pair<const void *, size_t>> ext;
    for (auto & k : keep) {ext.push_back({k.str->p, k.str->n});}
    trk::canon(hh, T, {{&h, sizeof h}}, ext);
    for (auto & p : m) {hh.u64((uint64_t)p.first); hh.u64((uint64_t)p.second);}
    hh.u64(lastcap);
  }
  void finish() override
  {
    rcutils_ret_t r = still("hash_map_fini", [&] {return rcutils_hash_map_fini(&h);});
    CK(r == RCUTILS_RET_OK, "fini-ret", "fini returned %d", r);
    leak_check();
  }
};

void hash_map_bulk(mc::Ctx & c, int maxn)
{
  static const size_t caps[] = {1, 2, 3, 7, 16, 33};
  static const size_t dss[] = {1, 8, 20};
  KeyType kt = (KeyType)c.choose(KT_COUNT);
  size_t cap = c.pick(caps), ds = c.pick(dss);
  int n = c.choose(maxn) + 1;
  int pat = c.choose(5);
  c.note(
    "%s keys, initial capacity %zu, value size %zu, %d keys, pattern %d", kt_name[kt], cap, ds, n, pat);
  HashMap a(cap, kt, ds, n);
  a.id = "hash_map_bulk";
  a.start();
  for (int i = 0; i < n; ++i) {
    a.set(i, i + 1);
    if (pat == 4 && i % 2) {a.set(i - 1, i + 300);}          // updates interleaved with growth
    if (pat == 3 && i % 3 == 2) {a.unset(i - 1);}
  }
  a.verify(n + 2);
  if (pat == 1) {for (int i = 0; i < n; i += 2) {a.unset(i);}}
  if (pat == 2) {for (int i = n - 1; i >= 0; --i) {a.unset(i); if (i % 7 == 0) {a.verify(n + 1);}}}
  if (pat >= 3) {for (int i = 0; i < n; ++i) {a.set((i * 5) % n, i);}}
  a.verify(n + 2);
  a.finish();
  c.outcome(fmt("%d/%zu/%zu/%d/%d", kt, cap, ds, n, pat));
}

// every subset of the keys unset again, below and across a growth, then set anew
void hash_map_subsets(mc::Ctx & c, int maxn)
{
  static const size_t caps[] = {1, 4, 8};
  KeyType kt = (KeyType)c.choose(KT_COUNT);
  size_t cap = c.pick(caps);
  int n = c.choose(maxn + 1);
  unsigned mask = 0;
  for (int i = 0; i < n; ++i) {mask |= (unsigned)c.flip() << i;}
  bool grow = c.flip();
  c.note(
    "%s keys, initial capacity %zu, %d keys, unset mask %x%s", kt_name[kt], cap, n, mask,
    grow ? ", then more keys" : "");
  HashMap a(cap, kt, 8, n);
  a.id = "hash_map_subsets";
  a.start();
  for (int i = 0; i < n; ++i) {a.set(i, i + 1);}
  for (int i = 0; i < n; ++i) {if (mask >> i & 1) {a.unset(i);}}
  a.verify(n + 2);
  if (grow) {for (int i = n; i < 2 * n + 2; ++i) {a.set(i, i + 1);}}
  for (int i = 0; i < n; i += 2) {a.set(i, i + 100);}
  a.verify(2 * n + 4);
  a.finish();
  c.outcome(fmt("%d/%zu/%d/%x/%d", kt, cap, n, mask, grow));
}

// ------------------------------------------------------------------ string map
const char * SK[] = {"a", "ab", "", "abc", "b"};
const char * SV[] = {"", "value", "a rather longer value than the others"};

struct StringMap : Base
{
  size_t cap;
  int nkeys;
  rcutils_string_map_t s = rcutils_get_zero_initialized_string_map();
  std::map<std::string, std::string> m;
  size_t mcap = 0;              // last observed capacity
  bool nfaults = false;
  StringMap(size_t c, int nk)
  : cap(c), nkeys(nk) {id = "string_map";}
  void start() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_string_map_init(&s, cap, A);});
    CK(r == RCUTILS_RET_OK, "init", "init(%zu) returned %d", cap, r);
    mcap = cap;
  }
  size_t getcap()
  {
    size_t c = 777;
    CK(lib([&] {return rcutils_string_map_get_capacity(&s, &c);}) == RCUTILS_RET_OK, "capacity-ret", "get_capacity failed");
    return c;
  }
  // ops per key: set v0, set v1, set_no_resize v2, unset, set to own value via own key pointer
  int nops() override {return nkeys * 5 + 6 + 1 + 1;}
  std::string opname(int op) override
  {
    if (op < nkeys * 5) {
      const char * k = SK[op / 5];
      switch (op % 5) {
        case 0: return fmt("set(\"%s\", \"\")", k);
        case 1: return fmt("set(\"%s\", \"value\")", k);
        case 2: return fmt("set_no_resize(\"%s\", long value)", k);
        case 3: return fmt("unset(\"%s\")", k);
        default: return fmt("set(key and value pointers the map returned for \"%s\")", k);
      }
    }
    op -= nkeys * 5;
    if (op < 6) {return fmt("reserve(%zu)", rsv(op));}
    if (op == 6) {return "clear()";}
    return "set_no_resize(\"zz\", \"v\")";
  }
  static size_t rsv(int i) {return i == 5 ? SIZE_MAX / 2 : (size_t)i;}
  bool enabled(int op) override
  {
    if (op < nkeys * 5 && op % 5 == 4) {return m.count(SK[op / 5]) != 0;}
    return true;
  }
  void do_set(const char * k, const char * v, bool resize)
  {
    std::string ks = k, vs = v;
    bool isnew = !m.count(ks);
    bool full = m.size() == mcap;
    rcutils_ret_t r = lib([&] {
        return resize ? rcutils_string_map_set(&s, k, v) : rcutils_string_map_set_no_resize(&s, k, v);
      });
    size_t c = getcap();
    if (!resize && isnew && full) {
      CK(r == RCUTILS_RET_NOT_ENOUGH_SPACE, "set-full", "set_no_resize on a full map returned %d", r);
      CK(c == mcap, "set-full-cap", "capacity changed");
    } else if (T.failed && r != RCUTILS_RET_OK) {
      CK(r == RCUTILS_RET_BAD_ALLOC, "set-ret", "set under allocation failure returned %d", r);
    } else {
      CK(r == RCUTILS_RET_OK, "set-ret", "set returned %d", r);
      m[ks] = vs;
    }
    if (!(resize && isnew && full)) {
      CK(c == mcap, "set-cap", "capacity changed from %zu to %zu although there was room", mcap, c);
    } else {
      CK(c >= mcap, "set-cap-shrunk", "capacity shrank from %zu to %zu", mcap, c);
    }
    mcap = c;
  }
  void apply(int op) override
  {
    if (op < nkeys * 5) {
      const char * k = SK[op / 5];
      int w = op % 5;
      if (w == 0 || w == 1 || w == 2) {
        Exact ek(k, strlen(k) + 1), ev(SV[w], strlen(SV[w]) + 1);
        do_set(ek.p, ev.p, w != 2);
      } else if (w == 3) {
        rcutils_ret_t r = lib([&] {return rcutils_string_map_unset(&s, k);});
        bool had = m.erase(k) != 0;
        CK(
          r == (had ? RCUTILS_RET_OK : RCUTILS_RET_STRING_KEY_NOT_FOUND), "unset-ret",
          "unset of a%s key returned %d", had ? " present" : "n absent", r);
        CK(getcap() == mcap, "unset-cap", "unset changed the capacity");
      } else {
        const char * kp = lib([&] {return rcutils_string_map_get_next_key(&s, nullptr);});
        while (kp && strcmp(kp, k)) {kp = lib([&] {return rcutils_string_map_get_next_key(&s, kp);});}
        const char * vp = lib([&] {return rcutils_string_map_get(&s, k);});
        CK(kp && vp, "own", "a present key has no key or value pointer");
        do_set(kp, vp, true);
      }
    } else {
      op -= nkeys * 5;
      if (op < 6) {
        size_t want = rsv(op);
        rcutils_ret_t r = lib([&] {return rcutils_string_map_reserve(&s, want);});
        size_t c = getcap();
        if (want == SIZE_MAX / 2) {
          CK(r == RCUTILS_RET_BAD_ALLOC, "reserve-huge", "reserve of an impossible size returned %d", r);
          CK(c == mcap, "reserve-fail-cap", "a failed reserve changed the capacity");
        } else if (T.failed && r != RCUTILS_RET_OK) {
          CK(r == RCUTILS_RET_BAD_ALLOC, "reserve-ret", "reserve under failure returned %d", r);
          CK(c == mcap, "reserve-fail-cap", "a failed reserve changed the capacity");
        } else {
          CK(r == RCUTILS_RET_OK, "reserve-ret", "reserve(%zu) returned %d", want, r);
          size_t e = std::max(want, m.size());
          CK(
            c == e, "reserve-cap", "capacity after reserve(%zu) with %zu pairs is %zu, expected %zu",
            want, m.size(), c, e);
        }
        mcap = c;
      } else if (op == 6) {
        rcutils_ret_t r = lib([&] {return rcutils_string_map_clear(&s);});
        CK(r == RCUTILS_RET_OK, "clear-ret", "clear returned %d", r);
        m.clear();
        CK(getcap() == mcap, "clear-cap", "clear changed the capacity");
      } else {
        do_set("zz", "v", false);
      }
    }
    rcutils_reset_error();
  }
  void check() override {verify();}
  void verify()
  {
    size_t n = 777;
    CK(lib([&] {return rcutils_string_map_get_size(&s, &n);}) == RCUTILS_RET_OK, "size-ret", "get_size failed");
    CK(n == m.size(), "size", "size is %zu, expected %zu", n, m.size());
    CK(getcap() >= n, "capacity", "capacity %zu below size %zu", getcap(), n);
    std::vector<std::string> probes = {"a", "ab", "", "abc", "b", "zz", "abcd", "z", "B", "aB"};
    for (auto & p : m) {if (p.first.size() > 3) {probes.push_back(p.first);}}
    for (auto & p : probes) {
      Exact e(p.c_str(), p.size() + 1);
      probe(p, lib([&] {return rcutils_string_map_get(&s, e.p);}), lib([&] {return rcutils_string_map_key_exists(&s, e.p);}), "get");
      // exactly the bytes of the key, no terminator
      Exact u(p.data(), p.size());
      probe(
        p, lib([&] {return rcutils_string_map_getn(&s, u.p, p.size());}),
        rcutils_string_map_key_existsn(&s, u.p, p.size()), "getn");
      // the key followed by other characters
      std::string lng = p + "c#";
      Exact l(lng.c_str(), lng.size() + 1);
      probe(
        p, lib([&] {return rcutils_string_map_getn(&s, l.p, p.size());}),
        rcutils_string_map_key_existsn(&s, l.p, p.size()), "getn of a longer string");
    }
    std::map<std::string, int> seen;
    const char * k = lib([&] {return rcutils_string_map_get_next_key(&s, nullptr);});
    while (k) {
      CK(seen.size() < m.size(), "iter-endless", "iteration yields more than %zu keys", m.size());
      CK(m.count(k), "iter-key", "iteration yields %s", mc::q(k).c_str());
      CK(!seen[k]++, "iter-dup", "iteration yields %s twice", mc::q(k).c_str());
      k = lib([&] {return rcutils_string_map_get_next_key(&s, k);});
    }
    CK(seen.size() == m.size(), "iter-miss", "iteration yields %zu of %zu keys", seen.size(), m.size());
    CK(
      lib([&] {return rcutils_string_map_get_next_key(&s, "not a key of this map");}) == nullptr, "iter-absent",
      "iteration continues from a foreign pointer");
    rcutils_reset_error();
  }
  void probe(const std::string & k, const char * v, bool ex, const char * how)
  {
    auto it = m.find(k);
    CK(
      ex == (it != m.end()), "exists", "%s: key %s exists=%d, expected %d", how, mc::q(k).c_str(), ex,
      it != m.end());
    if (it == m.end()) {
      CK(v == nullptr, "get-absent", "%s: absent key %s yields %s", how, mc::q(k).c_str(), mc::q(v).c_str());
    } else {
      CK(
        v && it->second == v, "get", "%s: key %s yields %s, expected %s", how, mc::q(k).c_str(),
        mc::q(v).c_str(), mc::q(it->second).c_str());
    }
  }
  void canon(mc::Hasher & h) override
  {
    trk::canon(h, T, {{&s, sizeof s}});
    for (auto & p : m) {h.str(p.first); h.str(p.second);}
    h.u64(mcap);
  }
  void finish() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_string_map_fini(&s);});
    CK(r == RCUTILS_RET_OK, "fini-ret", "fini returned %d", r);
    r = lib([&] {return rcutils_string_map_fini(&s);});
    CK(r == RCUTILS_RET_OK, "fini-twice", "fini of a finalized map returned %d", r);
    leak_check();
  }
};

// copy(src, dst) for every pair of small maps, each with every allocation failure when `faults`
void string_map_copy(mc::Ctx & c, bool faults, bool allocs)
{
  StringMap a((size_t)c.choose(3), 4), b((size_t)c.choose(3), 4);
  a.id = b.id = "string_map_copy";
  a.allocs = b.allocs = allocs;
  a.start();
  b.start();
  for (int i = 0; i < 4; ++i) {
    int v = c.choose(3);
    if (v) {a.do_set(SK[i], SV[v], true);}
  }
  int hole = c.choose(3);       // leave a hole in the source
  if (hole) {
    const char * k = SK[hole - 1];
    if (a.m.erase(k)) {
      if (a.lib([&] {return rcutils_string_map_unset(&a.s, k);}) != RCUTILS_RET_OK) {fail("string_map_copy:unset", "unset failed");}
    }
  }
  for (int i = 0; i < 3; ++i) {
    int v = c.choose(2);
    if (v) {b.do_set(SK[i + 1], "old", true);}
  }
  int self = c.choose(2);
  c.note(
    "copy a map of %zu pairs into %s of %zu pairs", a.m.size(), self ? "itself" : "a map",
    self ? a.m.size() : b.m.size());
  StringMap & d = self ? a : b;
  auto before = d.m;
  if (faults) {
    // number of allocations is not known up front: take failure points while they are reached
    d.T.plan(0, 0);
    int k = c.choose(24);
    if (k) {d.T.plan(k, c.choose(2) ? 1 << 30 : k);}
  } else {
    d.T.plan(0, 0);
  }
  rcutils_ret_t r = d.lib([&] {return rcutils_string_map_copy(&a.s, &d.s);});
  bool failed = d.T.failed;
  d.T.plan(0, 0);
  rcutils_reset_error();
  if (r == RCUTILS_RET_OK) {
    for (auto & p : a.m) {d.m[p.first] = p.second;}
  } else {
    MC_CHECK(failed, "string_map_copy:ret", "copy returned %d", r);
    MC_CHECK(r == RCUTILS_RET_BAD_ALLOC, "string_map_copy:ret", "copy under failure returned %d", r);
    // documented: some pairs may have been copied; each key holds its old or its new value
    std::map<std::string, std::string> now;
    for (const char * k = d.lib([&] {return rcutils_string_map_get_next_key(&d.s, nullptr);}); k;
      k = d.lib([&] {return rcutils_string_map_get_next_key(&d.s, k);}))
    {
      const char * v = rcutils_string_map_get(&d.s, k);
      MC_CHECK(v, "string_map_copy:partial", "a key without value");
      bool old_ok = before.count(k) && before[k] == v;
      bool new_ok = a.m.count(k) && a.m[k] == v;
      MC_CHECK(
        old_ok || new_ok, "string_map_copy:partial", "after a failed copy %s holds %s", k, v);
      now[k] = v;
    }
    for (auto & p : before) {
      MC_CHECK(now.count(p.first), "string_map_copy:lost", "a failed copy lost %s", p.first.c_str());
    }
    d.m = now;
  }
  d.mcap = d.getcap();
  a.verify();
  d.verify();
  a.finish();
  b.finish();
  c.outcome(fmt("%zu %zu %d %d", a.m.size(), b.m.size(), self, (int)r));
}

void string_map_bulk(mc::Ctx & c, int maxn)
{
  static const size_t caps[] = {0, 1, 3, 10, 64};
  size_t cap = c.pick(caps);
  int n = c.choose(maxn + 1);
  int pat = c.choose(5);
  c.note("initial capacity %zu, %d keys, pattern %d", cap, n, pat);
  StringMap a(cap, 4);
  a.id = "string_map_bulk";
  a.start();
  auto K = [](int i) {return fmt("key%d", i) + std::string((size_t)(i % 9) * (i % 11 == 0 ? 40 : 1), 'k');};
  for (int i = 0; i < n; ++i) {a.do_set(K(i).c_str(), fmt("v%d", i).c_str(), true);}
  a.verify();
  auto unset = [&](int i) {
      MC_CHECK(
        a.lib([&] {return rcutils_string_map_unset(&a.s, ro(K(i)));}) == RCUTILS_RET_OK, "string_map_bulk:unset-ret",
        "unset failed");
      a.m.erase(K(i));
    };
  if (pat == 1) {for (int i = 0; i < n; i += 2) {unset(i);}}
  if (pat == 2) {for (int i = 0; i < n / 2; ++i) {unset(i);}}
  if (pat == 3) {for (int i = n / 3; i < n; ++i) {unset(i);}}
  a.verify();
  if (pat) {
    size_t want = pat == 4 ? (size_t)n * 3 + 5 : 0;
    rcutils_ret_t r = a.lib([&] {return rcutils_string_map_reserve(&a.s, want);});
    MC_CHECK(r == RCUTILS_RET_OK, "string_map_bulk:reserve-ret", "reserve returned %d", r);
    size_t e = std::max(want, a.m.size());
    MC_CHECK(
      a.getcap() == e, "string_map_bulk:reserve-cap", "capacity %zu after reserve(%zu) with %zu pairs",
      a.getcap(), want, a.m.size());
    a.mcap = a.getcap();
    a.verify();
  }
  for (int i = 0; i < n; ++i) {a.do_set(K(i).c_str(), "w", true);}
  a.verify();
  a.finish();
  c.outcome(fmt("%zu/%d/%d", cap, n, pat));
}

// every set of occupied slots, then one operation of each kind on it
void string_map_slots(mc::Ctx & c, int maxn)
{
  int n = c.choose(maxn + 1);
  size_t cap = (size_t)(n + (c.flip() ? 2 : 0));
  unsigned mask = 0;
  for (int i = 0; i < n; ++i) {mask |= (unsigned)c.flip() << i;}
  int act = c.choose(n + 4 + 4);
  StringMap a(cap, 4);
  a.id = "string_map_slots";
  a.start();
  auto K = [](int i) {return fmt("k%d", i);};
  for (int i = 0; i < n; ++i) {a.do_set(K(i).c_str(), fmt("v%d", i).c_str(), true);}
  std::string left;
  for (int i = 0; i < n; ++i) {
    if (mask >> i & 1) {left += fmt(" %d", i); continue;}
    MC_CHECK(
      rcutils_string_map_unset(&a.s, ro(K(i))) == RCUTILS_RET_OK, "string_map_slots:unset-ret",
      "unset failed");
    a.m.erase(K(i));
  }
  c.note("capacity %zu, %d keys set, all but%s unset, operation %d", cap, n, left.c_str(), act);
  a.verify();
  if (act < n + 4) {
    size_t want = (size_t)act;
    rcutils_ret_t r = a.lib([&] {return rcutils_string_map_reserve(&a.s, want);});
    MC_CHECK(r == RCUTILS_RET_OK, "string_map_slots:reserve-ret", "reserve returned %d", r);
    size_t e = std::max(want, a.m.size());
    MC_CHECK(
      a.getcap() == e, "string_map_slots:reserve-cap", "capacity %zu after reserve(%zu) with %zu pairs",
      a.getcap(), want, a.m.size());
    a.mcap = a.getcap();
  } else if (act == n + 4) {
    MC_CHECK(
      a.lib([&] {return rcutils_string_map_clear(&a.s);}) == RCUTILS_RET_OK, "string_map_slots:clear-ret",
      "clear failed");
    a.m.clear();
  } else if (act == n + 5) {
    StringMap b(0, 4);
    b.id = "string_map_slots copy";
    b.start();
    b.do_set("k1", "old", true);
    MC_CHECK(
      b.lib([&] {return rcutils_string_map_copy(&a.s, &b.s);}) == RCUTILS_RET_OK,
      "string_map_slots:copy-ret", "copy failed");
    for (auto & p : a.m) {b.m[p.first] = p.second;}
    b.mcap = b.getcap();
    b.verify();
    b.finish();
  } else {
    // fill every free slot, then one more
    for (int i = 0; i < (int)cap + 1; ++i) {a.do_set(fmt("n%d", i).c_str(), "new", act == n + 7);}
    for (int i = 0; i < n; i += 2) {a.do_set(K(i).c_str(), "again", act == n + 7);}
  }
  a.verify();
  a.finish();
  c.outcome(fmt("%zu/%d/%x/%d", cap, n, mask, act));
}

// ------------------------------------------------------------------ string array
const char * AV[] = {"b", "a", "", "ab"};

struct StringArray : Base
{
  size_t n0;
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  std::vector<std::string> m;   // "\1" stands for NULL
  StringArray(size_t n)
  : n0(n) {id = "string_array";}
  static std::string null() {return "\1";}
  void start() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_string_array_init(&s, n0, &A);});
    CK(r == RCUTILS_RET_OK, "init", "init(%zu) returned %d", n0, r);
    m.assign(n0, null());
  }
  void put(size_t i, const char * v)
  {
    char * p = nullptr;
    if (v) {
      p = (char *)T.alloc(strlen(v) + 1, 0);
      strcpy(p, v);
    }
    T.release(s.data[i], "replace");
    s.data[i] = p;
    m[i] = v ? v : null();
  }
  // ops: resize 0..4 | put i v (4 x 3) | sort
  int nops() override {return 5 + 12 + 1;}
  std::string opname(int op) override
  {
    if (op < 5) {return fmt("resize(%d)", op);}
    if (op < 17) {return fmt("data[%d] = %s", (op - 5) / 3, mc::q(AV[(op - 5) % 3]).c_str());}
    return "sort()";
  }
  bool enabled(int op) override
  {
    if (op >= 5 && op < 17) {return (size_t)(op - 5) / 3 < m.size();}
    return true;
  }
  void apply(int op) override
  {
    if (op < 5) {
      size_t n = (size_t)op;
      rcutils_ret_t r = lib([&] {return rcutils_string_array_resize(&s, n);});
      if (T.failed && r != RCUTILS_RET_OK) {
        CK(r == RCUTILS_RET_BAD_ALLOC, "resize-ret", "resize under failure returned %d", r);
      } else {
        CK(r == RCUTILS_RET_OK, "resize-ret", "resize returned %d", r);
        m.resize(n, null());
      }
    } else if (op < 17) {
      T.plan(0, 0);
      put((size_t)(op - 5) / 3, AV[(op - 5) % 3]);
    } else {
      if (m.empty()) {
        // nothing to sort; whether an empty array counts as a valid argument is not judged
        (void)lib([&] {return rcutils_string_array_sort(&s);});
      } else {
        rcutils_ret_t r = lib([&] {return rcutils_string_array_sort(&s);});
        CK(r == RCUTILS_RET_OK, "sort-ret", "sort returned %d", r);
      }
      std::sort(
        m.begin(), m.end(), [](const std::string & a, const std::string & b) {
          if (a == null() || b == null()) {return a != null() && b == null();}
          return a < b;
        });
    }
    rcutils_reset_error();
  }
  void check() override
  {
    CK(s.size == m.size(), "size", "size is %zu, expected %zu", s.size, m.size());
    for (size_t i = 0; i < m.size(); ++i) {
      if (m[i] == null()) {
        CK(s.data[i] == nullptr, "entry", "entry %zu is %s, expected NULL", i, mc::q(s.data[i]).c_str());
      } else {
        CK(
          s.data[i] && m[i] == s.data[i], "entry", "entry %zu is %s, expected %s", i,
          mc::q(s.data[i]).c_str(), mc::q(m[i]).c_str());
      }
    }
  }
  void canon(mc::Hasher & h) override
  {
    trk::canon(h, T, {{&s, sizeof s}});
    for (auto & v : m) {h.str(v);}
  }
  void finish() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_string_array_fini(&s);});
    CK(r == RCUTILS_RET_OK, "fini-ret", "fini returned %d", r);
    CK(s.data == nullptr && s.size == 0, "fini-state", "fini leaves size %zu", s.size);
    r = lib([&] {return rcutils_string_array_fini(&s);});
    CK(r == RCUTILS_RET_OK, "fini-twice", "fini of a finalized array returned %d", r);
    leak_check();
  }
};

// compare every pair of small arrays
void string_array_cmp(mc::Ctx & c, int maxn)
{
  static const char * V[] = {"", "a", "b", "ab", "a\xff", nullptr};
  StringArray a((size_t)c.choose(maxn + 1)), b((size_t)c.choose(maxn + 1));
  a.start();
  b.start();
  for (size_t i = 0; i < a.n0; ++i) {a.put(i, c.pick(V));}
  for (size_t i = 0; i < b.n0; ++i) {b.put(i, c.pick(V));}
  std::string d;
  for (auto & x : a.m) {d += mc::q(x) + " ";}
  d += "vs ";
  for (auto & x : b.m) {d += mc::q(x) + " ";}
  c.note("compare %s", d.c_str());
  int want = 0;
  bool empty = false;
  for (size_t i = 0; i < std::min(a.n0, b.n0) && !want && !empty; ++i) {
    empty = !a.s.data[i] || !b.s.data[i];
    if (!empty) {want = strcmp(a.m[i].c_str(), b.m[i].c_str());}
  }
  if (!want) {want = a.n0 < b.n0 ? -1 : a.n0 > b.n0;}
  int res = 12345;
  rcutils_ret_t r = a.lib([&] {return rcutils_string_array_cmp(&a.s, &b.s, &res);});
  // entries that are empty cannot be compared
  MC_CHECK(r == (empty ? RCUTILS_RET_ERROR : RCUTILS_RET_OK), "string_array_cmp:ret", "cmp returned %d: %s", r, d.c_str());
  MC_CHECK(calm::mode || rcutils_error_is_set() == empty, "string_array_cmp:error", "the error state does not match: %s", d.c_str());
  rcutils_reset_error();
  auto sg = [](int x) {return x < 0 ? -1 : x > 0;};
  MC_CHECK(
    empty || sg(res) == sg(want), "string_array_cmp:sign", "cmp gives %d, expected sign %d: %s", res, sg(want),
    d.c_str());
  c.outcome(d);
  a.finish();
  b.finish();
}

// the comparison of two entries: strings of up to n bytes, and empty entries last
void string_array_entries(mc::Ctx & c, int n)
{
  static const char B[] = {'a', 'b', 'A', '\x01', '\x7f', '\x80', '\xff'};
  auto entry = [&](std::string & s) {
      int k = c.choose(n + 2);
      for (int i = 0; i < k && k <= n; ++i) {s += B[c.choose((int)sizeof(B))];}
      return k > n;
    };
  std::string x, y;
  bool nx = entry(x), ny = entry(y);
  std::unique_ptr<char[]> bx(new char[x.size() + 1]), by(new char[y.size() + 1]);      // exact, so that reads beyond are seen
  memcpy(bx.get(), x.c_str(), x.size() + 1);
  memcpy(by.get(), y.c_str(), y.size() + 1);
  const char * px = nx ? nullptr : bx.get(), * py = ny ? nullptr : by.get();
  int r = rcutils_string_array_sort_compare(&px, &py);
  int want = nx || ny ? (int)nx - (int)ny : x.compare(y);      // std::string compares bytes as unsigned
  auto sg = [](int v) {return v < 0 ? -1 : v > 0;};
  c.note("%s and %s compare as %d", mc::q(px).c_str(), mc::q(py).c_str(), r);
  MC_CHECK(
    sg(r) == sg(want), "string_array_entries:sign", "%s and %s compare as %d", mc::q(px).c_str(), mc::q(py).c_str(), r);
  c.outcome(fmt("%d %zu %zu", sg(r), x.size(), y.size()));
}
void string_array_bulk(mc::Ctx & c, int maxn)
{
  int n = c.choose(maxn + 1);
  int m = c.choose(maxn + 1);
  int order = c.choose(4);
  c.note("array of %d entries in order %d, sorted, resized to %d and back", n, order, m);
  StringArray a((size_t)n);
  a.id = "string_array_bulk";
  a.start();
  for (int i = 0; i < n; ++i) {
    int v = order == 0 ? i : order == 1 ? n - i : order == 2 ? (i * 7) % 5 : (i * 13) % (n + 1);
    if (order == 3 && i % 4 == 0) {a.put((size_t)i, nullptr);} else {a.put((size_t)i, fmt("%04d", v).c_str());}
  }
  a.apply(17);
  a.check();
  rcutils_ret_t r = a.lib([&] {return rcutils_string_array_resize(&a.s, (size_t)m);});
  MC_CHECK(r == RCUTILS_RET_OK, "string_array_bulk:resize", "resize returned %d", r);
  a.m.resize((size_t)m, StringArray::null());
  a.check();
  r = a.lib([&] {return rcutils_string_array_resize(&a.s, (size_t)n);});
  MC_CHECK(r == RCUTILS_RET_OK, "string_array_bulk:resize", "resize returned %d", r);
  a.m.resize((size_t)n, StringArray::null());
  a.check();
  a.finish();
  c.outcome(fmt("%d %d %d", n, m, order));
}

// ------------------------------------------------------------------ char array
rcutils_ret_t ca_printf(rcutils_char_array_t * a, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_ret_t r = rcutils_char_array_vsprintf(a, f, ap);
  va_end(ap);
  return r;
}

struct CharArray : Base
{
  size_t cap0;
  bool unowned;
  rcutils_char_array_t s = rcutils_get_zero_initialized_char_array();
  std::unique_ptr<Exact> user;  // the buffer the array does not own
  Bytes m;                      // the first buffer_length bytes
  size_t mcap = 0;
  bool lost = false;            // a failed growth discarded the content: buffer is empty
  CharArray(size_t c, bool u)
  : cap0(c), unowned(u) {id = "char_array";}
  void start() override
  {
    if (unowned) {
      user.reset(new Exact(cap0));
      if (cap0) {user->p[0] = 0;}
      s.buffer = cap0 ? user->p : nullptr;
      s.buffer_capacity = cap0;
      s.buffer_length = 0;
      s.owns_buffer = false;
      s.allocator = A;
    } else {
      rcutils_ret_t r = lib([&] {return rcutils_char_array_init(&s, cap0, &A);});
      CK(r == RCUTILS_RET_OK, "init", "init(%zu) returned %d", cap0, r);
      CK(cap0 == 0 || s.buffer[0] == 0, "init-str", "a new array is not the empty string");
    }
    mcap = cap0;
  }
  struct Op {int kind; size_t n; const char * s;};
  static const std::vector<Op> & ops()
  {
    static const std::vector<Op> v = {
      {0, 0, nullptr}, {0, 1, nullptr}, {0, 3, nullptr}, {0, 8, nullptr},            // resize
      {1, 0, nullptr}, {1, 2, nullptr}, {1, 6, nullptr}, {1, 21, nullptr},           // expand
      {2, 0, ""}, {2, 0, "ab"}, {2, 0, "abcdefgh"},                                   // strcpy
      {3, 0, ""}, {3, 0, "x"}, {3, 0, "wxyz"},                                        // strcat
      {4, 0, "q"}, {4, 2, "qrst"}, {4, 4, "qrst"}, {4, 9, "qr"}, {4, SIZE_MAX / 2, "qr"},   // strncat
      {5, 0, ""}, {5, 3, "m\0n"}, {5, 2, "op"}, {5, 5, "four"},                       // memcpy
      {6, 0, ""}, {6, 7, "abc"}, {6, -1234567u, "a long string argument"},            // vsprintf
    };
    return v;
  }
  int nops() override {return (int)ops().size();}
  std::string opname(int i) override
  {
    const Op & o = ops()[(size_t)i];
    switch (o.kind) {
      case 0: return fmt("resize(%zu)", o.n);
      case 1: return fmt("expand_as_needed(%zu)", o.n);
      case 2: return fmt("strcpy(%s)", mc::q(o.s).c_str());
      case 3: return fmt("strcat(%s)", mc::q(o.s).c_str());
      case 4: return fmt("strncat(%s, %zu)", mc::q(o.s).c_str(), o.n);
      case 5: return fmt("memcpy(%s, %zu)", mc::q(o.s, o.n).c_str(), o.n);
      default: return fmt("vsprintf(\"%%s|%%d\", %s, %d)", mc::q(o.s).c_str(), (int)o.n);
    }
  }
  bool is_string()
  {
    if (m.empty()) {return true;}
    return m.back() == 0 && std::find(m.begin(), m.end() - 1, 0) == m.end() - 1;
  }
  bool enabled(int i) override
  {
    const Op & o = ops()[(size_t)i];
    // appending is defined for strings only
    if (o.kind == 3 || o.kind == 4) {return is_string() && m.size() < 40;}
    // growing an unowned buffer terminates it, which is only meaningful for strings
    if (!s.owns_buffer && o.kind == 5 && o.n && o.s[o.n - 1] != 0) {return false;}
    if (!s.owns_buffer && !m.empty() && m.back() != 0) {return false;}
    return true;
  }
  void append(const char * p, size_t n)
  {
    if (!m.empty()) {m.pop_back();}
    m.insert(m.end(), p, p + n);
    m.push_back(0);
  }
  void apply(int i) override
  {
    const Op & o = ops()[(size_t)i];
    size_t need = 0;              // capacity the result requires
    rcutils_ret_t r;
    Bytes old = m;
    bool was_unowned = !s.owns_buffer;
    switch (o.kind) {
      case 0:
        r = lib([&] {return rcutils_char_array_resize(&s, o.n);});
        if (o.n == 0) {
          CK(r == RCUTILS_RET_INVALID_ARGUMENT, "resize-zero", "resize(0) returned %d", r);
          rcutils_reset_error();
          return;
        }
        if (r == RCUTILS_RET_OK) {
          CK(s.buffer_capacity == o.n, "resize-cap", "resize(%zu) gives capacity %zu", o.n, s.buffer_capacity);
          if (m.size() > o.n) {
            m.resize(o.n);
            // a truncated string may have been terminated in place of its last byte
            if (s.buffer[o.n - 1] == 0) {m[o.n - 1] = 0;}
          }
        }
        need = o.n;
        break;
      case 1:
        r = lib([&] {return rcutils_char_array_expand_as_needed(&s, o.n);});
        need = o.n;
        break;
      case 2:
        {
          Exact e(o.s, strlen(o.s) + 1);
          r = lib([&] {return rcutils_char_array_strcpy(&s, e.p);});
          if (r == RCUTILS_RET_OK) {m.assign(o.s, o.s + strlen(o.s) + 1);}
          need = strlen(o.s) + 1;
          break;
        }
      case 3:
        {
          Exact e(o.s, strlen(o.s) + 1);
          r = lib([&] {return rcutils_char_array_strcat(&s, e.p);});
          if (r == RCUTILS_RET_OK) {append(o.s, strlen(o.s));}
          break;
        }
      case 4:
        {
          // the source is only terminated when it is shorter than n
          size_t len = std::min(strlen(o.s), o.n);
          Exact e(o.s, len < o.n ? len + 1 : len);
          r = lib([&] {return rcutils_char_array_strncat(&s, e.p, o.n);});
          if (r == RCUTILS_RET_OK) {append(o.s, len);}
          break;
        }
      case 5:
        {
          Exact e(o.s, o.n);
          r = lib([&] {return rcutils_char_array_memcpy(&s, e.p, o.n);});
          if (r == RCUTILS_RET_OK) {m.assign(o.s, o.s + o.n);}
          need = o.n;
          break;
        }
      default:
        {
          std::string w = fmt("%s|%d", o.s, (int)o.n);
          r = lib([&] {return ca_printf(&s, "%s|%d", o.s, (int)o.n);});
          if (r == RCUTILS_RET_OK) {m.assign(w.c_str(), w.c_str() + w.size() + 1);}
          need = w.size() + 1;
          break;
        }
    }
    if (T.failed && r != RCUTILS_RET_OK) {
      CK(r == RCUTILS_RET_BAD_ALLOC, "ret", "%s under allocation failure returned %d", opname(i).c_str(), r);
      // The array must still be usable: either unchanged, or empty.
      if (s.buffer_capacity == 0) {
        CK(s.buffer == nullptr && s.buffer_length == 0, "failed-empty",
          "after a failed growth the array is neither unchanged nor empty");
        m.clear();
        if (!s.owns_buffer) {}
      } else {
        CK(s.buffer_capacity == mcap, "failed-cap", "after a failed growth the capacity is %zu, was %zu",
          s.buffer_capacity, mcap);
        if (o.kind == 6) {
          // the formatted text may have been written, truncated, into the old buffer; the array
          // still has its old length: take the bytes as they are
          m.assign(s.buffer, s.buffer + s.buffer_length);
        } else {
          m = old;
        }
      }
    } else {
      CK(r == RCUTILS_RET_OK, "ret", "%s returned %d", opname(i).c_str(), r);
      CK(s.buffer_capacity >= need, "capacity", "capacity %zu after %s", s.buffer_capacity, opname(i).c_str());
      if (o.kind == 1) {
        if (o.n <= mcap) {
          CK(s.buffer_capacity == mcap, "expand-noop", "expand_as_needed(%zu) changed capacity %zu to %zu", o.n, mcap, s.buffer_capacity);
        }
      }
      if (o.kind > 1) {
        CK(s.buffer_capacity >= mcap, "shrunk", "%s shrank the capacity from %zu to %zu", opname(i).c_str(), mcap, s.buffer_capacity);
      }
    }
    if (was_unowned && s.buffer == user->p) {
      CK(!s.owns_buffer, "own", "the array claims to own the user's buffer");
    }
    mcap = s.buffer_capacity;
    rcutils_reset_error();
  }
  void check() override
  {
    CK(s.buffer_length == m.size(), "length", "length is %zu, expected %zu", s.buffer_length, m.size());
    CK(s.buffer_length <= s.buffer_capacity, "bound", "length %zu exceeds capacity %zu", s.buffer_length,
      s.buffer_capacity);
    CK(
      m.empty() || memcmp(m.data(), s.buffer, m.size()) == 0, "content", "content is %s, expected %s",
      mc::q(s.buffer, s.buffer_length).c_str(), mc::q((char *)m.data(), m.size()).c_str());
    // the whole capacity is addressable
    if (s.buffer_capacity) {
      volatile char x = s.buffer[0];
      volatile char y = s.buffer[s.buffer_capacity - 1];
      (void)x;
      (void)y;
      if (s.owns_buffer) {
        auto it = T.live.find((uintptr_t)s.buffer);
        CK(it != T.live.end(), "owned", "the owned buffer was not obtained from the allocator");
        CK(it->second.size >= s.buffer_capacity, "owned-size", "capacity exceeds the allocation");
      }
    }
  }
  void canon(mc::Hasher & h) override
  {
    std::vector<std::pair<const void *, size_t>> ext;
    if (user && cap0) {ext.push_back({user->p, cap0});}
    trk::canon(h, T, {{&s, sizeof s}}, ext);
    for (auto v : m) {h.u64(v);}
  }
  void finish() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_char_array_fini(&s);});
    CK(r == RCUTILS_RET_OK, "fini-ret", "fini returned %d", r);
    leak_check();
  }
};

int large(mc::Ctx & c, int max);
// maxn < 0: large lengths up to -maxn
void char_array_lengths(mc::Ctx & c, int maxn)
{
  static const int caps[] = {0, 1, 7, 32, 1024};
  int cap = c.pick(caps);
  bool un = c.flip();
  int n = maxn < 0 ? large(c, -maxn) : c.choose(maxn + 1), how = c.choose(5);
  c.note("%s array of capacity %d, text of %d characters, way %d", un ? "unowned" : "owned", cap, n, how);
  CharArray a((size_t)cap, un);
  a.id = "char_array_lengths";
  a.start();
  std::string t;
  for (int i = 0; i < n; ++i) {t += (char)('!' + (i * 7) % 90);}
  rcutils_ret_t r = RCUTILS_RET_OK;
  std::string want = t;
  auto copy = [&](const std::string & x) {a.m.assign(x.c_str(), x.c_str() + x.size() + 1);};
  if (how == 0) {r = a.lib([&] {return rcutils_char_array_strcpy(&a.s, ro(t));});}
  if (how == 1) {r = a.lib([&] {return ca_printf(&a.s, "%s", t.c_str());});}
  if (how == 2) {
    r = a.lib([&] {return rcutils_char_array_strcpy(&a.s, "head");});
    if (r == RCUTILS_RET_OK) {r = a.lib([&] {return rcutils_char_array_strcat(&a.s, ro(t));});}
    want = "head" + t;
  }
  if (how == 3) {
    r = a.lib([&] {return rcutils_char_array_strcpy(&a.s, ro(t));});
    if (r == RCUTILS_RET_OK) {r = a.lib([&] {return rcutils_char_array_strncat(&a.s, "tail", 3);});}
    want = t + "tai";
  }
  if (how == 4) {
    r = a.lib([&] {return ca_printf(&a.s, "<%*d>", n, 5);});
    want = fmt("<%*d>", n, 5);
  }
  MC_CHECK(r == RCUTILS_RET_OK, "char_array_lengths:ret", "returned %d", r);
  copy(want);
  a.check();
  a.finish();
  c.outcome(fmt("%d %d %d %d", cap, un, n, how));
}

// ------------------------------------------------------------------ uint8 array
struct U8Array : Base
{
  size_t cap0;
  rcutils_uint8_array_t s = rcutils_get_zero_initialized_uint8_array();
  Bytes m;
  size_t mcap;
  U8Array(size_t c)
  : cap0(c), mcap(c) {id = "uint8_array";}
  void start() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_uint8_array_init(&s, cap0, &A);});
    CK(r == RCUTILS_RET_OK, "init", "init(%zu) returned %d", cap0, r);
    CK(s.buffer_length == 0 && s.buffer_capacity == cap0, "init-state", "length %zu capacity %zu",
      s.buffer_length, s.buffer_capacity);
    CK(cap0 != 0 || s.buffer == nullptr, "init-zero", "capacity 0 allocated a buffer");
  }
  static size_t sz(int i) {static const size_t v[] = {0, 1, 2, 3, 5, 64, (size_t)1 << 40}; return v[i];}
  int nops() override {return 7 + 4;}
  std::string opname(int op) override
  {
    if (op < 7) {return fmt("resize(%zu)", sz(op));}
    return fmt("fill %d bytes", fill(op - 7));
  }
  static int fill(int i) {static const int v[] = {0, 1, 3, 5}; return v[i];}
  bool enabled(int op) override {return op < 7 || (size_t)fill(op - 7) <= mcap;}
  void apply(int op) override
  {
    if (op < 7) {
      size_t n = sz(op);
      rcutils_ret_t r = lib([&] {return rcutils_uint8_array_resize(&s, n);});
      if (n == 0) {
        CK(r == RCUTILS_RET_INVALID_ARGUMENT, "resize-zero", "resize(0) returned %d", r);
      } else if (T.failed && r != RCUTILS_RET_OK) {
        CK(r == RCUTILS_RET_BAD_ALLOC, "resize-ret", "resize under failure returned %d", r);
        if (s.buffer_capacity == 0) {
          CK(s.buffer == nullptr && s.buffer_length == 0, "failed-empty",
            "after a failed resize the array is neither unchanged nor empty");
          m.clear();
          mcap = 0;
        }
      } else {
        CK(r == RCUTILS_RET_OK, "resize-ret", "resize returned %d", r);
        mcap = n;
        if (m.size() > n) {m.resize(n);}
      }
    } else {
      Bytes b = pattern(op, (size_t)fill(op - 7));
      if (!b.empty()) {memcpy(s.buffer, b.data(), b.size());}
      s.buffer_length = b.size();
      m = b;
    }
    rcutils_reset_error();
  }
  void check() override
  {
    CK(s.buffer_capacity == mcap, "capacity", "capacity is %zu, expected %zu", s.buffer_capacity, mcap);
    CK(s.buffer_length == m.size(), "length", "length is %zu, expected %zu", s.buffer_length, m.size());
    CK(m.empty() || memcmp(m.data(), s.buffer, m.size()) == 0, "content", "content changed");
    if (s.buffer_capacity) {
      auto it = T.live.find((uintptr_t)s.buffer);
      CK(it != T.live.end() && it->second.size >= s.buffer_capacity, "owned",
        "the buffer is not an allocation of its capacity");
    }
  }
  void canon(mc::Hasher & h) override
  {
    trk::canon(h, T, {{&s, sizeof s}});
    for (auto v : m) {h.u64(v);}
  }
  void finish() override
  {
    rcutils_ret_t r = lib([&] {return rcutils_uint8_array_fini(&s);});
    CK(r == RCUTILS_RET_OK, "fini-ret", "fini returned %d", r);
    CK(s.buffer == nullptr && s.buffer_length == 0 && s.buffer_capacity == 0, "fini-state",
      "fini leaves the array non-empty");
    leak_check();
  }
};

void u8_lengths(mc::Ctx & c, int maxn)
{
  int a = maxn < 0 ? large(c, -maxn) : c.choose(maxn + 1), b = maxn < 0 ? large(c, -maxn) : c.choose(maxn) + 1;
  c.note("capacity %d filled, resized to %d", a, b);
  U8Array u((size_t)a);
  u.id = "uint8_array_lengths";
  u.start();
  Bytes p = pattern(a, (size_t)a);
  if (a) {memcpy(u.s.buffer, p.data(), p.size());}
  u.s.buffer_length = (size_t)a;
  u.m = p;
  rcutils_ret_t r = u.lib([&] {return rcutils_uint8_array_resize(&u.s, (size_t)b);});
  MC_CHECK(r == RCUTILS_RET_OK, "uint8_array_lengths:ret", "resize returned %d", r);
  if (a > b) {u.m.resize((size_t)b);}
  u.mcap = (size_t)b;
  u.check();
  u.finish();
  c.outcome(fmt("%d %d", a, b));
}

// ------------------------------------------------------------------ init under failures
#include "large.inc"
void init_faults(mc::Ctx & c)
{
  int what = c.choose(6);
  size_t cap = (size_t)c.choose(4);
  int k = c.choose(6);
  bool all = c.flip();
  c.note("init type %d capacity %zu, allocation %d fails%s", what, cap, k, all ? " (and later ones)" : "");
  trk::Tracker T;
  rcutils_allocator_t A = T.get();
  if (k) {T.plan(k, all ? 1 << 30 : k);}
  rcutils_ret_t r = RCUTILS_RET_OK, r2 = RCUTILS_RET_OK, f = RCUTILS_RET_OK;
  bool nul = false;
  rcutils_array_list_t al = rcutils_get_zero_initialized_array_list();
  rcutils_hash_map_t hm = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t sm = rcutils_get_zero_initialized_string_map();
  rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array();
  rcutils_char_array_t ca = rcutils_get_zero_initialized_char_array();
  rcutils_uint8_array_t ua = rcutils_get_zero_initialized_uint8_array();
  auto init = [&]() -> rcutils_ret_t {
      switch (what) {
        case 0: return rcutils_array_list_init(&al, cap + 1, 4, &A);
        case 1: return rcutils_hash_map_init(&hm, cap + 1, 4, 4, h_id32, c_32, &A);
        case 2: return rcutils_string_map_init(&sm, cap, A);
        case 3: return rcutils_string_array_init(&sa, cap, &A);
        case 4: return rcutils_char_array_init(&ca, cap, &A);
        default: return rcutils_uint8_array_init(&ua, cap, &A);
      }
    };
  auto fini = [&]() -> rcutils_ret_t {
      switch (what) {
        case 0: return rcutils_array_list_fini(&al);
        case 1: return rcutils_hash_map_fini(&hm);
        case 2: return rcutils_string_map_fini(&sm);
        case 3: return rcutils_string_array_fini(&sa);
        case 4: return rcutils_char_array_fini(&ca);
        default: return rcutils_uint8_array_fini(&ua);
      }
    };
  r = init();
  bool failed = T.failed;
  T.plan(0, 0);
  if (r != RCUTILS_RET_OK) {
    MC_CHECK(failed, "init:ret", "init of type %d returned %d without a failure", what, r);
    MC_CHECK(r == RCUTILS_RET_BAD_ALLOC, "init:ret", "failed init of type %d returned %d", what, r);
    MC_CHECK(
      T.live.empty(), "init:leak", "failed init of type %d leaves %zu blocks allocated", what, T.live.size());
    nul = what == 0 ? al.impl == nullptr : what == 1 ? hm.impl == nullptr : what == 2 ?
      sm.impl == nullptr : what == 3 ? sa.data == nullptr : what == 4 ? ca.buffer == nullptr :
      ua.buffer == nullptr;
    MC_CHECK(nul, "init:state", "failed init of type %d leaves a dangling object", what);
    rcutils_reset_error();
    r2 = init();
    MC_CHECK(r2 == RCUTILS_RET_OK, "init:again", "init of type %d after a failed one returned %d", what, r2);
  } else {
    // an array of no strings needs no memory
    MC_CHECK(!failed || (what == 3 && cap == 0), "init:ignored", "init of type %d succeeded although an allocation failed", what);
  }
  f = fini();
  MC_CHECK(f == RCUTILS_RET_OK, "init:fini", "fini of type %d returned %d", what, f);
  MC_CHECK(T.error.empty(), "init:misuse", "%s", T.error.c_str());
  MC_CHECK(T.live.empty(), "init:leak", "type %d leaks %zu blocks", what, T.live.size());
  rcutils_reset_error();
  c.outcome(fmt("%d %zu %d", what, cap, r));
}

// Sizes whose byte count overflows or that no allocator can satisfy: an error, and no change.
void huge_sizes(mc::Ctx & c, int what)
{
  static const size_t sizes[] = {
    SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, SIZE_MAX / 4 + 1,
    SIZE_MAX / 4 + 2, SIZE_MAX / 8, SIZE_MAX / 8 + 1, SIZE_MAX / 8 + 2, SIZE_MAX / 16 + 1,
    SIZE_MAX / 16 + 3, SIZE_MAX / 24 + 1, SIZE_MAX / 32 + 1, SIZE_MAX / 64 + 1, SIZE_MAX / 96 + 2,
    SIZE_MAX / 128 + 2, (size_t)1 << 60, ((size_t)1 << 60) + 1, (size_t)1 << 40};
  static const size_t elems[] = {1, 2, 3, 4, 8, 24, (size_t)1 << 16, (size_t)1 << 32};
  size_t n = c.pick(sizes);
  trk::Tracker T;
  rcutils_allocator_t A = T.get();
  c.note("object type %d, size %zu", what, n);
  auto bad = [&](rcutils_ret_t r, const char * f) {
      MC_CHECK(
        r == RCUTILS_RET_BAD_ALLOC || r == RCUTILS_RET_INVALID_ARGUMENT, fmt("huge:%s", f).c_str(),
        "%s with size %zu returned %d", f, n, r);
      rcutils_reset_error();
    };
  auto clean = [&]() {
      MC_CHECK(T.live.empty(), "huge:leak", "%zu blocks leak", T.live.size());
      MC_CHECK(T.error.empty(), "huge:misuse", "%s", T.error.c_str());
    };
  rcutils_ret_t r;
  if (what == 0) {
    size_t e = c.pick(elems);
    rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
    bad(rcutils_array_list_init(&l, n, e, &A), "array_list_init");
    MC_CHECK(l.impl == nullptr, "huge:state", "a failed init leaves an object");
  } else if (what == 1) {
    rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
    bad(rcutils_hash_map_init(&h, n, 4, 4, h_id32, c_32, &A), "hash_map_init");
    MC_CHECK(h.impl == nullptr, "huge:state", "a failed init leaves an object");
  } else if (what == 2) {
    rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
    bad(rcutils_string_map_init(&m, n, A), "string_map_init");
    MC_CHECK(m.impl == nullptr, "huge:state", "a failed init leaves an object");
    r = rcutils_string_map_init(&m, 2, A);
    MC_CHECK(r == RCUTILS_RET_OK, "huge:init", "init returned %d", r);
    r = rcutils_string_map_set(&m, "k", "v");
    bad(rcutils_string_map_reserve(&m, n), "string_map_reserve");
    size_t cap = 0;
    r = rcutils_string_map_get_capacity(&m, &cap);
    const char * v = rcutils_string_map_get(&m, "k");
    MC_CHECK(cap == 2 && v && !strcmp(v, "v"), "huge:state", "a failed reserve changed the map");
    r = rcutils_string_map_fini(&m);
  } else if (what == 3) {
    rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
    bad(rcutils_string_array_init(&a, n, &A), "string_array_init");
    clean();
    r = rcutils_string_array_init(&a, 2, &A);
    MC_CHECK(r == RCUTILS_RET_OK, "huge:init", "init returned %d", r);
    a.data[1] = rcutils_strdup("x", A);
    bad(rcutils_string_array_resize(&a, n), "string_array_resize");
    MC_CHECK(
      a.size == 2 && a.data[0] == nullptr && !strcmp(a.data[1], "x"), "huge:state",
      "a failed resize changed the array");
    r = rcutils_string_array_fini(&a);
    MC_CHECK(r == RCUTILS_RET_OK, "huge:fini", "fini returned %d", r);
  } else if (what == 4) {
    rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
    bad(rcutils_char_array_init(&a, n, &A), "char_array_init");
    clean();
    r = rcutils_char_array_init(&a, 4, &A);
    MC_CHECK(r == RCUTILS_RET_OK, "huge:init", "init returned %d", r);
    bad(rcutils_char_array_resize(&a, n), "char_array_resize");
    MC_CHECK(
      a.buffer_length == 0 && (a.buffer_capacity == 4) == (a.buffer != nullptr), "huge:state",
      "a failed resize leaves an inconsistent array");
    r = rcutils_char_array_fini(&a);
  } else {
    rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array();
    bad(rcutils_uint8_array_init(&a, n, &A), "uint8_array_init");
    clean();
    r = rcutils_uint8_array_init(&a, 4, &A);
    MC_CHECK(r == RCUTILS_RET_OK, "huge:init", "init returned %d", r);
    bad(rcutils_uint8_array_resize(&a, n), "uint8_array_resize");
    MC_CHECK(
      a.buffer_length == 0 && (a.buffer_capacity == 4) == (a.buffer != nullptr), "huge:state",
      "a failed resize leaves an inconsistent array");
    r = rcutils_uint8_array_fini(&a);
  }
  clean();
  c.outcome(fmt("%d %zu", what, n));
}

// refused calls and the functions that make empty objects allocate nothing either
void still_args(mc::Ctx & c)
{
  bool filled = c.flip();
  c.note("refused calls on %s", filled ? "filled objects" : "uninitialized and empty objects");
  struct Plain : Base
  {
    int nops() override {return 0;}
    std::string opname(int) override {return "";}
    void start() override {}
    void apply(int) override {}
    void check() override {}
    void canon(mc::Hasher &) override {}
    void finish() override {}
  } b;
  b.id = "args";
  uint32_t k = 7, v = 9;
  uint64_t out[2];
  size_t n;
  // the functions under judgement, with every object and every null argument
  auto list = [&](rcutils_array_list_t * l) {
      (void)b.still("array_list_set", [&] {return rcutils_array_list_set(l, 5, &v);});
      (void)b.still("array_list_set", [&] {return rcutils_array_list_set(l, 0, nullptr);});
      (void)b.still("array_list_remove", [&] {return rcutils_array_list_remove(l, 5);});
      (void)b.still("array_list_get", [&] {return rcutils_array_list_get(l, 5, out);});
      (void)b.still("array_list_get", [&] {return rcutils_array_list_get(l, 0, nullptr);});
      (void)b.still("array_list_get_size", [&] {return rcutils_array_list_get_size(l, &n);});
      (void)b.still("array_list_get_size", [&] {return rcutils_array_list_get_size(l, nullptr);});
    };
  auto map = [&](rcutils_hash_map_t * h) {
      for (const void * p : {(const void *)&k, (const void *)nullptr}) {
        (void)b.still("hash_map_unset", [&] {return rcutils_hash_map_unset(h, p);});
        (void)b.still("hash_map_key_exists", [&] {return rcutils_hash_map_key_exists(h, p);});
        (void)b.still("hash_map_get", [&] {return rcutils_hash_map_get(h, p, out);});
        (void)b.still("hash_map_get", [&] {return rcutils_hash_map_get(h, p, nullptr);});
        (void)b.still("hash_map_get_next_key_and_data", [&] {return rcutils_hash_map_get_next_key_and_data(h, p, out, nullptr);});
        (void)b.still("hash_map_get_next_key_and_data", [&] {return rcutils_hash_map_get_next_key_and_data(h, p, nullptr, out);});
      }
      (void)b.still("hash_map_get_size", [&] {return rcutils_hash_map_get_size(h, &n);});
      (void)b.still("hash_map_get_size", [&] {return rcutils_hash_map_get_size(h, nullptr);});
      (void)b.still("hash_map_get_capacity", [&] {return rcutils_hash_map_get_capacity(h, &n);});
      (void)b.still("hash_map_get_capacity", [&] {return rcutils_hash_map_get_capacity(h, nullptr);});
    };
  rcutils_array_list_t l = b.still("get_zero_initialized_array_list", [&] {return rcutils_get_zero_initialized_array_list();});
  rcutils_hash_map_t h = b.still("get_zero_initialized_hash_map", [&] {return rcutils_get_zero_initialized_hash_map();});
  list(nullptr);
  map(nullptr);
  (void)b.still("array_list_fini", [&] {return rcutils_array_list_fini(nullptr);});
  (void)b.still("hash_map_fini", [&] {return rcutils_hash_map_fini(nullptr);});
  (void)b.still("get_default_allocator", [&] {return rcutils_get_default_allocator().allocate;});
  (void)b.still("get_zero_initialized_allocator", [&] {return rcutils_get_zero_initialized_allocator().allocate;});
  (void)b.still("allocator_is_valid", [&] {return rcutils_allocator_is_valid(&b.A);});
  if (filled) {
    MC_CHECK(rcutils_array_list_init(&l, 2, 4, &b.A) == RCUTILS_RET_OK, "args:init", "init failed");
    MC_CHECK(rcutils_hash_map_init(&h, 2, 4, 4, h_id32, c_32, &b.A) == RCUTILS_RET_OK, "args:init", "init failed");
    uint32_t other = 3;
    MC_CHECK(rcutils_array_list_add(&l, &v) == RCUTILS_RET_OK, "args:add", "add failed");
    MC_CHECK(rcutils_hash_map_set(&h, &other, &v) == RCUTILS_RET_OK, "args:set", "set failed");
  }
  list(&l);
  map(&h);
  if (filled) {
    (void)b.still("array_list_fini", [&] {return rcutils_array_list_fini(&l);});
    (void)b.still("hash_map_fini", [&] {return rcutils_hash_map_fini(&h);});
  }
  (void)b.still("hash_map_fini", [&] {return rcutils_hash_map_fini(&h);});
  rcutils_reset_error();
  b.leak_check();
  c.outcome(fmt("%d", filled));
}

template<class M, class ... A>
std::function<std::unique_ptr<mc::Machine>()> mk(bool allocs, A... a)
{
  return [=]() {
           std::unique_ptr<M> m(new M(a ...));
           m->allocs = allocs && !calm::pass();
           return std::unique_ptr<mc::Machine>(std::move(m));
         };
}

void setup_tasks(int mode)
{
  // C48: the same explorations, once with no error set and once with an earlier one
  bool f = mc::cfg().prop == "C09" || mc::cfg().prop == "C52";
  bool cm = calm::pass() && !f;
  std::string mark = !calm::on() ? "" : mode ? " (earlier error)" : " (no error)";
  typedef std::function<std::unique_ptr<mc::Machine>()> Make;
  auto machine = [=](const std::string & name, Make make, int depth, bool faults, int unit) {
      mc::machine(name + mark, [=]() {calm::mode = mode; return make();}, depth, faults, unit);
    };
  auto dfs = [=](const std::string & name, std::function<void(mc::Ctx &)> fn, int parts = 1, int split = 2) {
      mc::dfs(name + mark, [=](mc::Ctx & c) {calm::mode = mode; fn(c);}, parts, split);
    };
  const std::string & P = mc::cfg().prop;
  bool th = mc::cfg().thorough;
  bool al = P == "C11" || cm;      // smaller bounds
  auto want = [&](const char * p) {return P == p || f || al;};
  int shallow = (f || al) ? 1 : 0;
  if (want("C01")) {
    for (size_t cap : {1, 2, 3}) {
      for (size_t ds : {1, 8, 13}) {
        if ((f || al) && ds != 8) {continue;}
        machine(
          fmt("array_list cap=%zu size=%zu", cap, ds), mk<ArrayList>(al, cap, ds),
          (th ? 10 : 8) - shallow, f, 2);
      }
    }
    if (!f) {dfs("array_list bulk", [=](mc::Ctx & c) {array_list_bulk(c, th ? 300 : al ? 20 : 70);}, al ? 1 : 16, 3);}
    if (P == "C01" || cm) {dfs("array_list large", [](mc::Ctx & c) {array_list_large(c, 70001);}, 8, 2);}
  }
  if (want("C02") || P == "C03") {
    for (int kt = 0; kt < KT_COUNT; ++kt) {
      for (size_t cap : {1, 2, 3, 8}) {
        if (P != "C02" && cap == 3) {continue;}
        if ((f || al) && (kt == HIGH64 || cap == 8)) {continue;}
        if (P == "C03" && kt == PREFIX64) {continue;}
        int nk = (P == "C02" && th) ? 5 : 4;
        if (f) {nk = 3;}
        machine(
          fmt("hash_map %s cap=%zu", kt_name[kt], cap),
          mk<HashMap>(al, cap, (KeyType)kt, (size_t)(kt == CSTR ? 16 : 8), nk),
          f ? (th ? 6 : 4) : th ? 8 : 6, f, 2);
      }
    }
    if (!f) {
      if (!f && (!al || cm)) {dfs("hash_map large", [=](mc::Ctx & c) {hash_map_large(c, 70001, P == "C03");}, 8, 2);}
      dfs("hash_map bulk", [=](mc::Ctx & c) {hash_map_bulk(c, th ? 200 : al ? 10 : 40);}, al ? 4 : 16, 3);
      if (!al) {
        dfs("hash_map subsets", [=](mc::Ctx & c) {hash_map_subsets(c, th ? 10 : 7);}, 16, 6);
      }
    }
  }
  if (want("C04") || P == "C05") {
    for (size_t cap : {0, 1, 2, 4}) {
      if ((f || al) && cap == 4) {continue;}
      machine(
        fmt("string_map cap=%zu", cap), mk<StringMap>(al, cap, P == "C05" || f || al ? 3 : 4),
        f ? (th ? 5 : 4) : th ? 7 : (P == "C05" ? 6 : 5), f, 2);
    }
    dfs("string_map copy", [=](mc::Ctx & c) {string_map_copy(c, f, al && !cm);}, 8, 4);
    if (!f && !al) {
      dfs("string_map slots", [=](mc::Ctx & c) {string_map_slots(c, th ? 10 : 7);}, 16, 6);
    }
    if (!f && (!al || cm)) {dfs("string_map large", [=](mc::Ctx & c) {string_map_large(c, th ? 4097 : 1025, 70001);}, 8, 2);}
    if (!f) {dfs("string_map bulk", [=](mc::Ctx & c) {string_map_bulk(c, th ? 200 : al ? 12 : 50);}, 4, 2);}
  }
  if (want("C06")) {
    for (size_t n : {0, 1, 3}) {
      machine(fmt("string_array n=%zu", n), mk<StringArray>(al, n), (th ? 12 : 9) - shallow, f, 2);
    }
    if (P == "C06" || cm) {
      dfs("string_array cmp", [=](mc::Ctx & c) {string_array_cmp(c, th ? 4 : 3);}, 8, 3);
      dfs("string_array large", [](mc::Ctx & c) {string_array_large(c, 70001);}, 8, 2);
      dfs("string_array entries", [=](mc::Ctx & c) {string_array_entries(c, th ? 3 : 2);}, 8, 3);
    }
    if (!f) {dfs("string_array bulk", [=](mc::Ctx & c) {string_array_bulk(c, th ? 64 : al ? 8 : 24);}, 4, 2);}
  }
  if (want("C07")) {
    for (size_t cap : {0, 1, 4, 16}) {
      for (int un = 0; un < 2; ++un) {
        machine(
          fmt("char_array cap=%zu %s", cap, un ? "unowned" : "owned"), mk<CharArray>(al, cap, un != 0),
          (th ? 5 : 4) - shallow, f, 2);
      }
    }
    if (!f) {
      if (!al || cm) {dfs("char_array large", [](mc::Ctx & c) {char_array_lengths(c, -70001);}, 8, 3);}
      dfs("char_array lengths", [=](mc::Ctx & c) {char_array_lengths(c, th ? 3000 : al ? 60 : 1100);}, 8, 3);
    }
  }
  if (want("C08")) {
    for (size_t cap : {0, 1, 4}) {
      machine(fmt("uint8_array cap=%zu", cap), mk<U8Array>(al, cap), (th ? 14 : 11) - shallow, f, 2);
    }
    if (!f && (!al || cm)) {dfs("uint8_array large", [](mc::Ctx & c) {u8_lengths(c, -70001);}, 4, 1);}
    if (!f) {dfs("uint8_array lengths", [=](mc::Ctx & c) {u8_lengths(c, th ? 300 : al ? 20 : 80);}, 4, 1);}
  }
  if (P == "C45") {
    for (size_t cap : {1, 3}) {
      machine(fmt("array_list cap=%zu", cap), mk<ArrayList>(false, cap, (size_t)8), th ? 9 : 7, false, 2);
    }
    dfs("array_list bulk", [=](mc::Ctx & c) {array_list_bulk(c, th ? 200 : 40);}, 16, 3);
    for (int kt = 0; kt < KT_COUNT; ++kt) {
      for (size_t cap : {1, 4}) {
        machine(
          fmt("hash_map %s cap=%zu", kt_name[kt], cap),
          mk<HashMap>(false, cap, (KeyType)kt, (size_t)(kt == CSTR ? 16 : 8), 3), th ? 8 : 6, false, 2);
      }
    }
    dfs("hash_map bulk", [=](mc::Ctx & c) {hash_map_bulk(c, th ? 150 : 30);}, 16, 3);
    dfs("hash_map subsets", [=](mc::Ctx & c) {hash_map_subsets(c, th ? 9 : 6);}, 16, 6);
    dfs("arguments", still_args, 2);
  }
  static const char * const owner[] = {"C01", "C02", "C05", "C06", "C07", "C08"};
  for (int w = 0; w < 6; ++w) {
    if (want(owner[w]) && !cm) {dfs(fmt("huge sizes %d", w), [=](mc::Ctx & c) {huge_sizes(c, w);}, 1);}
  }
  if ((f || al) && !cm) {dfs("init under failures", [=](mc::Ctx & c) {init_faults(c);}, 1);}
}

void setup()
{
  for (int mode = 0; mode < (mc::cfg().prop == "C48" ? 2 : 1); ++mode) {setup_tasks(mode);}
}

void quiet_handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t,
  const char *, va_list *) {}

void worker_init()
{
  if (rcutils_logging_initialize() != RCUTILS_RET_OK) {abort();}
  rcutils_logging_set_output_handler(quiet_handler);
}
}  // namespace

int main(int argc, char ** argv) {return mc::main_(argc, argv, setup, worker_init);}
