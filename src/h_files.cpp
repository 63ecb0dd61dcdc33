// Filesystem functions on real scratch directories: C16 (predicates, mkdir, sizes) and C17
// (iteration and size of directory trees under every reading order and failing call).
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <algorithm>
#include <set>
#include "lib.hpp"
#include "rcutils/filesystem.h"
#include "rcutils/logging.h"

using mc::fmt;
using mc::q;

extern "C" DIR * __real_opendir(const char *);
extern "C" struct dirent * __real_readdir(DIR *);
extern "C" int __real_closedir(DIR *);
extern "C" int __real_stat(const char *, struct stat *);
extern "C" int __real_lstat(const char *, struct stat *);
extern "C" int __real_mkdir(const char *, mode_t);

namespace
{
std::string scratch;            // this process's own directory
int junk = 0;

// ---- interposed directory reading
enum Fault {NONE, OPEN_FAILS, FIRST_READ_FAILS, VANISHED};
struct OpenDir
{
  std::vector<struct dirent> entries;
  size_t next = 0;
  struct dirent * current = nullptr;      // what readdir handed out last; recycled by the next call
  Fault fault = NONE;
};
std::map<DIR *, OpenDir> dirs;
bool interpose = false;
int opens = 0, fault_at = 0;
Fault fault = NONE;
bool fault_hit = false;
int order_of = 0;                         // reading order (permutation number)
mc::Ctx * order_ctx = nullptr;            // draw the order from here

// called before each system call of the function under test (C47)
std::function<void(const char *)> disturb;
bool disturbing = false;
void before(const char * call) {if (disturb && !disturbing) {disturb(call);}}

struct Watch
{
  Watch()
  {
    interpose = true;
    opens = 0;
    fault_hit = false;
  }
  ~Watch()
  {
    interpose = false;
    fault_at = 0;
    fault = NONE;
    order_of = 0;
    order_ctx = nullptr;
    for (auto & d : dirs) {free(d.second.current); __real_closedir(d.first);}
    dirs.clear();
  }
};
}  // namespace

extern "C" int __wrap_stat(const char * p, struct stat * st) {before("stat"); return __real_stat(p, st);}
extern "C" int __wrap_lstat(const char * p, struct stat * st) {before("lstat"); return __real_lstat(p, st);}
extern "C" int __wrap_mkdir(const char * p, mode_t m) {before("mkdir"); return __real_mkdir(p, m);}
extern "C" DIR * __wrap_opendir(const char * p)
{
  before("opendir");
  if (!interpose) {return __real_opendir(p);}
  ++opens;
  bool f = fault_at && opens == fault_at;
  if (f && fault == OPEN_FAILS) {fault_hit = true; errno = EACCES; return nullptr;}
  DIR * d = __real_opendir(p);
  if (!d) {return d;}
  OpenDir & o = dirs[d];
  if (f) {o.fault = fault; fault_hit = true;}
  while (struct dirent * e = __real_readdir(d)) {
    struct dirent copy = {};      // only d_reclen bytes of it exist
    memcpy(&copy, e, std::min(sizeof copy, (size_t)e->d_reclen));
    o.entries.push_back(copy);
  }
  std::sort(
    o.entries.begin(), o.entries.end(),
    [](const dirent & a, const dirent & b) {return strcmp(a.d_name, b.d_name) < 0;});
  int n = (int)o.entries.size();
  if (order_ctx) {                        // every permutation
    for (int i = 0; i + 1 < n; ++i) {std::swap(o.entries[(size_t)i], o.entries[(size_t)(i + order_ctx->env(n - i))]);}
  } else if (order_of == 1) {std::reverse(o.entries.begin(), o.entries.end());} else if (order_of == 2 && n > 2) {
    std::rotate(o.entries.begin(), o.entries.begin() + 2, o.entries.end());
  }
  errno = 0;
  return d;
}
extern "C" struct dirent * __wrap_readdir(DIR * d)
{
  before("readdir");
  auto it = dirs.find(d);
  if (!interpose || it == dirs.end()) {return __real_readdir(d);}
  OpenDir & o = it->second;
  free(o.current);                        // the previous entry becomes invalid
  o.current = nullptr;
  if (o.fault == FIRST_READ_FAILS && o.next == 0) {errno = EIO; return nullptr;}
  if (o.fault == VANISHED) {return nullptr;}
  if (o.next >= o.entries.size()) {return nullptr;}
  o.current = (struct dirent *)malloc(sizeof(struct dirent));
  *o.current = o.entries[o.next++];
  return o.current;
}
extern "C" int __wrap_closedir(DIR * d)
{
  before("closedir");
  auto it = dirs.find(d);
  if (it != dirs.end()) {
    free(it->second.current);
    dirs.erase(it);
  }
  return __real_closedir(d);
}

namespace
{
int lowest_fd() {int f = open("/dev/null", O_RDONLY); close(f); return f;}

void wipe(const std::string & p)
{
  // only ever below our own scratch directory
  if (p.compare(0, scratch.size(), scratch) != 0 || p.size() <= scratch.size() + 1) {return;}
  struct stat st;
  if (lstat(p.c_str(), &st) < 0) {return;}
  if (!S_ISDIR(st.st_mode)) {unlink(p.c_str()); return;}
  chmod(p.c_str(), 0700);
  DIR * d = __real_opendir(p.c_str());
  if (d) {
    std::vector<std::string> names;
    while (struct dirent * e = __real_readdir(d)) {names.push_back(e->d_name);}
    __real_closedir(d);
    for (auto & n : names) {if (n != "." && n != "..") {wipe(p + "/" + n);}}
  }
  rmdir(p.c_str());
}
struct Dir
{
  std::string p;
  Dir()
  : p(scratch + fmt("/d%d", ++junk)) {if (mkdir(p.c_str(), 0755) != 0) {abort();}}
  ~Dir() {interpose = false; wipe(p);}
};
void make_file(const std::string & p, off_t size, mode_t mode = 0644)
{
  int f = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644);
  if (f < 0 || ftruncate(f, size) != 0) {abort();}
  close(f);
  if (mode != 0644) {chmod(p.c_str(), mode);}
}

// ------------------------------------------------------------------ C16
enum Kind {ABSENT, REG, DIRECTORY, FIFO, SOCKET, NKIND};
const char * kind_name[] = {"absent", "regular file", "directory", "fifo", "socket"};
enum Via {DIRECT, LINK, LINKLINK, NVIA};
const char * via_name[] = {"", "symlink to ", "symlink to a symlink to "};
void make_kind(const std::string & p, int kind, mode_t mode, off_t size)
{
  if (kind == REG) {make_file(p, size);}
  if (kind == DIRECTORY && mkdir(p.c_str(), 0755)) {abort();}
  if (kind == FIFO && mkfifo(p.c_str(), 0644)) {abort();}
  if (kind == SOCKET) {
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    struct sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    // short name: bind relative to the current directory
    std::string rel = "./" + p.substr(p.rfind('/') + 1);
    strncpy(a.sun_path, rel.c_str(), sizeof a.sun_path - 1);
    if (bind(s, (struct sockaddr *)&a, sizeof a)) {abort();}
    close(s);
    if (rename((scratch + rel.substr(1)).c_str(), p.c_str())) {abort();}
  }
  if (kind != ABSENT) {chmod(p.c_str(), mode);}
}
void predicates(mc::Ctx & c, bool all_modes)
{
  int kind = c.choose(NKIND);
  int via = c.choose(NVIA);
  mode_t mode;
  off_t size = 0;
  if (kind == ABSENT) {
    mode = 0;
  } else if (all_modes && via == DIRECT && kind <= DIRECTORY) {
    mode = (mode_t)c.choose(512);
  } else {
    mode = (mode_t)(c.choose(8) << 6);
    static const mode_t rest[] = {0, 077, 066, 011};
    mode |= c.pick(rest);
  }
  if (kind == REG) {
    static const off_t sizes[] = {0, 1, 4096, 70000, ((off_t)1 << 31) + 5, ((off_t)1 << 32) + 3};
    size = sizes[c.choose(all_modes && via == DIRECT ? 2 : 6)];
  }
  int form = c.choose(3);                 // absolute, relative, with a trailing slash
  Dir d;
  std::string p = d.p + "/entry";
  make_kind(p, kind, mode, size);
  if (via >= LINK) {
    if (symlink("entry", (d.p + "/link").c_str())) {abort();}
    p = d.p + "/link";
  }
  if (via == LINKLINK) {
    if (symlink("link", (d.p + "/link2").c_str())) {abort();}
    p = d.p + "/link2";
  }
  if (form == 1) {p = p.substr(scratch.size() + 1);}
  if (form == 2) {p += "/";}
  bool there = kind != ABSENT && (form != 2 || kind == DIRECTORY);
  bool isdir = there && kind == DIRECTORY, isreg = there && kind == REG;
  bool r = there && (mode & S_IRUSR), w = there && (mode & S_IWUSR);
  std::string what = fmt("%s%s, mode %03o, size %lld%s", via_name[via], kind_name[kind], mode, (long long)size,
    form == 1 ? ", relative path" : form == 2 ? ", trailing slash" : "");
  c.note("%s", what.c_str());
  Exact e(p);
  int fd0 = lowest_fd();
#define PRED(call, want) do {bool g_ = call; MC_CHECK(g_ == (want), "predicates:" #call, "%s is %d for %s", #call, g_, what.c_str());} while (0)
  PRED(rcutils_exists(e.p), there);
  PRED(rcutils_is_directory(e.p), isdir);
  PRED(rcutils_is_file(e.p), isreg);
  PRED(rcutils_is_readable(e.p), r);
  PRED(rcutils_is_writable(e.p), w);
  PRED(rcutils_is_readable_and_writable(e.p), r && w);
  size_t fs = rcutils_get_file_size(e.p);
  MC_CHECK(fs == (isreg ? (size_t)size : 0), "predicates:file_size", "file size is %zu for %s", fs, what.c_str());
  struct stat st;
  if (kind != ABSENT) {
    MC_CHECK(
      lstat((d.p + "/entry").c_str(), &st) == 0 && (st.st_mode & 07777) == mode && (kind != REG || st.st_size == size),
      "predicates:changed", "asking about the entry changed it: %s", what.c_str());
  } else {
    MC_CHECK(lstat((d.p + "/entry").c_str(), &st) != 0, "predicates:created", "asking about a path created it");
  }
  MC_CHECK(lowest_fd() == fd0, "predicates:fd", "a file descriptor was left open");
  c.outcome(what);
}
void predicates_odd(mc::Ctx & c)
{
  Dir d;
  make_file(d.p + "/f", 3);
  if (symlink("loop", (d.p + "/loop").c_str())) {abort();}
  std::vector<std::string> ps = {"", d.p + "/f/below", d.p + "/loop", d.p + "/loop/x", d.p + "/" + std::string(300, 'n'),
    d.p + "/" + std::string(5000, '/') + "nothing", "relative/none"};
  int i = c.choose((int)ps.size() + 1);
  const char * p = i < (int)ps.size() ? ro(ps[(size_t)i]) : nullptr;
  std::string what = q(p);
  PRED(rcutils_exists(p), false);
  PRED(rcutils_is_directory(p), false);
  PRED(rcutils_is_file(p), false);
  PRED(rcutils_is_readable(p), false);
  PRED(rcutils_is_writable(p), false);
  PRED(rcutils_is_readable_and_writable(p), false);
  if (p) {MC_CHECK(rcutils_get_file_size(p) == 0, "predicates:file_size", "size of %s is not zero", what.c_str());}
  c.outcome(fmt("%d", i));
}
// the set of paths below a directory, with types
std::string listing(const std::string & root, const std::string & rel = "")
{
  std::string o;
  DIR * d = __real_opendir((root + rel).c_str());
  if (!d) {return "?";}
  std::vector<std::string> names;
  while (struct dirent * e = __real_readdir(d)) {names.push_back(e->d_name);}
  __real_closedir(d);
  std::sort(names.begin(), names.end());
  for (auto & n : names) {
    if (n == "." || n == "..") {continue;}
    struct stat st;
    lstat((root + rel + "/" + n).c_str(), &st);
    o += rel + "/" + n + fmt(":%o", st.st_mode & S_IFMT) + "\n";
    if (S_ISDIR(st.st_mode)) {o += listing(root, rel + "/" + n);}
  }
  return o;
}
void make_dir(mc::Ctx & c)
{
  Dir d;
  make_file(d.p + "/file", 3);
  if (mkdir((d.p + "/dir").c_str(), 0700) || symlink("dir", (d.p + "/dlink").c_str()) ||
    symlink("file", (d.p + "/flink").c_str()) || symlink("nowhere", (d.p + "/dangling").c_str()) ||
    mkfifo((d.p + "/fifo").c_str(), 0600)) {abort();}
  static const char * const parents[] = {"", "/dir", "/dlink", "/none", "/file", "/flink", "/dangling", "/none/deeper"};
  static const char * const leaves[] = {"/new", "/new/", "/dir", "/dir/", "/file", "/dlink", "/flink", "/dangling", "/fifo",
    "/.", "/..", "//new", "/NAME255", "/NAME256"};
  int pi = c.choose(8), li = c.choose(14);
  int form = c.choose(2);                  // absolute / relative
  static const int errs[] = {0, EEXIST, ENOENT};
  int stale = c.pick(errs);
  std::string leaf = leaves[li];
  if (leaf == "/NAME255") {leaf = "/" + std::string(255, 'n');}
  if (leaf == "/NAME256") {leaf = "/" + std::string(256, 'n');}
  std::string abs = d.p + parents[pi] + leaf, p = form ? abs.substr(scratch.size() + 1) : abs;
  // expectation from the structure alone
  bool parent_ok = pi <= 2, in_top = pi == 0;
  bool exists_dir = false, exists_other = false, creates = false;
  if (parent_ok) {
    if (li == 12 || li == 0 || li == 1 || li == 11) {creates = true;} else if (li == 13) {} else if (li == 9 || li == 10) {
      exists_dir = true;
    } else if (!in_top) {
      // below an empty directory nothing exists yet
      creates = true;
    } else if (li == 2 || li == 3 || li == 5) {exists_dir = true;} else {exists_other = true;}
  }
  (void)exists_other;
  bool want = (creates || exists_dir) && !form;
  std::string before = listing(d.p), whole = listing(scratch);
  c.note("mkdir(%s)", q(p.substr(form ? 0 : scratch.size())).c_str());
  Exact e(p);
  errno = stale;
  bool g = rcutils_mkdir(e.p);
  MC_CHECK(g == want, "mkdir:ret", "mkdir of <top>%s%s (%s) returned %d", parents[pi], leaves[li], form ? "relative" : "absolute", g);
  if (!want || exists_dir) {
    MC_CHECK(listing(d.p) == before, "mkdir:effect", "mkdir of <top>%s%s (%s) changed the filesystem", parents[pi], leaves[li], form ? "relative" : "absolute");
    MC_CHECK(listing(scratch) == whole, "mkdir:effect", "mkdir changed the filesystem elsewhere");
  } else {
    struct stat st;
    MC_CHECK(stat(abs.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "mkdir:created", "mkdir of <top>%s%s did not create a directory", parents[pi], leaves[li]);
    std::string after = listing(d.p);
    MC_CHECK(
      std::count(after.begin(), after.end(), '\n') == std::count(before.begin(), before.end(), '\n') + 1, "mkdir:effect",
      "mkdir created more than one entry");
    MC_CHECK((st.st_mode & 0777) == 0775, "mkdir:mode", "the new directory has mode %03o with umask 0", st.st_mode & 0777);
    errno = stale;
    MC_CHECK(rcutils_mkdir(e.p), "mkdir:again", "mkdir of the directory it just made fails");
  }
  MC_CHECK(!rcutils_mkdir(nullptr) && !rcutils_mkdir(""), "mkdir:null", "mkdir of a null or empty path succeeds");
  c.outcome(fmt("%d %d %d", pi, li, form));
}
// every length of a path up to and beyond the longest one the system takes
void long_paths(mc::Ctx & c)
{
  int kind = c.choose(3);                     // a file, a directory, a directory to be made
  int block = c.choose(81) * 50, tail = c.choose(50);
  size_t len = scratch.size() + 20 + (size_t)(block + tail);
  if (len > 4100) {return;}
  Dir d;
  std::string p = d.p;
  while (len - p.size() > 220) {
    p += "/" + std::string(199, 'n');
    if (mkdir(p.c_str(), 0755)) {abort();}
  }
  std::string dir = p, leaf((len - p.size()) - 1, 'm');
  p += "/" + leaf;
  bool fits = len < 4096;
  int at = open(dir.c_str(), O_PATH | O_DIRECTORY);
  if (at < 0) {abort();}
  if (kind == 0) {
    int f = openat(at, leaf.c_str(), O_CREAT | O_WRONLY, 0400);
    if (f < 0 || ftruncate(f, 12345)) {abort();}
    close(f);
  } else if (kind == 1 && mkdirat(at, leaf.c_str(), 0300)) {abort();}
  std::string what = fmt("%s of %zu characters", kind == 0 ? "a file" : kind == 1 ? "a directory" : "a missing path", len);
  c.note("%s", what.c_str());
  Exact e(p);
  bool there = fits && kind < 2;
  PRED(rcutils_exists(e.p), there);
  PRED(rcutils_is_directory(e.p), there && kind == 1);
  PRED(rcutils_is_file(e.p), there && kind == 0);
  PRED(rcutils_is_readable(e.p), there && kind == 0);
  PRED(rcutils_is_writable(e.p), there && kind == 1);
  PRED(rcutils_is_readable_and_writable(e.p), false);
  size_t fs = rcutils_get_file_size(e.p);
  MC_CHECK(fs == (there && kind == 0 ? 12345u : 0u), "predicates:file_size", "the size is %zu for %s", fs, what.c_str());
  bool made = rcutils_mkdir(e.p), want = fits && kind != 0;
  struct stat st;
  bool now = fstatat(at, leaf.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0;
  close(at);
  MC_CHECK(made == want, "mkdir:ret", "mkdir of %s returned %d", what.c_str(), made);
  MC_CHECK(
    now == (kind < 2 || fits) && (!now || S_ISDIR(st.st_mode) == (kind != 0)), "mkdir:effect", "mkdir of %s: an entry %s",
    what.c_str(), now ? "is there" : "is missing");
  if (kind == 2 && fits) {PRED(rcutils_is_directory(e.p), true);}
  c.outcome(what);
}
void cwd_sizes(mc::Ctx & c)
{
  Dir d;
  int deep = c.choose(3);
  std::string p = d.p;
  for (int i = 0; i < deep * 2; ++i) {p += "/" + std::string((size_t)(deep == 2 ? 200 : 3), 'k'); mkdir(p.c_str(), 0755);}
  // every size around the length, and small ones (drawn here: a draw may not return)
  int i0 = c.choose(29);
  if (chdir(p.c_str())) {abort();}
  static const size_t roomy[] = {4095, 4096, 4097, 65536, 1 << 20};
  size_t n = i0 < 10 ? (size_t)i0 : i0 < 24 ? p.size() - 10 + (size_t)(i0 - 10) : roomy[i0 - 24];
  Exact b(n + 4);
  bool g = rcutils_get_cwd(b.p, n);
  std::string got = g ? std::string(b.p) : "";
  bool null = rcutils_get_cwd(nullptr, n);
  if (chdir(scratch.c_str())) {abort();}
  c.note("get_cwd of %zu characters into %zu bytes", p.size(), n);
  MC_CHECK(!null, "cwd:null", "get_cwd without a buffer succeeds");
  MC_CHECK(g == (n > p.size()), "cwd:ret", "get_cwd of %zu characters into %zu bytes returned %d", p.size(), n, g);
  if (g) {MC_CHECK(got == p, "cwd:text", "get_cwd gave %s instead of %s", q(got).c_str(), q(p).c_str());}
  for (size_t i = n; i < n + 4; ++i) {MC_CHECK((unsigned char)b.p[i] == 0xAB, "cwd:beyond", "wrote beyond the buffer");}
  c.outcome(fmt("%zu %zu", p.size(), n));
}

// ------------------------------------------------------------------ C17 iteration
std::string entry_name(int i)
{
  switch (i % 8) {
    case 0: return fmt("file%d", i);
    case 1: return fmt(".hidden%d", i);
    case 2: return fmt("...%d", i);
    case 3: return fmt("with space %%s %d", i);
    case 4: return std::string((size_t)255, (char)('a' + (i / 8) % 26));
    case 5: return fmt("..%d", i);
    case 6: return fmt("\xff\xfe%d", i);
    default: return fmt("%d", i);
  }
}
struct Iter
{
  Env & e;
  rcutils_dir_iter_t * it;
  std::vector<std::string> got;
  bool more = true;
  Iter(Env & e_, const std::string & p)
  : e(e_), it(rcutils_dir_iter_start(ro(p), e_.A)) {}
  void take()
  {
    MC_CHECK(it->entry_name != nullptr, "iter:name", "the iterator has no entry name although an entry was announced");
    got.push_back(it->entry_name);
  }
  void next()
  {
    more = rcutils_dir_iter_next(it);
    if (more) {take();} else {MC_CHECK(it->entry_name == nullptr, "iter:end-name", "the iterator keeps an entry name after the end");}
  }
};
void iterate(mc::Ctx & c, int max, bool permute)
{
  int n = c.choose(max + 1);
  Dir d;
  std::vector<std::string> want = {".", ".."};
  for (int i = 0; i < n; ++i) {
    std::string name = entry_name(i);
    want.push_back(name);
    int kind = i % 3;
    if (kind == 0) {make_file(d.p + "/" + name, i);} else if (kind == 1) {mkdir((d.p + "/" + name).c_str(), 0755);} else {
      if (symlink("x", (d.p + "/" + name).c_str())) {abort();}
    }
  }
  std::sort(want.begin(), want.end());
  int stop = permute ? n + 2 : c.choose(n + 4);     // how many entries are taken before the end
  int fd0 = lowest_fd();
  Env e("iter");
  {
    Watch w;
    if (permute) {order_ctx = &c;} else {order_of = c.choose(3);}
    c.note("iterate a directory of %d entries, stop after %d", n + 2, stop);
    std::string forms[] = {d.p, d.p + "/", d.p.substr(scratch.size() + 1)};
    Iter it(e, forms[stop % 3]);
    order_ctx = nullptr;
    MC_CHECK(it.it, "iter:start", "the iteration did not start");
    it.take();
    for (int i = 1; i < stop && it.more; ++i) {it.next();}
    if (stop >= n + 2) {
      if (it.more) {it.next();}
      MC_CHECK(!it.more, "iter:end", "the iteration goes on after %zu of %zu entries", it.got.size(), want.size());
      it.next();
      MC_CHECK(!it.more, "iter:end", "the iteration restarts after its end");
      std::sort(it.got.begin(), it.got.end());
      MC_CHECK(it.got == want, "iter:entries", "%zu entries were visited instead of the %zu existing ones", it.got.size(), want.size());
    }
    rcutils_dir_iter_end(it.it);
    MC_CHECK(dirs.empty(), "iter:open", "a directory was left open after the iteration");
  }
  e.clean("after the iteration");
  MC_CHECK(lowest_fd() == fd0, "iter:fd", "a file descriptor was left open after the iteration");
  rcutils_dir_iter_end(nullptr);
  c.outcome(fmt("%d %d %d", n, stop, c.path.empty() ? 0 : (int)c.pos));
}
// two iterators over two directories, all interleavings of their steps
void two_iterators(mc::Ctx & c)
{
  Dir a, b;
  int na = c.choose(3), nb = c.choose(3);
  for (int i = 0; i < na; ++i) {make_file(a.p + fmt("/a%d", i), 0);}
  for (int i = 0; i < nb; ++i) {make_file(b.p + fmt("/b%d", i), 0);}
  Env e("iter2");
  {
    Watch w;
    Iter x(e, a.p), y(e, b.p);
    MC_CHECK(x.it && y.it, "iter:start", "the iteration did not start");
    x.take();
    y.take();
    while (x.more || y.more) {
      bool first = x.more && y.more ? c.flip() : x.more;
      (first ? x : y).next();
    }
    MC_CHECK(x.got.size() == (size_t)na + 2 && y.got.size() == (size_t)nb + 2, "iter:two", "interleaved iterations visited %zu and %zu entries of %d and %d", x.got.size(), y.got.size(), na + 2, nb + 2);
    for (auto & s : x.got) {MC_CHECK(s[0] == '.' || s[0] == 'a', "iter:two", "an entry of the other directory was visited");}
    for (auto & s : y.got) {MC_CHECK(s[0] == '.' || s[0] == 'b', "iter:two", "an entry of the other directory was visited");}
    rcutils_dir_iter_end(c.flip() ? x.it : nullptr);
    bool done = c.path[c.pos - 1].c == 1;
    rcutils_dir_iter_end(y.it);
    if (!done) {rcutils_dir_iter_end(x.it);}
    MC_CHECK(dirs.empty(), "iter:open", "a directory was left open after the iteration");
  }
  e.clean("after the iterations");
  c.outcome(fmt("%d %d %zu", na, nb, c.pos));
}
void iterate_faults(mc::Ctx & c)
{
  Dir d;
  make_file(d.p + "/f", 0);
  int what = c.choose(8);
  std::string p = what == 0 ? d.p + "/missing" : what == 1 ? d.p + "/f" : d.p;
  Env e("iter_faults");
  int fd0 = lowest_fd();
  {
    Watch w;
    if (what == 2) {fault = OPEN_FAILS; fault_at = 1;}
    if (what == 3) {fault = FIRST_READ_FAILS; fault_at = 1;}
    if (what >= 4) {e.T.plan(what - 3, what - 3);}
    rcutils_dir_iter_t * it = rcutils_dir_iter_start(ro(p), e.A);
    bool must = what <= 1 || (what <= 3 ? fault_hit : e.T.failed);
    c.note("start an iteration, failure %d", what);
    MC_CHECK((it == nullptr) == must, "iter_faults:start", "starting the iteration with failure %d gave %s", what, it ? "an iterator" : "NULL");
    rcutils_dir_iter_end(it);
    e.T.plan(0, 0);
    MC_CHECK(dirs.empty(), "iter_faults:open", "a directory was left open");
  }
  rcutils_reset_error();
  e.clean("after the iteration");
  MC_CHECK(lowest_fd() == fd0, "iter_faults:fd", "a file descriptor was left open");
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(ro(d.p), e.A);
  MC_CHECK(it, "iter_faults:after", "an iteration after a failed one does not start");
  rcutils_dir_iter_end(it);
  e.clean("after the iteration");
  c.outcome(fmt("%d", what));
}

// ------------------------------------------------------------------ C17 sizes
struct Tree
{
  // sizes of regular files by depth (1: directly in the root)
  std::vector<uint64_t> at = std::vector<uint64_t>(8, 0);
  int ndirs = 1;
  int files = 0;
  std::string text;
};
int top_kinds = 7, sub_kids = 2;
// children of one directory: draws the entries, in non-decreasing kind order to avoid duplicates
void grow(mc::Ctx & c, Tree & t, const std::string & path, int depth, int maxdepth, int maxkids, bool big)
{
  static const char * const kn[] = {"file", "dir", "link-to-file", "link-to-dir", "link-up", "fifo", "empty-file"};
  int last = 0;
  int n = 0;
  for (;; ++n) {
    int kinds = depth == 1 ? top_kinds : depth == 2 ? 3 : 2;       // fewer kinds further down
    if (n == maxkids) {break;}
    int k = last + c.choose(kinds - last + 1) - 1;   // alternative 0: no more entries
    if (k < last) {break;}
    last = k;
    std::string p = path + fmt("/%s%d", k == 1 ? (n ? "sub.d" : "D") : "e", n);
    t.text += fmt("%s%s", t.text.empty() ? "" : " ", kn[k]);
    if (k == 0 || k == 6) {
      uint64_t size = k == 6 ? 0 : (uint64_t)1 << (big ? 31 + t.files : t.files);
      if (k == 0) {++t.files;}
      make_file(p, (off_t)size);
      t.at[(size_t)depth] += size;
    } else if (k == 1) {
      mkdir(p.c_str(), 0755);
      ++t.ndirs;
      t.text += "(";
      if (depth < maxdepth) {grow(c, t, p, depth + 1, maxdepth, depth == 1 ? sub_kids : 1, big);}
      t.text += ")";
    } else if (k == 2) {
      wipe(scratch + "/target");
      make_file(scratch + "/target", 1 << 20);
      if (symlink((scratch + "/target").c_str(), p.c_str())) {abort();}
    } else if (k == 3) {
      mkdir((scratch + "/tdir").c_str(), 0755);
      wipe(scratch + "/tdir/f");
      make_file(scratch + "/tdir/f", 1 << 21);
      if (symlink((scratch + "/tdir").c_str(), p.c_str())) {abort();}
    } else if (k == 4) {
      if (symlink("..", p.c_str())) {abort();}
    } else {
      if (mkfifo(p.c_str(), 0644)) {abort();}
    }
  }
}
struct Targets {~Targets() {wipe(scratch + "/target"); wipe(scratch + "/tdir");}};
uint64_t want_size(const Tree & t, size_t depth)
{
  uint64_t s = 0;
  for (size_t i = 1; i < t.at.size(); ++i) {if (depth == 0 || i <= depth) {s += t.at[i];}}
  return s;
}
void judge_size(Env & e, const std::string & root, const Tree & t, size_t limit)
{
  uint64_t got = 4242;
  rcutils_ret_t r = rcutils_calculate_directory_size_with_recursion(ro(root), limit, &got, e.A);
  MC_CHECK(r == RCUTILS_RET_OK, "dirsize:ret", "size of {%s} to depth %zu returned %d", t.text.c_str(), limit, r);
  MC_CHECK(
    got == want_size(t, limit), "dirsize:size", "size of {%s} to depth %zu is %llu instead of %llu", t.text.c_str(), limit,
    (unsigned long long)got, (unsigned long long)want_size(t, limit));
  e.clean("after computing a directory size");
  MC_CHECK(dirs.empty(), "dirsize:open", "a directory was left open");
}
void sizes(mc::Ctx & c, int maxdepth, int kids)
{
  top_kinds = 7;
  sub_kids = 2;
  Targets tg;
  Dir d;
  Tree t;
  grow(c, t, d.p, 1, maxdepth, kids, false);
  c.note("size of {%s}", t.text.c_str());
  int fd0 = lowest_fd();
  Env e("dirsize");
  {
    Watch w;
    for (int o = 0; o < 3; ++o) {
      order_of = o;
      for (size_t lim : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)4, (size_t)SIZE_MAX}) {judge_size(e, d.p, t, lim);}
    }
    // other names of the same directory
    for (auto & s : {d.p + "/", d.p + "//", d.p + "/.", d.p.substr(scratch.size() + 1)}) {judge_size(e, s, t, 2);}
    uint64_t got = 4242;
    MC_CHECK(
      rcutils_calculate_directory_size(ro(d.p), &got, e.A) == RCUTILS_RET_OK && got == want_size(t, 1), "dirsize:flat",
      "non-recursive size of {%s} is %llu instead of %llu", t.text.c_str(), (unsigned long long)got, (unsigned long long)want_size(t, 1));
  }
  e.clean("after computing directory sizes");
  MC_CHECK(lowest_fd() == fd0, "dirsize:fd", "a file descriptor was left open");
  c.outcome(t.text);
}
void sizes_faults(mc::Ctx & c, int maxdepth, int kids)
{
  top_kinds = 3;
  sub_kids = mc::cfg().thorough ? 2 : 1;
  Targets tg;
  Dir d;
  Tree t;
  grow(c, t, d.p, 1, maxdepth, kids, false);
  static const size_t limits[] = {0, 1, 2};
  size_t lim = c.pick(limits);
  int fd0 = lowest_fd();
  Env e("dirsize_faults");
  int nopen, nalloc;
  {
    Watch w;
    e.T.plan(0, 0);
    judge_size(e, d.p, t, lim);
    nopen = opens;
    nalloc = e.T.calls;
  }
  int f = c.choose(nopen * 3 + nalloc * 2 + 1);
  uint64_t got = 4242;
  rcutils_ret_t r;
  {
    Watch w;
    order_of = c.choose(2);
    std::string what;
    bool vanished = false;
    if (f < nopen * 3) {
      fault_at = f / 3 + 1;
      fault = f % 3 == 0 ? OPEN_FAILS : f % 3 == 1 ? FIRST_READ_FAILS : VANISHED;
      vanished = fault == VANISHED;
      what = fmt("directory %d %s", fault_at, f % 3 == 0 ? "cannot be opened" : f % 3 == 1 ? "cannot be read" : "was emptied meanwhile");
    } else if (f < nopen * 3 + nalloc * 2) {
      int k = f - nopen * 3;
      e.T.plan(k / 2 + 1, k % 2 ? 1 << 30 : k / 2 + 1);
      what = fmt("allocation %d%s fails", k / 2 + 1, k % 2 ? " and all later ones" : "");
    } else {
      what = "no failure";
    }
    c.note("size of {%s} to depth %zu, %s", t.text.c_str(), lim, what.c_str());
    r = rcutils_calculate_directory_size_with_recursion(ro(d.p), lim, &got, e.A);
    bool hit = fault_hit || e.T.failed;
    e.T.plan(0, 0);
    if (vanished && hit) {
      MC_CHECK(r == RCUTILS_RET_OK && got <= want_size(t, lim), "dirsize_faults:vanished", "{%s}: %s: returned %d", t.text.c_str(), what.c_str(), r);
    } else if (r == RCUTILS_RET_OK) {
      MC_CHECK(
        got == want_size(t, lim), "dirsize_faults:partial", "{%s} to depth %zu: %s: reported %llu bytes as a success, the size is %llu",
        t.text.c_str(), lim, what.c_str(), (unsigned long long)got, (unsigned long long)want_size(t, lim));
      MC_CHECK(!(hit && !e.T.failed && f < nopen * 3), "dirsize_faults:ret", "{%s}: %s: reported success", t.text.c_str(), what.c_str());
    } else {
      MC_CHECK(hit, "dirsize_faults:ret", "{%s}: %s: returned %d", t.text.c_str(), what.c_str(), r);
      MC_CHECK(
        r == RCUTILS_RET_ERROR || r == RCUTILS_RET_BAD_ALLOC, "dirsize_faults:code", "{%s}: %s: returned %d", t.text.c_str(), what.c_str(), r);
    }
    MC_CHECK(dirs.empty(), "dirsize_faults:open", "{%s}: %s: a directory was left open", t.text.c_str(), what.c_str());
  }
  rcutils_reset_error();
  e.clean("after a failed size computation");
  MC_CHECK(lowest_fd() == fd0, "dirsize_faults:fd", "a file descriptor was left open");
  {
    Watch w;
    judge_size(e, d.p, t, lim);
  }
  c.outcome(t.text + fmt("%zu %d", lim, f));
}
// many entries, deep chains with long names, very large files
void sizes_wide(mc::Ctx & c, int max)
{
  int n = c.choose(max + 1), o = c.choose(3);
  Dir d;
  Tree t;
  t.text = fmt("%d files and %d directories", n, n / 3);
  for (int i = 0; i < n; ++i) {make_file(d.p + "/" + entry_name(i), i * 3 + 1); t.at[1] += (uint64_t)i * 3 + 1;}
  for (int i = 0; i < n / 3; ++i) {
    mkdir((d.p + fmt("/dir%d", i)).c_str(), 0755);
    make_file(d.p + fmt("/dir%d/f", i), 100000 + i);
    t.at[2] += 100000 + (uint64_t)i;
  }
  Env e("dirsize");
  {
    Watch w;
    order_of = o;
    for (size_t lim : {0, 1, 2}) {judge_size(e, d.p, t, lim);}
  }
  c.outcome(t.text + fmt("%d", o));
}
void sizes_deep(mc::Ctx & c)
{
  static const int names[] = {1, 50, 200, 255};
  int nl = c.pick(names);
  int room = 4000 - (int)scratch.size();
  int depth = c.choose(std::min(40, room / (nl + 1)));
  Dir d;
  std::string p = d.p;
  std::vector<uint64_t> at(50, 0);
  for (int i = 1; i <= depth + 1; ++i) {
    make_file(p + "/f", (off_t)i * 1000);
    at[(size_t)i] = (uint64_t)i * 1000;
    if (i <= depth) {p += "/" + std::string((size_t)nl, 'n'); if (mkdir(p.c_str(), 0755)) {abort();}}
  }
  Env e("dirsize");
  for (int lim = 0; lim <= depth + 2; ++lim) {
    Tree t;
    t.at = at;
    t.text = fmt("chain of %d directories with names of %d characters", depth, nl);
    judge_size(e, d.p, t, (size_t)lim);
  }
  c.note("size of a chain of %d directories with names of %d characters", depth, nl);
  c.outcome(fmt("%d %d", nl, depth));
}
void sizes_big(mc::Ctx & c)
{
  top_kinds = 4;
  sub_kids = 2;
  Targets tg;
  Dir d;
  Tree t;
  grow(c, t, d.p, 1, 2, 2, true);
  Env e("dirsize");
  judge_size(e, d.p, t, 0);
  c.outcome(t.text);
}
void sizes_args(mc::Ctx & c)
{
  Dir d;
  make_file(d.p + "/f", 5);
  int k = c.choose(6);
  Env e("dirsize");
  uint64_t got = 4242;
  rcutils_ret_t r = 0, w = 0;
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
  switch (k) {
    case 0: r = rcutils_calculate_directory_size_with_recursion(nullptr, 0, &got, e.A); w = RCUTILS_RET_INVALID_ARGUMENT; break;
    case 1: r = rcutils_calculate_directory_size_with_recursion(ro(d.p), 0, nullptr, e.A); w = RCUTILS_RET_INVALID_ARGUMENT; break;
    case 2: r = rcutils_calculate_directory_size_with_recursion(ro(d.p), 0, &got, z); w = RCUTILS_RET_INVALID_ARGUMENT; break;
    case 3: r = rcutils_calculate_directory_size_with_recursion(ro(d.p + "/f"), 0, &got, e.A); w = RCUTILS_RET_ERROR; break;
    case 4: r = rcutils_calculate_directory_size_with_recursion(ro(d.p + "/none"), 0, &got, e.A); w = RCUTILS_RET_ERROR; break;
    default: r = rcutils_calculate_directory_size("", &got, e.A); w = RCUTILS_RET_ERROR; break;
  }
  rcutils_reset_error();
  MC_CHECK(r == w, "dirsize:args", "argument case %d returned %d instead of %d", k, r, w);
  e.clean("after an invalid argument");
  c.outcome(fmt("%d", k));
}

// ------------------------------------------------------------------ large directories, deep and often repeated
const int LARGE[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4096, 4097, 8193};
void large_dirs(mc::Ctx & c, int count)
{
  int what = c.choose(4);
  int n = LARGE[c.choose(count)];
  if (what == 3 && n > (4000 - (int)scratch.size()) / 2) {return;}
  Dir d;
  Env e("large");
  int fd0 = lowest_fd();
  Tree t;
  if (what == 0) {                // many entries
    std::set<std::string> want = {".", ".."};
    for (int i = 0; i < n; ++i) {
      std::string name = i % 50 == 7 ? std::string(240, 'n') + fmt("%d", i) : fmt("entry%d", i);
      make_file(d.p + "/" + name, i % 1000);
      t.at[1] += (uint64_t)(i % 1000);
      want.insert(name);
    }
    t.text = fmt("%d files", n);
    Watch w;
    order_of = 0;
    Iter it(e, d.p);
    MC_CHECK(it.it, "iter:start", "the iteration did not start");
    it.take();
    while (it.more && it.got.size() < want.size() + 10) {it.next();}
    std::set<std::string> got(it.got.begin(), it.got.end());
    MC_CHECK(it.got.size() == want.size() && got == want, "iter:entries", "%zu entries were visited instead of %zu", it.got.size(), want.size());
    rcutils_dir_iter_end(it.it);
    MC_CHECK(dirs.empty(), "iter:open", "a directory was left open after the iteration");
    e.clean("after the iteration");
    judge_size(e, d.p, t, 0);
    judge_size(e, d.p, t, 1);
  } else if (what == 1) {         // many directories
    for (int i = 0; i < n; ++i) {
      std::string s = d.p + fmt("/d%d", i);
      if (mkdir(s.c_str(), 0755)) {abort();}
      make_file(s + "/f", 1000 + i);
      t.at[2] += 1000 + (uint64_t)i;
    }
    make_file(d.p + "/top", 5);
    t.at[1] = 5;
    t.text = fmt("%d directories", n);
    Watch w;
    order_of = 0;
    for (size_t lim : {0, 1, 2, 3}) {judge_size(e, d.p, t, lim);}
  } else if (what == 2) {         // the same calls many times
    make_file(d.p + "/f", 77);
    t.at[1] = 77;
    t.text = "one file";
    Watch w;
    for (int i = 0; i < n; ++i) {
      order_of = 0;
      Iter it(e, d.p);
      MC_CHECK(it.it, "iter:start", "iteration %d did not start", i);
      it.take();
      for (int k = 0; k < i % 4 && it.more; ++k) {it.next();}
      rcutils_dir_iter_end(it.it);
      MC_CHECK(dirs.empty(), "iter:open", "a directory was left open after iteration %d", i);
      judge_size(e, d.p, t, (size_t)i % 3);
      MC_CHECK(rcutils_exists(ro(d.p)) && rcutils_is_directory(ro(d.p)), "predicates:many", "the directory is gone in round %d", i);
    }
  } else {                        // a deep chain
    std::string p = d.p;
    t.at.assign((size_t)n + 3, 0);
    for (int i = 1; i <= n + 1; ++i) {
      make_file(p + "/f", (off_t)i);
      t.at[(size_t)i] = (uint64_t)i;
      if (i <= n) {p += "/n"; if (mkdir(p.c_str(), 0755)) {abort();}}
    }
    t.text = fmt("chain of %d directories", n);
    Watch w;
    order_of = 0;
    for (int lim : {0, 1, 127, 128, 255, 256, n, n + 1, n + 2}) {judge_size(e, d.p, t, (size_t)lim);}
  }
  MC_CHECK(lowest_fd() == fd0, "large:fd", "a file descriptor was left open");
  c.outcome(fmt("%d %d", what, n));
}
#include "files_change.inc"

void setup_part(const std::string & P)
{
  bool th = mc::cfg().thorough && !calm::pass();
  if (P == "C16") {
    calm::dfs("predicates", [=](mc::Ctx & c) {predicates(c, true);}, 16, 3);
    calm::dfs("predicates of odd paths", predicates_odd);
    calm::dfs("mkdir", make_dir, 16, 2);
    calm::dfs("cwd", cwd_sizes, 4, 2);
    calm::dfs("long paths", long_paths, 16, 2);
  } else if (P == "C47") {
    calm::dfs("size, one change", [=](mc::Ctx & c) {change_sizes(c, 1, true);}, 16, 4);
    calm::dfs("size, two changes", [=](mc::Ctx & c) {change_sizes(c, 2, th);}, 32, 6);
    calm::dfs("path", [=](mc::Ctx & c) {change_path(c, th ? 4 : 2);}, 16, 3);
    calm::dfs("iteration", [=](mc::Ctx & c) {change_iterate(c, th ? 3 : 2);}, 16, 5);
  } else if (P == "C17") {
    calm::dfs("iterate", [=](mc::Ctx & c) {iterate(c, th ? 60 : 20, false);}, 8, 2);
    calm::dfs("iterate in every order", [=](mc::Ctx & c) {iterate(c, th ? 5 : 4, true);}, 8, 3);
    calm::dfs("two iterators", two_iterators, 4, 3);
    if (!calm::on()) {calm::dfs("iterate with failures", iterate_faults);}
    calm::dfs("sizes of all trees", [=](mc::Ctx & c) {sizes(c, 3, 3);}, 32, 5);
    if (!calm::on()) {calm::dfs("sizes with failures", [=](mc::Ctx & c) {sizes_faults(c, th ? 3 : 3, 2);}, 32, 5);}
    calm::dfs("sizes of wide directories", [=](mc::Ctx & c) {sizes_wide(c, th ? 200 : 40);}, 8, 1);
    calm::dfs("sizes of deep directories", sizes_deep, 8, 2);
    calm::dfs("sizes of large files", sizes_big, 8, 3);
    if (!calm::on()) {calm::dfs("size arguments", sizes_args);}
    calm::dfs("large", [=](mc::Ctx & c) {large_dirs(c, th ? 16 : 12);}, 16, 2);
  }
}
void setup()
{
  for (auto & p : calm::parts({"C16", "C17"})) {calm::part = p; setup_part(p);}
}
void quiet_handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t,
  const char *, va_list *) {}
void worker_init()
{
  if (rcutils_logging_initialize() != RCUTILS_RET_OK) {abort();}
  rcutils_logging_set_output_handler(quiet_handler);
  umask(0);
  std::string base = mc::cfg().out;
  char * real = realpath(base.c_str(), nullptr);
  base = real ? real : base;
  free(real);
  scratch = base + fmt("/s%d", (int)getpid());
  if (mkdir(scratch.c_str(), 0755) != 0 || chdir(scratch.c_str()) != 0) {
    fprintf(stderr, "no scratch directory %s\n", scratch.c_str());
    abort();
  }
}
}  // namespace
int main(int argc, char ** argv) {return mc::main_(argc, argv, setup, worker_init);}
