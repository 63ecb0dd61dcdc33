// C47: another process changes the tree between any two system calls of a file-system function.
// Each regular file of the world has sizes of its own bit, so a sum tells which files were counted with which size.
struct World
{
  Dir d;
  std::string root;
  // what each path has been since the call began: possible contributions and whether it was a plain file all along
  std::map<std::string, std::set<uint64_t>> sizes;
  std::set<std::string> broken;         // not a regular file at some moment
  bool removal = false;                 // something was removed or replaced
  std::map<std::string, int> depth;     // of the contributing paths
  World()
  : root(d.p + "/root")
  {
    if (mkdir(root.c_str(), 0755) || mkdir((root + "/s").c_str(), 0755)) {abort();}
    file("f", 1, 1);
    file("g", 1 << 4, 1);
    file("s/h", 1 << 8, 2);
    make_file(d.p + "/target", 1 << 12);
    if (mkdir((d.p + "/tdir").c_str(), 0755)) {abort();}
    make_file(d.p + "/tdir/t", 1 << 13);
  }
  void file(const char * n, uint64_t size, int dep)
  {
    make_file(root + "/" + n, (off_t)size);
    sizes[n].insert(size);
    depth[n] = dep;
  }
  // a file that appears during the call
  void later(const char * n, uint64_t size, int dep) {file(n, size, dep); broken.insert(n);}
  void lose(const char * n) {broken.insert(n); removal = true;}
  enum {NACT = 16};
  static const char * name(int a)
  {
    static const char * const n[] = {"remove f", "grow f", "replace f by a directory", "replace f by a link to a file",
      "replace f by a fifo", "remove s", "empty s", "replace s by a file", "replace s by a link to a directory", "grow s/h",
      "add n", "add directory m", "remove everything", "replace f by a dangling link", "replace s by an empty directory",
      "replace g by a link to a directory"};
    return n[a];
  }
  bool is(const char * n, mode_t kind)
  {
    struct stat st;
    return __real_lstat((root + "/" + n).c_str(), &st) == 0 && (st.st_mode & S_IFMT) == kind;
  }
  bool possible(int a)
  {
    switch (a) {
      case 0: case 1: case 2: case 3: case 4: case 13: return is("f", S_IFREG);
      case 5: case 7: case 8: case 14: return is("s", S_IFDIR);
      case 6: case 9: return is("s/h", S_IFREG);
      case 10: return is("s", S_IFDIR) && !is("n", S_IFREG);
      case 11: return is("s", S_IFDIR) && !is("m", S_IFDIR);
      case 15: return is("g", S_IFREG);
    }
    return is("g", S_IFREG);
  }
  void act(int a)
  {
    std::string f = root + "/f", s = root + "/s";
    auto ok = [](int r) {if (r) {abort();}};
    switch (a) {
      case 0: wipe(f); lose("f"); break;
      case 1: ok(truncate(f.c_str(), 2)); sizes["f"].insert(2); break;
      case 2: wipe(f); lose("f"); ok(mkdir(f.c_str(), 0755)); later("f/x", 1 << 16, 2); break;
      case 3: wipe(f); lose("f"); ok(symlink("../target", f.c_str())); sizes["f"].insert(1 << 12); break;
      case 4: wipe(f); lose("f"); ok(mkfifo(f.c_str(), 0644)); break;
      case 5: wipe(s); lose("s/h"); break;
      case 6: wipe(s + "/h"); lose("s/h"); break;
      case 7: wipe(s); lose("s/h"); later("s", 1 << 17, 1); break;
      case 8:
        wipe(s); lose("s/h"); ok(symlink("../tdir", s.c_str()));
        sizes["s/t"].insert(1 << 13); depth["s/t"] = 2; broken.insert("s/t");
        break;
      case 9: ok(truncate((s + "/h").c_str(), 1 << 9)); sizes["s/h"].insert(1 << 9); break;
      case 10: later("n", 1 << 18, 1); break;
      case 11: ok(mkdir((root + "/m").c_str(), 0755)); later("m/y", 1 << 19, 2); break;
      case 12: wipe(root); for (auto & z : sizes) {broken.insert(z.first);} removal = true; break;
      case 13: wipe(f); lose("f"); ok(symlink("nowhere", f.c_str())); break;
      case 14: wipe(s); lose("s/h"); ok(mkdir(s.c_str(), 0755)); break;
      case 15:
        wipe(root + "/g"); lose("g"); ok(symlink("../tdir", (root + "/g").c_str()));
        sizes["g/t"].insert(1 << 13); depth["g/t"] = 2; broken.insert("g/t");
        break;
    }
  }
  // is `got` a sum of sizes the files had during the call?
  bool explains(uint64_t got, size_t limit)
  {
    std::set<uint64_t> sums = {0};
    for (auto & z : sizes) {
      std::set<uint64_t> opts;
      bool deep = limit != 0 && (size_t)depth[z.first] > limit;
      if (!deep) {opts = z.second;}
      if (deep || broken.count(z.first)) {opts.insert(0);}
      std::set<uint64_t> next;
      for (uint64_t a : sums) {for (uint64_t b : opts) {next.insert(a + b);}}
      sums.swap(next);
    }
    return sums.count(got) != 0;
  }
};
// while alive: before each system call up to `budget` changes are made
struct Adversary
{
  mc::Ctx & c;
  World & w;
  int budget;
  std::string what;
  int calls = 0;
  Adversary(mc::Ctx & c_, World & w_, int b)
  : c(c_), w(w_), budget(b)
  {
    disturb = [this](const char * call) {
        ++calls;
        while (budget > 0) {
          std::vector<int> can;
          for (int a = 0; a < World::NACT; ++a) {if (w.possible(a)) {can.push_back(a);}}
          int k = c.choose((int)can.size() + 1);
          if (k == 0) {break;}
          --budget;
          int e = errno;
          disturbing = true;
          w.act(can[(size_t)k - 1]);
          disturbing = false;
          errno = e;
          what += fmt("%s%s before call %d (%s)", what.empty() ? "" : ", ", World::name(can[(size_t)k - 1]), calls, call);
        }
      };
  }
  ~Adversary() {disturb = nullptr;}
};
void change_sizes(mc::Ctx & c, int budget, bool all)
{
  size_t limit = all ? (size_t)c.choose(3) : 0;
  int order = all ? c.choose(2) : 0;
  World w;
  int fd0 = lowest_fd();
  Env e("change");
  uint64_t got = 0;
  rcutils_ret_t r;
  std::string what;
  {
    Watch wa;
    order_of = order;
    Adversary adv(c, w, budget);
    r = rcutils_calculate_directory_size_with_recursion(w.root.c_str(), limit, &got, e.A);
    what = adv.what;
    disturb = nullptr;
    MC_CHECK(dirs.empty(), "change:open", "%s: a directory was left open", what.c_str());
  }
  c.note("size to depth %zu in order %d: %s", limit, order, what.empty() ? "nothing changes" : what.c_str());
  MC_CHECK(
    r == RCUTILS_RET_OK || (w.removal && r == RCUTILS_RET_ERROR), "change:ret", "size to depth %zu, %s: returned %d", limit, what.c_str(), r);
  if (r == RCUTILS_RET_OK) {
    MC_CHECK(
      w.explains(got, limit), "change:size", "size to depth %zu, %s: %llu (0x%llx) is no sum of sizes the files had during the call", limit,
      what.c_str(), (unsigned long long)got, (unsigned long long)got);
  }
  rcutils_reset_error();
  e.clean("after a size computation");
  MC_CHECK(lowest_fd() == fd0, "change:fd", "%s: a file descriptor was left open", what.c_str());
  c.outcome(fmt("%zu %s %d %llu", limit, what.c_str(), r, (unsigned long long)got));
}
// single paths: the answer held at some moment of the call
void change_path(mc::Ctx & c, int budget)
{
  static const char * const paths[] = {"f", "s", "s/h", "n", "m", "f/x", "s/t"};
  int fn = c.choose(6);
  std::string n = paths[c.choose(7)];
  World w;
  struct Seen {bool dir = false, file = false, there = false, nodir = false, nofile = false, gone = false, refuse = false,
    lost = false; std::set<uint64_t> size;} seen;
  std::string p = w.root + "/" + n;
  auto look = [&] {
      struct stat st, up;
      bool ok = __real_stat(p.c_str(), &st) == 0;
      bool dir = ok && S_ISDIR(st.st_mode), file = ok && S_ISREG(st.st_mode);
      // what mkdir would refuse at this moment; a directory that goes away during the call is a documented race
      bool parent = __real_stat(p.substr(0, p.rfind('/')).c_str(), &up) == 0 && S_ISDIR(up.st_mode);
      bool any = ok || __real_lstat(p.c_str(), &up) == 0;
      seen.refuse |= any ? !dir : !parent;
      seen.lost |= seen.dir && !dir;
      seen.dir |= dir;
      seen.nodir |= !dir;
      seen.file |= file;
      seen.nofile |= !file;
      seen.there |= ok;
      seen.gone |= !ok;
      seen.size.insert(file ? (uint64_t)st.st_size : 0);
    };
  look();
  std::string what;
  static const char * const fns[] = {"is_directory", "is_file", "exists", "get_file_size", "mkdir", "is_readable"};
  uint64_t got;
  {
    Adversary adv(c, w, budget);
    auto inner = disturb;
    disturb = [&](const char * call) {
        size_t before = adv.what.size();
        inner(call);
        if (adv.what.size() != before) {disturbing = true; look(); disturbing = false;}
      };
    switch (fn) {
      case 0: got = rcutils_is_directory(p.c_str()); break;
      case 1: got = rcutils_is_file(p.c_str()); break;
      case 2: got = rcutils_exists(p.c_str()); break;
      case 3: got = rcutils_get_file_size(p.c_str()); break;
      case 4: got = rcutils_mkdir(p.c_str()); break;
      default: got = rcutils_is_readable(p.c_str());
    }
    disturb = nullptr;
    what = adv.what;
  }
  if (fn == 4) {look();}                // it may have been made by the call
  c.note("%s of %s: %s", fns[fn], n.c_str(), what.empty() ? "nothing changes" : what.c_str());
  bool ok = true;
  switch (fn) {
    case 0: ok = got ? seen.dir : seen.nodir; break;
    case 1: ok = got ? seen.file : seen.nofile; break;
    case 2: case 5: ok = got ? seen.there : seen.gone; break;
    case 3: ok = seen.size.count(got) != 0; break;
    case 4: ok = got ? seen.dir : seen.refuse || seen.lost; break;
  }
  MC_CHECK(
    ok, fn == 3 ? "change:file-size" : "change:answer", "%s of %s, %s: the answer %llu held at no moment of the call", fns[fn], n.c_str(), what.c_str(),
    (unsigned long long)got);
  rcutils_reset_error();
  c.outcome(fmt("%d %s %s %llu", fn, n.c_str(), what.c_str(), (unsigned long long)got));
}
// iteration: what was there all along is yielded once, nothing twice, and the end is the end
void change_iterate(mc::Ctx & c, int budget)
{
  World w;
  int order = c.choose(2);
  bool again = c.flip();
  int fd0 = lowest_fd();
  Env e("change");
  std::string what;
  std::map<std::string, int> got;
  bool started;
  {
    Watch wa;
    order_of = order;
    Adversary adv(c, w, budget);
    rcutils_dir_iter_t * it = rcutils_dir_iter_start(w.root.c_str(), e.A);
    started = it != nullptr;
    if (it) {
      if (it->entry_name) {
        got[it->entry_name]++;
        while (rcutils_dir_iter_next(it)) {
          MC_CHECK(it->entry_name, "change:iter-name", "%s: no name for an entry", adv.what.c_str());
          got[it->entry_name]++;
          MC_CHECK(got.size() <= 16, "change:iter-endless", "%s: the iteration does not end", adv.what.c_str());
        }
      }
      MC_CHECK(!it->entry_name, "change:iter-end", "%s: the iterator keeps a name after the end", adv.what.c_str());
      if (again) {MC_CHECK(!rcutils_dir_iter_next(it), "change:iter-end", "%s: the iteration goes on after its end", adv.what.c_str());}
      rcutils_dir_iter_end(it);
    }
    what = adv.what;
    disturb = nullptr;
    MC_CHECK(dirs.empty(), "change:open", "%s: a directory was left open", what.c_str());
  }
  c.note("iteration in order %d: %s", order, what.empty() ? "nothing changes" : what.c_str());
  MC_CHECK(started || w.removal, "change:iter-start", "%s: the iteration does not start", what.c_str());
  if (started) {
    for (auto & g : got) {MC_CHECK(g.second == 1, "change:iter-dup", "%s: %s is yielded %d times", what.c_str(), g.first.c_str(), g.second);}
    for (const char * n : {"f", "g", "s"}) {
      bool all = !w.removal || w.is(n, *n == 's' ? S_IFDIR : S_IFREG);
      MC_CHECK(!all || got.count(n), "change:iter-miss", "%s: %s was there all along and is not yielded", what.c_str(), n);
    }
    for (auto & g : got) {
      bool known = false;
      for (const char * n : {".", "..", "f", "g", "s", "n", "m"}) {known |= g.first == n;}
      MC_CHECK(known, "change:iter-odd", "%s: %s is yielded, which never existed", what.c_str(), g.first.c_str());
    }
  }
  rcutils_reset_error();
  e.clean("after an iteration");
  MC_CHECK(lowest_fd() == fd0, "change:fd", "%s: a file descriptor was left open", what.c_str());
  c.outcome(fmt("%d %s %zu", order, what.c_str(), got.size()));
}
