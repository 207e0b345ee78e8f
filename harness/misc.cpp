// Filesystem helpers, configuration equality, identifiers, topic patterns.
#include "seq.h"
#include <lamppost/Filesystem.h>
#include <lamppost/LampPostConfiguration.h>
#include <lamppost/Identifiable.h>
#include <lamppost/Version.h>
#include <lamppost/settings/SettingsManager.h>
#include <lamppost/utilities/AntMatcher.h>
#include <lamppost/utilities/Uuid.h>
#include <random>
#include <dirent.h>

using namespace seq;

// The entropy source is owned by the harness.
static unsigned ENTROPY, DRAWN, VARY = ~0u, VALUE;   // the word drawn at position VARY is VALUE
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
unsigned std::random_device::_M_getval() { unsigned k = DRAWN++, e = ENTROPY++; return k == VARY ? VALUE : e; }

namespace
{
  using lp::Filesystem;
  using lp::FilesystemObjectType;

  int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }

  std::string fresh_dir()
  {
    static int n = 0;
    std::string d = std::string(getenv("LP_SCRATCH") ? getenv("LP_SCRATCH") : "/tmp") + "/fs-" + std::to_string(getpid()) + "-" + std::to_string(n++);
    mkdir(d.c_str(), 0700);
    return d;
  }
  struct Entry { const char* name; int kind; };   // 0 file, 1 directory, 2 link to file, 3 link to directory, 4 dangling link, 5 fifo
  const Entry EN[] = {{"file.txt", 0}, {"dir", 1}, {"tofile", 2}, {"todir.so", 3}, {"dangling", 4}, {".hidden", 0}, {".hdir", 1}, {"fifo", 5}, {"with space", 0}};
  const int NE = sizeof EN / sizeof *EN;
  struct Dir
  {
    std::string path; std::vector<std::string> made;
    void make(const Entry& e)
    {
      std::string p = path + "/" + e.name; made.push_back(p);
      switch(e.kind)
      {
        case 0: { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600); if(write(fd, "x", 1)) {} close(fd); break; }
        case 1: mkdir(p.c_str(), 0700); break;
        case 2: if(symlink("/etc/passwd", p.c_str())) {} break;
        case 3: if(symlink("/etc", p.c_str())) {} break;
        case 4: if(symlink("/nonexistent/x", p.c_str())) {} break;
        case 5: mkfifo(p.c_str(), 0600); break;
      }
    }
    Dir() : path(fresh_dir()) {}
    ~Dir() { for(auto& m : made) if(unlink(m.c_str())) rmdir(m.c_str()); rmdir(path.c_str()); }
  };
  void fs_listing()
  {
    int set = choose(1 << NE);
    Dir d;
    for(int i = 0; i < NE; i++) if(set >> i & 1) d.make(EN[i]);
    int filter = choose(3) + 1;
    bool slash = choose(2);
    step();
    int before = open_fds();
    std::list<std::string> got = Filesystem::GetDirectoryContents(slash ? d.path + "/" : d.path, (FilesystemObjectType)filter);
    SEQ_CHECK(open_fds() == before, "filesystem", "listing a directory leaves it open");
    got.remove("."); got.remove("..");
    std::multiset<std::string> have(got.begin(), got.end()), want;
    for(int i = 0; i < NE; i++)
      if(set >> i & 1)
      {
        bool file = EN[i].kind == 0 || EN[i].kind == 2, dir = EN[i].kind == 1 || EN[i].kind == 3;
        if((file && (filter & 1)) || (dir && (filter & 2))) want.insert(EN[i].name);
      }
    std::string g; for(auto& x : have) g += x + " ";
    std::string w; for(auto& x : want) w += x + " ";
    SEQ_CHECK(have == want, "filesystem", "listing with filter %d gives [%s] instead of [%s]", filter, g.c_str(), w.c_str());
    state((u64)set * 8 + filter);
  }
  void fs_kinds()
  {
    Dir d;
    const Entry& e = EN[choose(NE)];
    bool exists = choose(2);
    if(exists) d.make(e);
    std::string p = d.path + "/" + e.name;
    step();
    bool file = exists && (e.kind == 0 || e.kind == 2), dir = exists && (e.kind == 1 || e.kind == 3), there = exists && e.kind != 4;
    SEQ_CHECK(Filesystem::IsFile(p) == file, "filesystem", "IsFile(%s) is wrong", e.name);
    SEQ_CHECK(Filesystem::IsDirectory(p) == dir, "filesystem", "IsDirectory(%s) is wrong", e.name);
    SEQ_CHECK(Filesystem::PathExists(p) == there, "filesystem", "PathExists(%s) is wrong", e.name);
    if(!dir) for(int f = 1; f <= 3; f++) SEQ_CHECK(Filesystem::GetDirectoryContents(p, (FilesystemObjectType)f).empty(), "filesystem", "something that is no directory has contents");
    SEQ_CHECK(!Filesystem::IsFile("") && !Filesystem::IsDirectory("") && !Filesystem::PathExists(""), "filesystem", "an empty path exists");
    int before = open_fds();
    std::string cwd0 = Filesystem::GetWorkingDirectory();
    if(chdir(d.path.c_str())) {}
    char real[4096]; if(!realpath(d.path.c_str(), real)) real[0] = 0;
    std::string cwd = Filesystem::GetWorkingDirectory();
    if(chdir(cwd0.c_str())) {}
    SEQ_CHECK(cwd == real, "filesystem", "the working directory is %s instead of %s", cwd.c_str(), real);
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
    SEQ_CHECK(Filesystem::GetPathOfRunningExecutable() == exe, "filesystem", "the running executable is %s", Filesystem::GetPathOfRunningExecutable().c_str());
    SEQ_CHECK(open_fds() == before, "filesystem", "files are left open");
  }
  // directories with many entries, long names
  void fs_many()
  {
    static const int SIZES[] = {0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 3000, 5000};
    int n = SIZES[choose(sizeof SIZES / sizeof *SIZES)], len = std::vector<int>{8, 100, 255}[choose(3)], dirs = choose(3);
    mine();
    if(len == 255 && n > 1100) n = 1100;
    Dir d;
    std::vector<std::string> names;
    for(int i = 0; i < n; i++) { std::string x = std::to_string(i); x = std::string("n") + std::string(len - 1 - x.size(), '_') + x; names.push_back(x); }
    auto is_dir = [&](int i) { return dirs == 1 || (dirs == 2 && i % 3 == 0); };
    for(int i = 0; i < n; i++) { Entry e{names[i].c_str(), is_dir(i) ? 1 : 0}; d.make(e); }
    int before = open_fds();
    for(int filter = 1; filter <= 3; filter++)
    {
      step();
      std::list<std::string> got = Filesystem::GetDirectoryContents(d.path, (FilesystemObjectType)filter);
      got.remove("."); got.remove("..");
      std::multiset<std::string> have(got.begin(), got.end()), want;
      for(int i = 0; i < n; i++) if(filter & (is_dir(i) ? 2 : 1)) want.insert(names[i]);
      SEQ_CHECK(have == want, "filesystem", "listing %d entries with names of %d characters with filter %d gives %zu entries instead of %zu", n, len, filter, have.size(), want.size());
    }
    SEQ_CHECK(open_fds() == before, "filesystem", "listing a directory leaves it open");
    state((u64)n * 1000 + len * 3 + dirs);
  }
  // long paths: the working directory, the running executable, files
  std::string SELF;
  void fs_long()
  {
    static const int SIZES[] = {100, 200, 254, 255, 256, 257, 259, 260, 261, 300, 500, 510, 511, 512, 513, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1500, 2000, 2046, 2047, 2048, 2049, 3000, 4000, 4060};
    int n = SIZES[choose(sizeof SIZES / sizeof *SIZES)], what = choose(3);
    mine();
    step();
    std::string top = fresh_dir(), p = top;
    char real[4200]; if(realpath(top.c_str(), real)) p = top = real;
    std::vector<std::string> made{p};
    // the path has exactly n characters
    while((int)p.size() < n)
    {
      int left = n - (int)p.size() - 1;            // characters besides the slash
      if(left <= 0) break;
      int k = left <= 200 ? left : left - 200 < 2 ? 150 : 200;
      p += "/" + std::string(k, 'd');
      if(mkdir(p.c_str(), 0700)) break;
      made.push_back(p);
    }
    std::string cwd0 = Filesystem::GetWorkingDirectory();
    struct Clean { std::vector<std::string>& m; std::string cwd, file; ~Clean() { if(chdir(cwd.c_str())) {} if(!file.empty()) unlink(file.c_str()); for(size_t i = m.size(); i-- > 0;) rmdir(m[i].c_str()); } } clean{made, cwd0, ""};
    if((int)p.size() != n && n > 200) fail("harness", "the directory has %zu characters instead of %d", p.size(), n);
    if(what == 0)
    {
      if(chdir(p.c_str())) fail("harness", "chdir");
      std::string cwd = Filesystem::GetWorkingDirectory();
      if(chdir(cwd0.c_str())) {}
      SEQ_CHECK(cwd == p, "filesystem", "the working directory has %zu characters but is reported with %zu", p.size(), cwd.size());
    }
    else if(what == 1)
    {
      std::string f = p + "/f";
      SEQ_CHECK(!Filesystem::PathExists(f) && !Filesystem::IsFile(f) && Filesystem::IsDirectory(p) && !Filesystem::IsFile(p) && Filesystem::PathExists(p), "filesystem", "the kind of a path of %zu characters", f.size());
      clean.file = f;
      int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0600); close(fd);
      SEQ_CHECK(Filesystem::PathExists(f) && Filesystem::IsFile(f) && !Filesystem::IsDirectory(f), "filesystem", "the kind of a path of %zu characters", f.size());
      std::list<std::string> l = Filesystem::GetDirectoryContents(p, FilesystemObjectType::File);
      SEQ_CHECK(l == std::list<std::string>{"f"}, "filesystem", "the contents of a directory with a path of %zu characters", p.size());
      SEQ_CHECK(Filesystem::GetFilename(f) == "f" && Filesystem::GetBaseDirectory(f) == p && Filesystem::CombinePaths(p, "f") == f && Filesystem::GetFileExtension(f + ".x") == "x", "paths", "the parts of a path of %zu characters", f.size());
    }
    else
    {
      std::string f = p + "/x";
      clean.file = f;
      if(link("/proc/self/exe", f.c_str()) && linkat(AT_FDCWD, "/proc/self/exe", AT_FDCWD, f.c_str(), AT_SYMLINK_FOLLOW))
      {
        char exe[4200]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k > 0 ? k : 0] = 0;
        int in = open(exe, O_RDONLY), out = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0700);
        static char buf[1 << 20]; ssize_t r; while((r = read(in, buf, sizeof buf)) > 0) if(write(out, buf, r) != r) fail("harness", "copying the executable");
        close(in); close(out);
      }
      int fds[2]; if(pipe(fds)) fail("harness", "pipe");
      pid_t pid = fork();
      if(pid == 0) { dup2(fds[1], 1); close(fds[0]); close(fds[1]); execl(f.c_str(), f.c_str(), "--print-executable", (char*)nullptr); _exit(99); }
      close(fds[1]);
      std::string got; char b[512]; ssize_t r; while((r = read(fds[0], b, sizeof b)) > 0) got.append(b, r);
      close(fds[0]);
      int st = 0; waitpid(pid, &st, 0);
      if(WIFEXITED(st) && WEXITSTATUS(st) == 99) fail("harness", "the copy of the executable could not be started");
      SEQ_CHECK(got == f, "filesystem", "the executable has a path of %zu characters but is reported with %zu (status %d)", f.size(), got.size(), st);
    }
    state((u64)n * 4 + what);
  }
  void fs_paths()
  {
    static const char A[] = "a./";
    auto str = [](int max) { std::string s; int n = choose(max + 1); for(int i = 0; i < n; i++) s += A[choose(3)]; return s; };
    std::string p = str(depth());
    step();
    size_t s = p.rfind('/');
    std::string file = s == std::string::npos ? "" : p.substr(s + 1), base = s == std::string::npos ? "" : p.substr(0, s);
    size_t dot = file.rfind('.');
    std::string ext = dot == std::string::npos ? "" : file.substr(dot + 1);
    SEQ_CHECK(Filesystem::GetFilename(p) == file, "paths", "GetFilename(%s) is \"%s\"", p.c_str(), Filesystem::GetFilename(p).c_str());
    SEQ_CHECK(Filesystem::GetBaseDirectory(p) == base, "paths", "GetBaseDirectory(%s) is \"%s\"", p.c_str(), Filesystem::GetBaseDirectory(p).c_str());
    SEQ_CHECK(Filesystem::GetFileExtension(p) == ext, "paths", "GetFileExtension(%s) is \"%s\"", p.c_str(), Filesystem::GetFileExtension(p).c_str());
    for(const char* r : {"", "x", "x.y", ".y"})
    {
      std::string c = Filesystem::CombinePaths(p, r);
      SEQ_CHECK(Filesystem::GetFilename(c) == r && Filesystem::GetBaseDirectory(c) == p, "paths", "combining %s and %s gives %s", p.c_str(), r, c.c_str());
    }
    state(p);
  }

  // ------------------------------------------------------------------ configurations
  std::list<std::string> choose_list() { static const char* V[] = {"a", "b"}; std::list<std::string> l; int n = choose(3); for(int i = 0; i < n; i++) l.push_back(V[choose(2)]); return l; }
  void config_equality()
  {
    static std::shared_ptr<lp::bus::Bus> b1 = std::make_shared<lp::bus::Bus>("x"), b2 = std::make_shared<lp::bus::Bus>("x");
    auto bus = [](int i) { return i == 0 ? std::shared_ptr<lp::bus::Bus>() : i == 1 ? b1 : b2; };
    auto pa = choose_list(), pb = choose_list();
    int ba = choose(3), bb = choose(3);
    step();
    lp::PluginManagerConfiguration A(pa, bus(ba)), B(pb, bus(bb));
    bool same = pa == pb && ba == bb;
    SEQ_CHECK((A == B) == same && (B == A) == same && (A != B) == !same && (B != A) == !same, "configuration", "comparing plugin manager configurations with %zu and %zu paths", pa.size(), pb.size());
    static const std::vector<std::list<std::string>> files = {{}, {"f"}, {"g"}, {"f", "g"}};
    auto fa = files[choose(4)], fb = files[choose(4)];
    lp::LampPostConfiguration C(A, fa), D(B, fb);
    bool same2 = same && fa == fb;
    SEQ_CHECK((C == D) == same2 && (D == C) == same2 && (C != D) == !same2, "configuration", "comparing configurations: files %zu/%zu, paths %zu/%zu", fa.size(), fb.size(), pa.size(), pb.size());
    SEQ_CHECK(C == C && !(C != C) && A == A, "configuration", "a configuration differs from itself");
    lp::LampPostConfiguration E(C);
    SEQ_CHECK(E == C && E.mConfigurationFiles == fa && E.mPluginManagerConfiguration.mTemplateSearchPaths == pa && E.mPluginManagerConfiguration.mBus == bus(ba), "configuration", "a copy differs");
    lp::LampPostConfiguration F; F = D;
    SEQ_CHECK((F == C) == same2, "configuration", "an assigned configuration differs");
    lp::LampPostConfiguration Z;
    SEQ_CHECK((Z == C) == (pa.empty() && fa.empty() && ba == 0), "configuration", "comparing with the default configuration");
  }
  void settings()
  {
    lp::settings::SettingsManager s; std::list<std::string> want;
    for(int i = 0; i < 4; i++) { const char* V[] = {"a", "b", "", "/x/y"}; int k = choose(5); if(k == 4) break; s.AddPluginTemplateSearchPath(V[k]); want.push_back(V[k]); step(); SEQ_CHECK(s.GetPluginTemplateSearchPaths() == want, "configuration", "the search paths are lost or reordered"); }
    lp::Identifiable id("name"); SEQ_CHECK(id.GetIdentifier() == "name", "configuration", "identifier");
  }

  // ------------------------------------------------------------------ topics
  void topics()
  {
    static const char A[] = "a/*";
    auto str = [](int max) { std::string s; int n = choose(max + 1); for(int i = 0; i < n; i++) s += A[choose(3)]; return s; };
    int special = choose(3);
    std::string pat = special == 0 ? str(depth()) : special == 1 ? "/**/*" : "/request", exp = special == 2 ? std::string("/re") + str(3) : str(depth());
    step();
    bool want = pat == exp || pat == "/**/*";
    SEQ_CHECK(lp::utilities::AntMatcher::Matches(pat, exp) == want, "topic", "the pattern \"%s\" %s the topic \"%s\"", pat.c_str(), want ? "does not match" : "matches", exp.c_str());
    state(pat + " " + exp);
  }

  const int LENGTHS[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 70001};
  const int NLENGTHS = sizeof LENGTHS / sizeof *LENGTHS;
  // two long topics match if and only if they are the same, wherever they differ
  void topics_long()
  {
    int n = LENGTHS[choose(NLENGTHS)], how = choose(8), fillv = choose(3);
    step();
    std::string a(n, 'x');
    for(int i = 0; i < n; i++) a[i] = fillv == 0 ? 'x' : fillv == 1 ? "/ab"[i % 3] : "*a/.\\?"[i % 6];
    std::string b = a;
    switch(how)
    {
      case 1: b += "x"; break;
      case 2: b.pop_back(); break;
      case 3: b[0] ^= 1; break;
      case 4: b[n / 2] ^= 1; break;
      case 5: b[n - 1] ^= 1; break;
      case 6: b[n - 1] = 0; break;
      case 7: b += std::string(1, '\0'); break;
    }
    bool want = a == b;
    SEQ_CHECK(lp::utilities::AntMatcher::Matches(a, b) == want && lp::utilities::AntMatcher::Matches(b, a) == want, "topic", "topics of %zu and %zu characters (variant %d) %s", a.size(), b.size(), how, want ? "do not match" : "match");
    SEQ_CHECK(lp::utilities::AntMatcher::Matches("/**/*", a) && lp::utilities::AntMatcher::Matches("/**/*", b), "topic", "a topic of %zu characters is not matched by /**/*", a.size());
    state((u64)n * 32 + how * 4 + fillv);
  }
  // configurations with long lists differ wherever one entry differs; nothing of a list gets lost
  void config_sizes()
  {
    int n = LENGTHS[choose(NLENGTHS)], how = choose(7), where = choose(2);
    if(n > 5000) return;
    mine();
    step();
    std::list<std::string> a, b;
    for(int i = 0; i < n; i++) a.push_back("p" + std::to_string(i));
    b = a;
    switch(how)
    {
      case 1: b.push_back("q"); break;
      case 2: b.pop_back(); break;
      case 3: b.front() += "x"; break;
      case 4: b.back() += "x"; break;
      case 5: std::swap(b.front(), b.back()); break;
      case 6: { auto i = b.begin(); std::advance(i, n / 2); *i = ""; break; }
    }
    bool want = a == b;
    lp::LampPostConfiguration A, B;
    (where ? A.mConfigurationFiles : A.mPluginManagerConfiguration.mTemplateSearchPaths) = a;
    (where ? B.mConfigurationFiles : B.mPluginManagerConfiguration.mTemplateSearchPaths) = b;
    SEQ_CHECK((A == B) == want && (B == A) == want && (A != B) == !want, "configuration", "comparing lists of %zu and %zu entries (variant %d)", a.size(), b.size(), how);
    lp::LampPostConfiguration C(A);
    SEQ_CHECK((C == B) == want && (where ? C.mConfigurationFiles : C.mPluginManagerConfiguration.mTemplateSearchPaths) == a, "configuration", "a copy of a configuration with %zu entries differs", a.size());
    lp::settings::SettingsManager s;
    for(auto& x : a) s.AddPluginTemplateSearchPath(x);
    SEQ_CHECK(s.GetPluginTemplateSearchPaths() == a, "configuration", "of %zu search paths some are lost", a.size());
    std::string big(n, 'q');
    lp::Identifiable id(big); SEQ_CHECK(id.GetIdentifier() == big, "configuration", "an identifier of %zu characters", big.size());
    state((u64)n * 16 + how * 2 + where);
  }

  // ------------------------------------------------------------------ identifiers
  void uuids()
  {
    // blocks of consecutive entropy values; the union over all cases is checked within each block and against block 0
    int block = choose(depth());
    std::unordered_set<std::string> seen;
    const int N = 20000;
    for(unsigned i = 0; i < N; i++) { ENTROPY = i; seen.insert((std::string)lp::utilities::Uuid::CreateUuid()); }
    SEQ_CHECK(seen.size() == N, "identifier", "%zu identifiers from %d different entropy values", seen.size(), N);
    unsigned base = block == 0 ? 20000u : block * 0x01000001u;
    for(unsigned i = 0; i < N; i++)
    {
      ENTROPY = base + i;
      lp::utilities::Uuid u = lp::utilities::Uuid::CreateUuid();
      std::string s = u;
      step();
      int parts = 1; for(char c : s) if(c == '-') parts++;
      SEQ_CHECK(parts == 5 && s.find_first_not_of("0123456789abcdef-") == std::string::npos && s.size() >= 15, "identifier", "the identifier \"%s\" has an unusual form", s.c_str());
      SEQ_CHECK(seen.insert(s).second, "identifier", "the identifier %s was given out twice", s.c_str());
      lp::utilities::Uuid copy = u, empty;
      SEQ_CHECK(copy == u && !(u == empty) && !(empty == u) && empty == lp::utilities::Uuid(), "identifier", "comparing identifiers");
      std::ostringstream o; o << u; SEQ_CHECK(o.str() == s, "identifier", "an identifier is printed differently");
    }
    state((u64)block + 1);
  }

  // identifiers carry enough of the entropy source: at least 64 bits of what is drawn makes a difference
  void uuid_bits()
  {
    int block = choose(depth());
    auto make = [&](unsigned vary, unsigned value) { ENTROPY = 77; DRAWN = 0; VARY = vary; VALUE = value; std::string s = lp::utilities::Uuid::CreateUuid(); step(); return s; };
    make(~0u, 0);
    unsigned drawn = DRAWN, good = 0;
    for(unsigned k = 0; k < drawn && k < 16; k++)
    {
      std::unordered_set<std::string> seen;
      const unsigned N = 3000;
      for(unsigned i = 0; i < N; i++) seen.insert(make(k, block % 2 ? i << (block / 2 % 20) : i + 0x9e3779b9u * (block / 2)));
      if(seen.size() == N) good++;
    }
    VARY = ~0u;
    SEQ_CHECK(good >= 2, "identifier", "identifiers depend on %u of %u random words only: a few ten thousand identifiers collide", good, drawn);
    state((u64)block + 1);
  }

  const Scenario SC[] = {
    {"fs_listing", fs_listing, 1, 1, "all subsets of 9 kinds of entries, 3 filters"},
    {"fs_kinds", fs_kinds, 1, 1, "9 kinds of entries, present or not"},
    {"fs_many", fs_many, 1, 1, "27 numbers of entries up to 5000 x names of 8, 100, 255 characters x files/directories"},
    {"fs_long", fs_long, 1, 1, "32 lengths of paths up to 4060 characters as working directory, executable, file"},
    {"fs_paths", fs_paths, 7, 9, "all paths over a . / up to the bound"},
    {"config_equality", config_equality, 1, 1, "all pairs of configurations with up to 2 paths, 3 buses, 4 sets of files"},
    {"settings", settings, 1, 1, "all sequences of up to 4 added search paths"},
    {"topics", topics, 5, 6, "all pairs of patterns and topics over a / * up to the bound"},
    {"topics_long", topics_long, 1, 1, "40 lengths up to 70001 x 8 ways to differ x 3 fillings"},
    {"config_sizes", config_sizes, 1, 1, "lists of up to 4097 entries x 7 ways to differ"},
    {"uuid_bits", uuid_bits, 8, 64, "blocks of 3000 values for each of the random words drawn"},
    {"uuids", uuids, 8, 64, "blocks of 20000 entropy values"},
  };
}
int main(int argc, char** argv)
{
  if(argc > 1 && !strcmp(argv[1], "--print-executable")) { std::string p = lp::Filesystem::GetPathOfRunningExecutable(); fwrite(p.data(), 1, p.size(), stdout); return 0; }
  return seq::main(argc, argv, SC, sizeof SC / sizeof *SC); }
