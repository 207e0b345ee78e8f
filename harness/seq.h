// Exhaustive enumeration of a finite decision tree over sequential code.
//
// A scenario body calls choose(n) wherever a value, an operation or a fault has to be picked.  The
// driver runs the body once for every sequence of answers (depth-first, nothing sampled), split over
// forked workers.  Assertions compare the real code with a reference model kept by the body; the code
// is built with AddressSanitizer and UndefinedBehaviorSanitizer, so memory errors end a case as well.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
extern "C" void __asan_handle_no_return();
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

namespace seq
{
  typedef uint64_t u64;
  struct Scenario { const char* name; void (*body)(); int quick, thorough; const char* what; };

  struct Skip {};
  struct Fail { std::string key, msg; };

  const int MAXD = 4000;
  const int W = 8;
  const u64 SETSIZE = 1u << 23;
  struct Slot
  {
    int n;
    int width[MAXD], val[MAXD];
    u64 cases, steps; int maxd;
    int running;          // a case is being executed
    int done, capped;
    int failed; char key[300]; char msg[3000];
    int nknown; char known[16][300]; char knownmsg[16][600];
    int nout; char out[64][80]; u64 outn[64];
    double t_case, c_case;
  };
  struct Shared { Slot s[W]; volatile int stop; u64 nset; u64 set[SETSIZE]; };
  static Shared* SH;
  static Slot* ME;
  static int WID, NW = W, POS, DEPTH, SPLIT = 3;
  static bool REPLAY, ASSIGNED;
  static std::vector<std::string> KNOWN;
  static std::vector<std::string> OUTC;
  static std::unordered_set<u64> LOCALSET;

  inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
  inline double cpu_of(pid_t p) { clockid_t c; timespec t; if(clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0; return t.tv_sec + t.tv_nsec / 1e9; }
  inline u64 mix(u64 h) { h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h; }

  // bound of the running scenario for the tier
  inline int depth() { return DEPTH; }

  inline int choose(int n)
  {
    if(n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
    if(POS >= MAXD) { fprintf(stderr, "choice depth\n"); abort(); }
    if(POS == ME->n)
    {
      if(REPLAY) { fprintf(stderr, "replay: recorded choices exhausted\n"); }
      ME->width[POS] = n; ME->val[POS] = 0; ME->n++;
    }
    else if(ME->width[POS] != n)
    {
      if(!REPLAY) { fprintf(stderr, "harness is not deterministic: width %d, was %d at %d\n", n, ME->width[POS], POS); _exit(77); }
      if(ME->val[POS] >= n) ME->val[POS] = n - 1;
    }
    int v = ME->val[POS++];
    if(POS == SPLIT && !ASSIGNED && !REPLAY)
    {
      u64 h = 17;
      for(int i = 0; i < SPLIT; i++) h = mix(h * 31 + (u64)ME->val[i] + 1);
      if((int)(h % (u64)NW) != WID) throw Skip();
      ASSIGNED = true;
    }
    return v;
  }
  template<class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }

  inline std::string vfmt(const char* fmt, va_list ap) { char b[2500]; vsnprintf(b, sizeof b, fmt, ap); return b; }
  [[noreturn]] inline void fail(const char* key, const char* fmt, ...)
  {
    va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
    throw Fail{key, m};
  }
#define SEQ_CHECK(cond, key, ...) do { if(!(cond)) ::seq::fail((key), __VA_ARGS__); } while(0)

  // All choices that split the work have been made: from here on, one worker goes on.
  inline void mine()
  {
    if(ASSIGNED || REPLAY) return;
    u64 h = 17;
    for(int i = 0; i < POS; i++) h = mix(h * 31 + (u64)ME->val[i] + 1);
    if((int)(h % (u64)NW) != WID) throw Skip();
    ASSIGNED = true;
  }
  // one operation of the code under test
  // Exceptions leave frames behind in the address sanitizer's fake stack; once it is full, every call searches all of it.
  inline void step() { if((++ME->steps & 63) == 0) __asan_handle_no_return(); }
  // the reference model reached this state
  inline void state(u64 h)
  {
    h = mix(h ^ 0x51ed270b); if(!h) h = 1;
    if(!LOCALSET.insert(h).second) return;
    u64 i = h & (SETSIZE - 1);
    for(int k = 0; k < 64; k++, i = (i + 1) & (SETSIZE - 1))
    {
      u64 o = __sync_val_compare_and_swap(&SH->set[i], 0, h);
      if(o == 0) { __sync_fetch_and_add(&SH->nset, 1); return; }
      if(o == h) return;
    }
  }
  inline void state(const std::string& s) { u64 h = 1469598103934665603ull; for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; } state(h); }
  inline void outcome(const std::string& s) { OUTC.push_back(s.substr(0, 79)); }

  inline bool advance()
  {
    while(ME->n > 0)
    {
      if(ME->val[ME->n - 1] + 1 < ME->width[ME->n - 1]) { ME->val[ME->n - 1]++; return true; }
      ME->n--;
    }
    return false;
  }

  inline std::string show(const std::string& s)
  {
    std::string r;
    char b[8];
    for(unsigned char c : s.substr(0, 200)) { if(c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c; }
    if(s.size() > 200) r += "...(" + std::to_string(s.size()) + ")";
    return r;
  }

  // returns the number of bytes one more execution of f leaves allocated (0: none)
  template<class F> long leaked(F f)
  {
    f(); f();
    long best = -1;
    for(int i = 0; i < 3; i++)
    {
      size_t a = __sanitizer_get_current_allocated_bytes();
      f();
      size_t b = __sanitizer_get_current_allocated_bytes();
      long d = (long)b - (long)a;
      if(best < 0 || d < best) best = d;
      if(best <= 0) return 0;
    }
    return best;
  }

  inline void one_case(const Scenario& sc)
  {
    POS = 0; ASSIGNED = false; OUTC.clear();
    ME->running = 1;
    ME->t_case = now(); ME->c_case = cpu_of(getpid());
    bool counted = true;
    try
    {
      sc.body();
    }
    catch(Skip&) { counted = false; }
    catch(Fail& f)
    {
      bool known = false;
      std::string full = std::string(sc.name) + ": " + f.key;
      for(auto& k : KNOWN) if(k == f.key || k == full) known = true;
      if(known)
      {
        bool have = false;
        for(int i = 0; i < ME->nknown; i++) if(f.key == ME->known[i]) have = true;
        if(!have && ME->nknown < 16) { snprintf(ME->known[ME->nknown], 300, "%s", f.key.c_str()); snprintf(ME->knownmsg[ME->nknown], 600, "%s", f.msg.c_str()); ME->nknown++; }
      }
      else
      {
        snprintf(ME->key, sizeof ME->key, "%s", f.key.c_str());
        snprintf(ME->msg, sizeof ME->msg, "%s", f.msg.c_str());
        ME->failed = 1;
      }
    }
    catch(std::exception& e)
    {
      snprintf(ME->key, sizeof ME->key, "unexpected-exception");
      snprintf(ME->msg, sizeof ME->msg, "the code threw an exception the property does not allow: %s", e.what());
      ME->failed = 1;
    }
    ME->running = 0;
    if(counted && !ASSIGNED && !REPLAY)
    {
      u64 h = 23; for(int i = 0; i < POS; i++) h = mix(h * 31 + (u64)ME->val[i] + 1);
      if((int)(h % (u64)NW) != WID) counted = false;
    }
    if(counted)
    {
      ME->cases++;
      if(POS > ME->maxd) ME->maxd = POS;
      for(auto& o : OUTC)
      {
        int i = 0;
        for(; i < ME->nout; i++) if(o == ME->out[i]) { ME->outn[i]++; break; }
        if(i == ME->nout && i < 64) { snprintf(ME->out[i], 80, "%s", o.c_str()); ME->outn[i] = 1; ME->nout++; }
      }
    }
    if(ME->n > POS) ME->n = POS;
  }

  inline std::string jesc(const std::string& s)
  {
    std::string r; char b[8];
    for(unsigned char c : s)
    {
      if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if(c == '\n') r += "\\n";
      else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += (char)c;
    }
    return r;
  }
  inline std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "r"); if(!f) return s; char b[4096]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0 && s.size() < 200000) s.append(b, k); fclose(f); return s; }

  // the interesting lines of a sanitizer report
  inline std::string summary(const std::string& log, std::string& key)
  {
    std::istringstream in(log);
    std::string line, out, kind;
    int frames = 0;
    while(std::getline(in, line))
    {
      if(line.find("ERROR: AddressSanitizer") != std::string::npos)
      {
        size_t p = line.find("AddressSanitizer: ") + 18; kind = line.substr(p, line.find_first_of(" (", p) - p); out += line.substr(p, 200) + "; ";
      }
      else if(line.find("runtime error:") != std::string::npos) { kind = "undefined-behaviour"; size_t p = line.find_last_of('/'); out += line.substr(p == std::string::npos ? 0 : p + 1) + "; "; }
      else if(line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos) out += line + "; ";
      else if(line.find("    #") == 0 && frames < 6 && (line.find("/repo/") != std::string::npos || line.find("lp::") != std::string::npos))
      {
        size_t p = line.find(" in "); if(p != std::string::npos) { out += line.substr(p + 4, 150) + "; "; frames++; }
      }
      if(out.size() > 1800) break;
    }
    key = kind.empty() ? "crash" : kind;
    return out.empty() ? log.substr(0, 600) : out;
  }

  inline int run_scenario(const Scenario& sc, bool thorough, double cap, std::string& json)
  {
    DEPTH = thorough ? sc.thorough : sc.quick;
    size_t bytes = sizeof(Shared);
    SH = (Shared*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = now();
    const char* scratch = getenv("LP_SCRATCH");
    std::string base = std::string(scratch ? scratch : "/tmp") + "/seq-" + std::to_string(getpid()) + "-" + sc.name;
    std::vector<pid_t> pid(W, 0);
    fflush(stdout);
    for(int w = 0; w < W; w++)
    {
      pid_t p = fork();
      if(p == 0)
      {
        WID = w; ME = &SH->s[w];
        int fd = open((base + "-" + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2); dup2(fd, 1);
        for(;;)
        {
          one_case(sc);
          if(ME->failed) { SH->stop = 1; break; }
          if(SH->stop) break;
          if(now() - t0 > cap) { ME->capped = 1; break; }
          if(!advance()) break;
        }
        ME->done = 1;
        _exit(0);
      }
      pid[w] = p;
    }
    int left = W, bad = -1; std::string badkey, badmsg, err;
    while(left > 0)
    {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if(p == 0)
      {
        usleep(2000);
        for(int w = 0; w < W; w++) if(pid[w] && SH->s[w].running && now() - SH->s[w].t_case > 30)
        {
          // only what uses the processor hangs; on a busy machine a case may just be slow
          if(now() - SH->s[w].t_case < 120 && cpu_of(pid[w]) - SH->s[w].c_case < 15) continue;
          kill(pid[w], SIGKILL); SH->s[w].t_case = now() + 1e9;
          if(bad < 0) { bad = w; badkey = "hang"; badmsg = "the case did not finish within 30 s"; }
          SH->stop = 1;
        }
        continue;
      }
      if(p < 0) break;
      for(int w = 0; w < W; w++) if(pid[w] == p)
      {
        pid[w] = 0; left--;
        if(!SH->s[w].done)
        {
          SH->stop = 1;
          if(WIFEXITED(st) && WEXITSTATUS(st) == 77) { if(err.empty()) err = slurp(base + "-" + std::to_string(w)).substr(0, 500); }
          else if(bad < 0)
          {
            bad = w;
            std::string log = slurp(base + "-" + std::to_string(w));
            badmsg = summary(log, badkey);
            if(badkey == "crash") badmsg = "the process died (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "): " + badmsg;
          }
        }
        else if(SH->s[w].failed && bad < 0) { bad = w; badkey = SH->s[w].key; badmsg = SH->s[w].msg; }
      }
    }
    u64 cases = 0, steps = 0; int maxd = 0; bool capped = false;
    std::map<std::string, u64> outs; std::map<std::string, std::string> known;
    for(int w = 0; w < W; w++)
    {
      Slot& s = SH->s[w];
      cases += s.cases; steps += s.steps; maxd = std::max(maxd, s.maxd); capped |= s.capped != 0;
      for(int i = 0; i < s.nout; i++) outs[s.out[i]] += s.outn[i];
      for(int i = 0; i < s.nknown; i++) known[s.known[i]] = s.knownmsg[i];
      if(!getenv("LP_KEEP_LOGS")) unlink((base + "-" + std::to_string(w)).c_str());
    }
    const char* status = bad >= 0 ? "violation" : !err.empty() ? "error" : "ok";
    std::ostringstream o;
    o << "{\"scenario\": \"" << sc.name << "\", \"what\": \"" << jesc(sc.what) << "\", \"bound\": " << DEPTH << ", \"completed_bound\": " << (capped || bad >= 0 ? -1 : DEPTH)
      << ", \"exhausted\": " << (!capped && bad < 0 ? "true" : "false") << ", \"capped\": " << (capped ? "true" : "false")
      << ", \"executions\": " << cases << ", \"pruned\": 0, \"states\": " << SH->nset << ", \"transitions\": " << steps << ", \"max_choice_depth\": " << maxd
      << ", \"wall_s\": " << now() - t0 << ", \"outcomes\": {";
    bool f = true;
    for(auto& kv : outs) { o << (f ? "" : ", ") << "\"" << jesc(kv.first) << "\": " << kv.second; f = false; }
    o << "}, \"known\": {";
    f = true;
    for(auto& kv : known) { o << (f ? "" : ", ") << "\"" << jesc(kv.first) << "\": \"" << jesc(kv.second) << "\""; f = false; }
    o << "}, \"status\": \"" << status << "\"";
    if(bad >= 0)
    {
      o << ", \"key\": \"" << jesc(std::string(sc.name) + ": " + badkey) << "\", \"message\": \"" << jesc(badmsg) << "\", \"choices\": [";
      for(int i = 0; i < SH->s[bad].n; i++) o << (i ? "," : "") << "[" << SH->s[bad].width[i] << "," << SH->s[bad].val[i] << "]";
      o << "]";
    }
    else if(!err.empty()) o << ", \"message\": \"" << jesc(err) << "\"";
    o << "}";
    json = o.str();
    munmap(SH, bytes);
    return bad >= 0 ? 1 : !err.empty() ? 2 : 0;
  }

  inline int replay(const Scenario& sc, const char* file, bool thorough)
  {
    DEPTH = thorough ? sc.thorough : sc.quick;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ME = &SH->s[0]; REPLAY = true;
    FILE* f = fopen(file, "r"); int n, k;
    while(f && fscanf(f, "%d %d", &n, &k) == 2) { ME->width[ME->n] = n; ME->val[ME->n] = k; ME->n++; }
    one_case(sc);
    if(ME->failed) { printf("VIOLATION %s: %s\n", ME->key, ME->msg); return 1; }
    printf("the case passed\n");
    return 0;
  }

  inline int main(int argc, char** argv, const Scenario* sc, int count)
  {
    std::string tier = "quick", out, only, rep;
    double cap = 60;
    for(int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
      if(a == "--tier") tier = val();
      else if(a == "--out") out = val();
      else if(a == "--scenario") only = val();
      else if(a == "--cap") cap = atof(val().c_str());
      else if(a == "--known") KNOWN.push_back(val());
      else if(a == "--replay") rep = val();
      else if(a == "--list") { for(int k = 0; k < count; k++) printf("%s\n", sc[k].name); return 0; }
    }
    std::string all = "[\n"; int rc = 0; bool first = true;
    for(int k = 0; k < count; k++)
    {
      if(!only.empty() && ("," + only + ",").find("," + std::string(sc[k].name) + ",") == std::string::npos) continue;
      if(!rep.empty()) return replay(sc[k], rep.c_str(), tier == "thorough");
      std::string j;
      int r = run_scenario(sc[k], tier == "thorough", cap, j);
      if(r && (rc == 0 || r == 1)) rc = r;
      all += (first ? "" : ",\n") + j; first = false;
    }
    all += "\n]\n";
    if(out.empty()) printf("%s", all.c_str());
    else { FILE* f = fopen(out.c_str(), "w"); fwrite(all.data(), 1, all.size(), f); fclose(f); }
    return rc;
  }
}
