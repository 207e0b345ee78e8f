// The application around the bus: plugin worker threads, unloading with traffic, start-up and shutdown by
// call and by signal, log lines.
#define HARNESS_MAIN
#include "common.h"
#include <lamppost/LampPost.h>
#include <lamppost/LowLevel.h>
#include <lamppost/log/Log.h>
#include <lamppost/plugin/PluginTemplate.h>
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#define FL_QUIET McQuiet fl_quiet
void fl_bad(const char* key, const std::string& what) { mc_fail(key, "%s", what.c_str()); }
#include "fakelibs.h"

int app_main(int argc, char** argv);                 // src/main.cpp
extern std::shared_ptr<lp::LampPost> lamppost;

static void (*HANDLER[65])(int);
static int HFLAGS[65];
static int DELIVER = SIGTERM, DELIVER2 = SIGTERM;        // the first and the second signal
static void deliver()
{
  int sig = mc_signal_delivered() <= 1 ? DELIVER : DELIVER2;
  void (*h)(int) = HANDLER[sig];
  if(h == SIG_IGN) return;
  if(h == SIG_DFL) { mc_fail("killed", "signal %d comes when no handler is installed for it (any more) and kills the program instead of shutting it down", sig); return; }
  if(HFLAGS[sig] & (int)SA_RESETHAND) HANDLER[sig] = SIG_DFL;
  h(sig);
}
extern "C" int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction*)
{
  if(a && sig > 0 && sig < 65) { HANDLER[sig] = a->sa_handler; HFLAGS[sig] = a->sa_flags; }
  // signals come from the moment on at which the handlers are there
  if(HANDLER[DELIVER] && HANDLER[DELIVER2]) { mc_set_signal_handler(deliver); mc_point("sigaction"); }
  return 0;
}
extern "C" sighandler_t __wrap_signal(int sig, sighandler_t h)
{
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h;
  __wrap_sigaction(sig, &a, nullptr);
  return SIG_DFL;
}

namespace
{
  std::string HOME;

  void pause_ms(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

  // ------------------------------------------------------------------ plugin workers
  std::atomic<int> ENDED(0);
  int MODE[8];       // per instance: 0 runs until told to stop, 1 returns by itself, 2 clears the run flag itself
  void run_mode(int k, std::atomic<bool>& should, lp::PluginInstance&)
  {
    if(MODE[k] == 1) { ENDED++; return; }
    if(MODE[k] == 2) { should = false; ENDED++; return; }
    while(should) pause_ms(100);
  }
  std::shared_ptr<lp::PluginInstance> bare_plugin(BusPtr bus, const std::string& id)
  {
    lp::PluginConfiguration c; c.mIdentifier = id; c.mBus = bus;
    return std::make_shared<fl::Plugin>(0, c);
  }
  int in_run(int k) { McQuiet q; return fl::INST[k].inRun; }
  int runs(int k) { McQuiet q; return fl::INST[k].runs; }
  void fl_start() { McQuiet q; fl::reset(); fl::add("lib", fl::GOOD_A); fl::LIB[0].refs = 1; memset(MODE, 0, sizeof MODE); fl::RUN = run_mode; }

  // all sequences of Start, Stop and waiting
  void worker_sequences(int n)
  {
    MuteCout mute;
    fl_start();
    BusPtr root = std::make_shared<Bus>("root");
    std::string trace; bool running = false; int expected = 0;
    {
      MODE[0] = mc_choose(3, "worker");
      std::shared_ptr<lp::PluginInstance> p = bare_plugin(root, "p");
      for(int i = 0; i < n; i++)
      {
        int op = mc_choose(3, "op");
        if(op == 0) { trace += "Start "; p->Start(); if(!running) { running = true; expected++; } else if(MODE[0]) { /* it may have ended already */ expected = -1000; } }
        if(op == 1) { trace += "Stop "; p->Stop(); running = false; MC_CHECK(in_run(0) == 0, "stop-returned", "%s: Stop returned although Run is still executing", trace.c_str()); }
        if(op == 2) { trace += "wait "; pause_ms(500); if(running && MODE[0] == 0) MC_CHECK(in_run(0) == 1, "not-running", "%s: the worker is not running", trace.c_str()); if(!running) MC_CHECK(in_run(0) == 0, "still-running", "%s: the worker is running", trace.c_str()); }
      }
      p->Stop();
      MC_CHECK(in_run(0) == 0, "stop-returned", "%s: Stop returned although Run is still executing", trace.c_str());
      if(expected >= 0) MC_CHECK(runs(0) == expected, "runs", "%s: Run was executed %d times instead of %d", trace.c_str(), runs(0), expected);
    }
    mc_outcome(MODE[0] == 0 ? "loops" : MODE[0] == 1 ? "returns" : "ends itself");
  }
  void worker_sequences4() { worker_sequences(4); }
  void worker_sequences5() { worker_sequences(5); }

  // a plugin is destroyed without having been stopped: its worker has ended by itself
  void worker_destroy()
  {
    MuteCout mute;
    fl_start();
    BusPtr root = std::make_shared<Bus>("root");
    MODE[0] = 1 + mc_choose(2, "worker");
    int wait = mc_choose(2, "wait");
    {
      std::shared_ptr<lp::PluginInstance> p = bare_plugin(root, "p");
      p->Start();
      if(wait) pause_ms(100);
      // the virtual Run belongs to the plugin; let it finish before the plugin goes
      while(ENDED < 1) pause_ms(10);
      int again = mc_choose(3, "then");
      if(again == 1) p->Start();
      if(again == 2) { p->Stop(); p->Start(); }
      if(again) { pause_ms(500); MC_CHECK(runs(0) == 2 || (again == 1 && runs(0) == 1), "runs", "the worker ran %d times", runs(0)); p->Stop(); }
    }
    mc_outcome("ok");
  }

  // Stop from two threads at once, and once more
  void worker_stops()
  {
    MuteCout mute;
    fl_start();
    MODE[0] = mc_choose(3, "worker");
    BusPtr root = std::make_shared<Bus>("root");
    std::shared_ptr<lp::PluginInstance> p = bare_plugin(root, "p");
    p->Start();
    auto stop = [&] { p->Stop(); MC_CHECK(in_run(0) == 0, "stop-returned", "Stop returned although Run is still executing"); };
    std::thread t1(stop);
    stop();
    t1.join();
    stop();
    MC_CHECK(runs(0) == 1, "runs", "Run was executed %d times", runs(0));
    mc_outcome("ok");
  }

  // Start from two threads, and Stop in between: never two workers, none left at the end
  void worker_starts()
  {
    MuteCout mute;
    fl_start();
    BusPtr root = std::make_shared<Bus>("root");
    std::shared_ptr<lp::PluginInstance> p = bare_plugin(root, "p");
    int third = mc_choose(2, "stop");
    std::thread t1([&] { p->Start(); });
    std::thread t2([&] { if(third) p->Stop(); else p->Start(); });
    t1.join(); t2.join();
    if(!third) { pause_ms(300); MC_CHECK(runs(0) == 1 && in_run(0) == 1, "runs", "two Starts gave %d runs", runs(0)); }
    p->Stop();
    MC_CHECK(in_run(0) == 0, "stop-returned", "Stop returned although Run is still executing");
    mc_outcome(runs(0) ? "ran" : "never ran");
  }

  // two plugins: stopping one leaves the other alone
  // Sleep takes the time it is given, in any unit, for several plugins at once
  struct Sleeper : lp::PluginInstance
  {
    int kind; long slept = -1; std::atomic<bool> out;
    Sleeper(lp::PluginConfiguration c, int k) : lp::PluginInstance(c), kind(k), out(false) {}
    ~Sleeper() { Stop(); }
    void Initialize() override {}
    void Deinitialize() override {}
    static long want(int k) { static const long W[] = {0, 1, 7, 250, 2000, 90, 180000, 1, 3, 2500, 100, 0, 99, 33333}; return W[k]; }
    void Run() override
    {
      using namespace std::chrono;
      long t0 = mc_now_ms();
      switch(kind)
      {
        case 0: Sleep(milliseconds(0)); break;
        case 1: Sleep(milliseconds(1)); break;
        case 2: Sleep(milliseconds(7)); break;
        case 3: Sleep(milliseconds(250)); break;
        case 4: Sleep(seconds(2)); break;
        case 5: Sleep(milliseconds(90)); break;
        case 6: Sleep(minutes(3)); break;
        case 7: Sleep(microseconds(1000)); break;
        case 8: Sleep(nanoseconds(3000000)); break;
        case 9: Sleep(duration<double>(2.5)); break;
        case 10: Sleep(duration<int, std::ratio<1, 10>>(1)); break;
        case 11: Sleep(milliseconds(-5)); break;
        case 12: Sleep(milliseconds(99)); break;
        case 13: Sleep(duration<float, std::milli>(33333.0f)); break;
      }
      slept = mc_now_ms() - t0;
      out = true;
      while(mShouldRun) Sleep(milliseconds(20));
    }
  };
  void worker_sleeps()
  {
    MuteCout mute;
    int ka = mc_choose(14, "first"), kb = mc_choose(2, "second") ? (ka + 5) % 14 : ka;
    int jump = mc_choose(3, "clock");
    BusPtr root = std::make_shared<Bus>("root");
    lp::PluginConfiguration c; c.mIdentifier = "p"; c.mBus = root;
    Sleeper a(c, ka), b(c, kb);
    a.Start(); b.Start();
    if(jump) { pause_ms(5); mc_clock_jump(jump == 1 ? 3600000 : -3600000); }
    while(!a.out || !b.out) pause_ms(50);
    MC_CHECK(a.slept == Sleeper::want(ka) && b.slept == Sleeper::want(kb), "sleep", "two plugins sleep for %ld and %ld ms: it took %ld and %ld ms", Sleeper::want(ka), Sleeper::want(kb), a.slept, b.slept);
    long t0 = mc_now_ms();
    a.Stop(); b.Stop();
    MC_CHECK(mc_now_ms() - t0 <= 40, "stop", "stopping took %ld ms", mc_now_ms() - t0);
    mc_outcome("ok");
  }

  void worker_pair()
  {
    MuteCout mute;
    fl_start();
    BusPtr root = std::make_shared<Bus>("root");
    std::shared_ptr<lp::PluginInstance> p = bare_plugin(root, "p"), q = bare_plugin(root, "q");
    p->Start(); q->Start();
    p->Stop();
    pause_ms(300);
    MC_CHECK(in_run(0) == 0 && in_run(1) == 1, "runs", "stopping one plugin affects another");
    q->Stop();
    MC_CHECK(in_run(1) == 0, "stop-returned", "Stop returned although Run is still executing");
    mc_outcome("ok");
  }

  // ------------------------------------------------------------------ plugins that talk
  struct Talk { PubPtr pub; SubPtr sub; int* state; int got; };
  Talk TALK[8];
  void talk_init(int k, lp::PluginInstance& self)
  {
    Talk& t = TALK[k];
    t.state = new int(7); t.got = 0;
    t.pub = self.GetPublisher("/talk");
    t.sub = self.GetSubscriber("/talk", [k](Datagram d) {
      Talk& t = TALK[k];
      if(*t.state != 7) mc_fail("state", "a callback ran after its plugin was deinitialized");
      *t.state = 7;
      McQuiet q; t.got++;
    });
  }
  void talk_run(int k, std::atomic<bool>& should, lp::PluginInstance&)
  {
    do { publish(TALK[k].pub, 10 + k, 1); pause_ms(200); } while(should);
  }
  void talk_deinit(int k, lp::PluginInstance& self)
  {
    Talk& t = TALK[k];
    self.DeleteSubscriber(t.sub); t.sub = nullptr;
    self.DeletePublisher(t.pub); t.pub = nullptr;
    *t.state = 0;
    delete t.state;
  }

  // a template is unloaded while the root bus delivers messages to and from its instances
  void unload_traffic()
  {
    MuteCout mute;
    fl_start();
    fl::RUN = talk_run; fl::INIT = talk_init; fl::DEINIT = talk_deinit;
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s = root->CreateSubscriber("/talk", [](Datagram d) { log_ev(EV_RECV, 1, number_of(d)); });
    int n = 1 + mc_choose(2, "instances");
    {
      lp::PluginTemplate t(lp::PluginTemplateConfiguration("a", lp::Version(1, 0, 0, 0), [](lp::PluginConfiguration c) -> std::shared_ptr<lp::PluginInstance> { return std::make_shared<fl::Plugin>(0, c); }));
      Runner r(root);
      for(int i = 0; i < n; i++)
      {
        std::shared_ptr<lp::PluginInstance> p = t.Instantiate(lp::PluginConfiguration(), root);
        p->Initialize();
        p->Start();
      }
      if(mc_choose(2, "wait")) pause_ms(50);
      t.Unload();
      for(int i = 0; i < n; i++) MC_CHECK(fl::INST[i].deinits == 1 && !fl::INST[i].alive, "unload", "an instance was deinitialized %d times", fl::INST[i].deinits);
      r.stop();
    }
    McQuiet q;
    for(int i = 0; i < n; i++) MC_CHECK(fl::INST[i].runs == 1 && fl::INST[i].inits == 1, "unload", "an instance ran %d times", fl::INST[i].runs);
    mc_outcome("ok");
  }

  // ------------------------------------------------------------------ the application
  void app_libs()
  {
    McQuiet q;
    fl::reset();
    fl::add(HOME + "/libplugin_a.so", fl::GOOD_A);
    fl::add(HOME + "/libplugin_b.so", fl::GOOD_B);
    memset(MODE, 0, sizeof MODE);
    fl::RUN = run_mode;
    DELIVER = DELIVER2 = SIGTERM;
    for(auto& h : HANDLER) h = nullptr;
  }
  void app_over(int instances)
  {
    McQuiet q;
    MC_CHECK(fl::NINST == instances, "plugins", "%d plugins were created instead of %d", fl::NINST, instances);
    for(int k = 0; k < fl::NINST; k++)
    {
      fl::Inst& i = fl::INST[k];
      MC_CHECK(!i.alive && i.inits == 1 && i.runs == 1 && i.deinits == 1 && !i.inRun, "life-cycle", "plugin %s: %d times initialized, %d times run, %d times deinitialized, %s", i.id.c_str(), i.inits, i.runs, i.deinits, i.alive ? "not destroyed" : "destroyed");
    }
    for(int k = 0; k < fl::NLIB; k++) MC_CHECK(fl::LIB[k].refs == 0 && fl::LIB[k].opens == 1, "library-left-open", "the library %s was opened %d times and closed %d times", fl::LIB[k].path.c_str(), fl::LIB[k].opens, fl::LIB[k].closes);
    MC_CHECK(mc_live_threads() == 1, "threads", "a thread is left behind");
  }

  // output is a point at which a signal may come
  struct PointBuf : std::streambuf
  {
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    int sync() override { mc_point("output"); return 0; }
  };
  struct PointCout
  {
    PointBuf buf; std::streambuf* old;
    PointCout() { McQuiet q; old = std::cout.rdbuf(&buf); }
    ~PointCout() { McQuiet q; std::cout.rdbuf(old); }
  };

  // the program, ended by one or two signals that come at any point
  void app_signal_with(int signals, const char* config, int instances, bool talk)
  {
    PointCout mute;
    app_libs();
    if(talk) { fl::RUN = talk_run; fl::INIT = talk_init; fl::DEINIT = talk_deinit; }
    DELIVER = talk ? SIGTERM : mc_choose(2, "signal") ? SIGINT : SIGTERM;
    DELIVER2 = signals > 1 && mc_choose(2, "second") ? SIGINT : SIGTERM;
    if(signals == 1) DELIVER2 = DELIVER;
    mc_signals(signals, 150);
    std::string file = HOME + "/" + config;
    char prog[] = "lamppost"; char* argv[] = {prog, (char*)file.c_str(), nullptr};
    int rc = app_main(2, argv);
    mc_signals(0, 0);
    MC_CHECK(rc == EXIT_SUCCESS, "exit-code", "the program ends with %d", rc);
    MC_CHECK(mc_signal_delivered() >= 1, "ended-early", "the program ended without having been asked to");
    MC_CHECK(mc_now_ms() < 2000, "stop-late", "the program ended %ld ms after its start", mc_now_ms());
    app_over(instances);
    lamppost = nullptr;
    mc_outcome(mc_signal_delivered() == 2 ? "two signals" : "one signal");
  }
  void app_signal() { app_signal_with(1, "one.cfg", 1, false); }
  void app_signal_twice() { app_signal_with(2, "none.cfg", 0, false); }
  void app_signal_traffic() { app_signal_with(1, "one.cfg", 1, true); }
  void app_signal_two() { app_signal_with(1, "two.cfg", 2, false); }

  // Stop called by another thread at any time (once or twice), state seen from there
  void app_stop()
  {
    MuteCout mute;
    app_libs();
    lp::LampPostConfiguration c;
    c.mConfigurationFiles.push_back(HOME + "/one.cfg");
    {
      lp::LampPost app(c);
      MC_CHECK(!app.IsStopped(), "state", "stopped before it was started");
      int first = mc_choose(2, "first");
      std::thread t([&] {
        if(first) pause_ms(50);
        app.Stop();
        app.Stop();
      });
      app.Start();
      MC_CHECK(app.IsStopped(), "state", "Start returned but the application does not report that it is stopped");
      t.join();
      MC_CHECK(mc_now_ms() < 2000, "stop-late", "the application ended %ld ms after its start", mc_now_ms());
      app.Stop();
      MC_CHECK(app.IsStopped(), "state", "the application does not report that it is stopped any more");
    }
    app_over(1);
    mc_outcome("ok");
  }

  // a thread waits for IsStopped; once it is true nothing of the plugins is left
  void app_wait()
  {
    MuteCout mute;
    app_libs();
    lp::LampPostConfiguration c;
    c.mConfigurationFiles.push_back(HOME + "/one.cfg");
    {
      lp::LampPost app(c);
      std::thread t([&] {
        MC_CHECK(!app.IsStopped() || fl::INST[0].deinits == 1, "state", "stopped too early");
        app.Stop();
        int waited = 0;
        while(!app.IsStopped()) { pause_ms(50); MC_CHECK(++waited < 60, "state", "the application never reports that it is stopped"); }
        McQuiet q;
        for(int k = 0; k < fl::NINST; k++) MC_CHECK(!fl::INST[k].alive && fl::INST[k].deinits == 1, "state", "the application reports that it is stopped although plugin %s is there", fl::INST[k].id.c_str());
        for(int k = 0; k < fl::NLIB; k++) MC_CHECK(fl::LIB[k].refs == 0, "state", "the application reports that it is stopped although a library is open");
      });
      app.Start();
      t.join();
    }
    app_over(1);
    mc_outcome("ok");
  }

  // plugins exchange messages across the application's root bus until the end
  void app_traffic()
  {
    MuteCout mute;
    app_libs();
    fl::RUN = talk_run; fl::INIT = talk_init; fl::DEINIT = talk_deinit;
    lp::LampPostConfiguration c;
    c.mConfigurationFiles.push_back(HOME + "/two.cfg");
    {
      lp::LampPost app(c);
      std::thread t([&] { pause_ms(mc_choose(2, "when") ? 100 : 0); app.Stop(); });
      app.Start();
      t.join();
    }
    app_over(2);
    char b[60]; snprintf(b, sizeof b, "%d %d", TALK[0].got, TALK[1].got);
    mc_outcome(b);
  }

  // ------------------------------------------------------------------ log lines
  struct SlowBuf : std::streambuf
  {
    std::string text;
    int overflow(int c) override { mc_point("out"); { McQuiet q; text += (char)c; } mc_point("out"); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
      mc_point("out");
      { McQuiet q; text.append(s, (size_t)n / 2); }
      mc_point("out");
      { McQuiet q; text.append(s + n / 2, (size_t)n - (size_t)n / 2); }
      return n;
    }
    int sync() override { mc_point("flush"); return 0; }
  };
  void log_lines()
  {
    SlowBuf buf;
    std::streambuf* old = std::cout.rdbuf(&buf);
    {
      lp::log::Log a("one"), b("two");
      std::thread t1([&] { a.Info("first"); a.Error("second", 1); });
      std::thread t2([&] { b.Warning("third", 2); lp::log::Log c(""); c.Info(""); });
      a.Info("fourth");
      t1.join(); t2.join();
    }
    std::cout.rdbuf(old);
    McQuiet q;
    std::vector<std::string> got, want = {"[one] first", "[one]   second", "[two]     third", "[] ", "[one] fourth"};
    std::istringstream in(buf.text); std::string l;
    while(std::getline(in, l)) got.push_back(l);
    std::string all; for(auto& g : got) all += "<" + g + "> ";
    auto at = [&](int i) { return std::find(got.begin(), got.end(), want[i]) - got.begin(); };
    bool ordered = at(0) < at(1) && at(2) < at(3);
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    MC_CHECK(got == want && !buf.text.empty() && buf.text.back() == '\n', "log", "the log is %s", all.c_str());
    MC_CHECK(ordered, "log", "lines of one thread change places: %s", all.c_str());
    mc_outcome(all.substr(0, 70).c_str());
  }

  // lines of all kinds, indentations and lengths
  void log_forms()
  {
    static const int LEN[] = {0, 1, 15, 16, 63, 64, 65, 79, 80, 81, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70001};
    static const int IND[] = {0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 100};
    int len = LEN[pick(sizeof LEN / sizeof *LEN)], ind = IND[pick(sizeof IND / sizeof *IND)], kind = mc_choose(3, "kind"), prefix = mc_choose(3, "prefix");
    SlowBuf buf;
    std::string want, p, m;
    { McQuiet q; p = prefix == 0 ? "p" : prefix == 1 ? std::string(100, 'P') : "%s\\ []"; m = std::string(len, 'm'); for(int i = 0; i < len; i += 3) m[i] = "%d\"[ \t"[i / 3 % 6]; if(prefix == 2 && len > 15) m[len / 2] = 0; want = "[" + p + "] " + std::string(2 * ind, ' ') + m + "\n[" + p + "] end\n"; }
    std::streambuf* old = std::cout.rdbuf(&buf);
    {
      lp::log::Log l(p);
      if(kind == 0) l.Info(m, ind); else if(kind == 1) l.Warning(m, ind); else l.Error(m, ind);
      l.Info("end");
    }
    std::cout.rdbuf(old);
    McQuiet q;
    MC_CHECK(buf.text == want, "log", "a line of %d characters with indentation %d is written as %zu characters instead of %zu: %.60s", len, ind, buf.text.size(), want.size(), buf.text.c_str());
    mc_outcome(kind == 0 ? "info" : kind == 1 ? "warning" : "error");
  }

  const mc_scenario SC[] = {
    {"worker_sequences4", worker_sequences4, 3, 4, 0, "all sequences of 4 Starts, Stops and waits of a plugin with 3 kinds of workers"},
    {"worker_sequences5", worker_sequences5, 2, 3, 0, "the same with 5 operations"},
    {"worker_destroy", worker_destroy, 3, 4, 0, "plugins whose worker ended by itself are started again, stopped or destroyed"},
    {"worker_stops_wakeups", worker_stops, 2, 3, MC_SPURIOUS, "worker_stops; any wait may wake up without reason"},
    {"worker_stops", worker_stops, 4, 6, 0, "two threads stop a plugin whose worker starts, runs or has ended"},
    {"worker_starts", worker_starts, 4, 6, 0, "two threads start, or start and stop, a plugin"},
    {"worker_sleeps", worker_sleeps, 1, 2, 0, "two workers sleep for any of 14 durations in several units, the clock is set meanwhile"},
    {"worker_pair", worker_pair, 3, 4, 0, "one of two plugins is stopped"},
    {"unload_traffic", unload_traffic, 1, 2, 0, "one or two instances that publish and subscribe are unloaded while the bus runs"},
    {"app_signal", app_signal, 2, 3, MC_SIGNAL, "the program with one plugin; SIGINT or SIGTERM at any point"},
    {"app_signal_twice", app_signal_twice, 1, 1, MC_SIGNAL, "the program without plugins; two signals at any points"},
    {"app_signal_two", app_signal_two, 1, 2, MC_SIGNAL, "the program with two plugins; a signal at any point"},
    {"app_signal_traffic", app_signal_traffic, 1, 2, MC_SIGNAL, "the program with a talking plugin; a signal at any point"},
    {"app_stop", app_stop, 3, 4, 0, "another thread calls Stop twice at any time from before Start to after its end"},
    {"app_wait", app_wait, 3, 4, 0, "another thread stops the application and waits for IsStopped"},
    {"app_traffic", app_traffic, 1, 2, 0, "two plugins exchange messages while the application is stopped"},
    {"log_forms", log_forms, 0, 0, 0, "26 lengths x 14 indentations x 3 kinds x 3 prefixes of one line"},
    {"log_lines", log_lines, 2, 3, 0, "three threads write five log lines to a slow output"},
  };

  void put(const std::string& name, const char* text) { FILE* f = fopen((HOME + "/" + name).c_str(), "w"); if(f) { fputs(text, f); fclose(f); } }
}
int main(int argc, char** argv)
{
  HOME = std::string(getenv("LP_SCRATCH") ? getenv("LP_SCRATCH") : "/tmp") + "/app-" + std::to_string(getpid());
  mkdir(HOME.c_str(), 0700);
  put("libplugin_a.so", ""); put("libplugin_b.so", "");
  put("none.cfg", "{\"plugins\": []}");
  put("one.cfg", "{\"plugins\": [{\"type\": \"A\", \"configuration\": {\"x\": 1}}]}");
  put("two.cfg", "{\"plugins\": [{\"type\": \"A\"}, {\"type\": \"B\"}]}");
  if(chdir(HOME.c_str())) return 3;
  int rc = mc_main(argc, argv, SC, sizeof SC / sizeof *SC);
  for(const char* n : {"libplugin_a.so", "libplugin_b.so", "none.cfg", "one.cfg", "two.cfg"}) unlink((HOME + "/" + n).c_str());
  if(chdir("/")) {}
  rmdir(HOME.c_str());
  return rc;
}
