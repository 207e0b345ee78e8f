// Plugin libraries, templates and configuration files: operation sequences and fault combinations.
#include "seq.h"
#include <lamppost/LampPost.h>
#include <lamppost/Filesystem.h>
#include <lamppost/exceptions/Exception.h>
#include <lamppost/exceptions/OperationFailedException.h>
#include <mutex>
#include <memory>

using namespace seq;

static std::string BADKEY, BADMSG;
static std::mutex BADMUTEX;
void fl_bad(const char* key, const std::string& what) { std::lock_guard<std::mutex> l(BADMUTEX); if(BADKEY.empty()) { BADKEY = key; BADMSG = what; } }
#define FL_QUIET std::lock_guard<std::recursive_mutex> fl_lock(fl_mutex())
inline std::recursive_mutex& fl_mutex() { static std::recursive_mutex m; return m; }
#include "fakelibs.h"

namespace
{
  std::string TRACE;
  void verdict() { std::lock_guard<std::mutex> l(BADMUTEX); if(!BADKEY.empty()) fail(BADKEY.c_str(), "%s: %s", TRACE.c_str(), BADMSG.c_str()); }

  struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };

  // a scratch directory: <dir>/cwd (empty) and <dir>/p (the search path)
  struct Place
  {
    std::string dir, p; std::vector<std::string> made;
    std::streambuf* old; NullBuf nb;
    Place()
    {
      static int n = 0;
      dir = std::string(getenv("LP_SCRATCH") ? getenv("LP_SCRATCH") : "/tmp") + "/plug-" + std::to_string(getpid()) + "-" + std::to_string(n++);
      p = dir + "/p";
      mkdir(dir.c_str(), 0700); mkdir((dir + "/cwd").c_str(), 0700); mkdir(p.c_str(), 0700);
      if(chdir((dir + "/cwd").c_str())) {}
      old = std::cout.rdbuf(&nb);
      BADKEY.clear(); TRACE.clear(); fl::reset(); fl::UNEXPECTED.clear();
    }
    void file(const std::string& name, const std::string& content = "")
    {
      made.push_back(p + "/" + name);
      FILE* f = fopen(made.back().c_str(), "w"); fwrite(content.data(), 1, content.size(), f); fclose(f);
    }
    void sub(const std::string& name) { made.push_back(p + "/" + name); mkdir(made.back().c_str(), 0700); }
    void link(const std::string& name, const std::string& to) { made.push_back(p + "/" + name); if(symlink(to.c_str(), made.back().c_str())) {} }
    ~Place()
    {
      std::cout.rdbuf(old);
      if(chdir("/")) {}
      for(auto& m : made) if(unlink(m.c_str())) rmdir(m.c_str());
      rmdir(p.c_str()); rmdir((dir + "/cwd").c_str()); rmdir(dir.c_str());
    }
  };

  const char* base(const std::string& p) { size_t k = p.rfind('/'); return p.c_str() + (k == std::string::npos ? 0 : k + 1); }
  void all_closed(const char* when)
  {
    verdict();
    for(int i = 0; i < fl::NLIB; i++)
      SEQ_CHECK(fl::LIB[i].refs == 0, "library-left-open", "%s: the library %s (%s) was opened %d times but closed %d times %s", TRACE.c_str(), base(fl::LIB[i].path), fl::kind_name(fl::LIB[i].kind), fl::LIB[i].opens, fl::LIB[i].closes, when);
    for(int k = 0; k < fl::NINST; k++)
    {
      const fl::Inst& in = fl::INST[k];
      SEQ_CHECK(!in.alive, "instance-left", "%s: the instance %s still exists %s", TRACE.c_str(), in.id.c_str(), when);
      SEQ_CHECK(in.deinits == 1, "lifecycle", "%s: the instance %s was deinitialized %d times", TRACE.c_str(), in.id.c_str(), in.deinits);
    }
  }

  const char* id_of(int kind) { return kind == fl::GOOD_A || kind == fl::CLOSE_FAILS ? "A" : kind == fl::GOOD_B ? "B" : kind == fl::NULL_INSTANCE ? "N" : kind == fl::THROWS ? "T" : nullptr; }

  // libraries of all kinds x sequences of manager operations
  void libraries_with(int files, int ops)
  {
    int kinds[3];
    for(int i = 0; i < files; i++) kinds[i] = choose(fl::KINDS + 1) - 1;
    int seqv[8];
    for(int i = 0; i < ops; i++) seqv[i] = choose(6);
    Place pl;
    for(int i = 0; i < files; i++)
      if(kinds[i] >= 0)
      {
        std::string name = "libplugin_" + std::to_string(i) + ".so";
        pl.file(name); fl::add(pl.p + "/" + name, kinds[i]);
        TRACE += std::string(fl::kind_name(kinds[i])) + ", ";
      }
    std::shared_ptr<lp::bus::Bus> root = std::make_shared<lp::bus::Bus>("root");
    lp::PluginManagerConfiguration cfg({pl.p}, root);
    std::unique_ptr<lp::PluginManager> m(new lp::PluginManager(cfg));
    std::set<std::string> loaded;
    std::map<std::string, int> count;
    auto instantiate = [&](const std::string& id, bool start) {
      TRACE += "Instantiate(" + id + ") ";
      lp::PluginConfiguration c;
      c.mCustomConfiguration["x"] = 5;
      std::shared_ptr<lp::PluginInstance> in;
      bool threw = false;
      try { in = m->InstantiateTemplate(id, c); } catch(lp::exceptions::OperationFailedException&) { threw = true; }
      verdict();
      bool want = loaded.count(id) && id != "N" && id != "T";
      SEQ_CHECK(threw == (loaded.count(id) && id == "T"), "instantiate", "%s: %s", TRACE.c_str(), threw ? "an exception" : "the exception of the plugin got lost");
      SEQ_CHECK((in != nullptr) == want, "instantiate", "%s: instantiating %s gives %s", TRACE.c_str(), id.c_str(), in ? "an instance" : "nothing");
      if(in)
      {
        std::string name = in->GetIdentifier();
        SEQ_CHECK(name.substr(0, id.size()) == id && name.size() > id.size(), "instantiate", "%s: the instance of %s is called %s", TRACE.c_str(), id.c_str(), name.c_str());
        int k = fl::NINST - 1;
        SEQ_CHECK(id_of(fl::LIB[fl::INST[k].lib].kind) == id, "instantiate", "%s: the instance of %s comes from another library", TRACE.c_str(), id.c_str());
        SEQ_CHECK(in->GetBus() && in->GetBus() == root->GetChildBus(name) && in->GetBus()->GetIdentifier() == name, "instantiate", "%s: %s is not on its own child bus", TRACE.c_str(), name.c_str());
        SEQ_CHECK(fl::INST[k].config == "{x: 5}", "instantiate", "%s: %s was given the configuration %s", TRACE.c_str(), name.c_str(), fl::INST[k].config.c_str());
        for(int j = 0; j < k; j++) SEQ_CHECK(!fl::INST[j].alive || fl::INST[j].id != name, "instantiate", "%s: two instances are called %s", TRACE.c_str(), name.c_str());
        in->Initialize();
        if(start) in->Start();
      }
    };
    for(int i = 0; i < ops; i++)
    {
      step();
      switch(seqv[i])
      {
        case 0:
        {
          TRACE += "Load ";
          int before[fl::MAXLIB]; for(int k = 0; k < fl::NLIB; k++) before[k] = fl::LIB[k].opens;
          m->LoadTemplates();
          verdict();
          for(int k = 0; k < fl::NLIB; k++)
          {
            SEQ_CHECK(fl::LIB[k].opens == before[k] + 1, "load", "%s: %s was opened %d times by one LoadTemplates", TRACE.c_str(), base(fl::LIB[k].path), fl::LIB[k].opens - before[k]);
            if(id_of(fl::LIB[k].kind)) loaded.insert(id_of(fl::LIB[k].kind));
            else SEQ_CHECK(fl::LIB[k].refs == 0, "library-left-open", "%s: the useless library (%s) stays open", TRACE.c_str(), fl::kind_name(fl::LIB[k].kind));
          }
          break;
        }
        case 1: instantiate("A", true); break;
        case 2: instantiate("B", false); break;
        case 3: instantiate(i % 2 ? "N" : "unknown", true); break;
        case 4: instantiate("T", true); break;
        case 5: TRACE += "Unload "; m->UnloadTemplates(); loaded.clear(); all_closed("after UnloadTemplates"); break;
      }
    }
    TRACE += "destroy";
    m.reset();
    all_closed("when the manager is gone");
    SEQ_CHECK(fl::UNEXPECTED.empty(), "load", "%s: opened %s", TRACE.c_str(), fl::UNEXPECTED.c_str());
    state(TRACE);
  }
  void libraries() { libraries_with(2, depth()); }
  void libraries_three() { libraries_with(3, depth()); }

  // which files of the search paths are taken for plugin libraries
  void candidates()
  {
    static const char* NAMES[] = {"libplugin_x.so", "plugin_x.so", "libplugin_x.so.1", "libplugin_x.SO", "xlibplugin_x.so", "libplugin_.so", "libplugin_x", "libpluginx.so", "libplugin_x.dll", ".so", "libplugin_a.b.so", "LIBPLUGIN_x.so", "libplugin_so"};
    const int NN = sizeof NAMES / sizeof *NAMES;
    int n = choose(NN), kind = choose(4), second = choose(3);
    Place pl;
    std::string name = NAMES[n];
    bool want = name == "libplugin_x.so" || name == "libplugin_.so" || name == "libplugin_a.b.so";
    if(kind == 0) pl.file(name);
    if(kind == 1) { pl.sub(name); want = false; }
    if(kind == 2) { pl.file("target"); pl.link(name, pl.p + "/target"); }
    if(kind == 3) { pl.link(name, "/nonexistent/x"); want = false; }
    fl::add(pl.p + "/" + name, fl::GOOD_A);
    if(second == 1) { pl.file("libplugin_2.so"); fl::add(pl.p + "/libplugin_2.so", fl::GOOD_B); }
    TRACE = name + " (" + (kind == 0 ? "file" : kind == 1 ? "directory" : kind == 2 ? "link" : "dangling link") + ")";
    step();
    std::shared_ptr<lp::bus::Bus> root = std::make_shared<lp::bus::Bus>("root");
    {
      lp::PluginManagerConfiguration cfg({"/nonexistent/dir"}, nullptr);
      lp::PluginManager m(cfg);
      m.AddTemplateSearchPath(pl.p);
      if(second == 2) m.AddTemplateSearchPath("");
      m.SetBus(root);
      m.LoadTemplates();
      verdict();
      SEQ_CHECK((fl::LIB[0].opens == 1) == want && fl::LIB[0].opens <= 1, "load", "%s: opened %d times", TRACE.c_str(), fl::LIB[0].opens);
      if(second == 1) SEQ_CHECK(fl::LIB[1].opens == 1, "load", "%s: its neighbour was not opened", TRACE.c_str());
      std::shared_ptr<lp::PluginInstance> i = m.InstantiateTemplate("A", lp::PluginConfiguration()), j = m.InstantiateTemplate("B", lp::PluginConfiguration());
      SEQ_CHECK((i != nullptr) == want && (j != nullptr) == (second == 1), "load", "%s: instantiating it", TRACE.c_str());
      // a bus given with the configuration takes precedence over the default bus
      if(want)
      {
        lp::PluginConfiguration c; c.mBus = std::make_shared<lp::bus::Bus>("other");
        std::shared_ptr<lp::PluginInstance> k = m.InstantiateTemplate("A", c);
        SEQ_CHECK(k && k->GetBus() == c.mBus->GetChildBus(k->GetIdentifier()) && i->GetBus() == root->GetChildBus(i->GetIdentifier()), "instantiate", "an instance is on the wrong bus");
      }
    }
    all_closed("when the manager is gone");
    SEQ_CHECK(fl::UNEXPECTED.empty(), "load", "%s: opened %s", TRACE.c_str(), fl::UNEXPECTED.c_str());
    state(TRACE);
  }

  // ------------------------------------------------------------------ templates
  void templates()
  {
    static const char* IDS[2] = {"a", "a1"};
    int n = depth();
    std::vector<int> op; for(int i = 0; i < n; i++) op.push_back(choose(6));
    Place pl;
    fl::add("lib", fl::GOOD_A); fl::LIB[0].refs = 1;
    int mode = 0;
    std::shared_ptr<lp::bus::Bus> root = std::make_shared<lp::bus::Bus>("root");
    std::unique_ptr<lp::PluginTemplate> t[2];
    for(int k = 0; k < 2; k++)
      t[k].reset(new lp::PluginTemplate(lp::PluginTemplateConfiguration(IDS[k], lp::Version(1, 0, 0, 0), [&mode](lp::PluginConfiguration c) -> std::shared_ptr<lp::PluginInstance> {
        if(mode == 1) return nullptr;
        if(mode == 2) throw lp::exceptions::OperationFailedException("no");
        return std::make_shared<fl::Plugin>(0, c);
      })));
    std::vector<std::shared_ptr<lp::PluginInstance>> held;
    auto make = [&](int k) {
      TRACE += "Instantiate(" + std::string(IDS[k]) + (mode == 1 ? ", null" : mode == 2 ? ", throws" : "") + ") ";
      bool threw = false; std::shared_ptr<lp::PluginInstance> in;
      try { in = t[k]->Instantiate(lp::PluginConfiguration(), root); } catch(lp::exceptions::OperationFailedException&) { threw = true; }
      verdict();
      SEQ_CHECK((in != nullptr) == (mode == 0) && threw == (mode == 2), "instantiate", "%s: the instance is %s", TRACE.c_str(), in ? "there" : "missing");
      mode = 0;
      if(!in) return;
      std::string id = in->GetIdentifier();
      SEQ_CHECK(id.substr(0, strlen(IDS[k])) == IDS[k] && id.size() > strlen(IDS[k]), "instantiate", "%s: it is called %s", TRACE.c_str(), id.c_str());
      SEQ_CHECK(in->GetBus() == root->GetChildBus(id), "instantiate", "%s: it is not on its own child bus", TRACE.c_str());
      for(auto& h : held) SEQ_CHECK(h->GetIdentifier() != id, "instantiate", "%s: two instances are called %s", TRACE.c_str(), id.c_str());
      held.push_back(in);
      in->Initialize();
      in->Start();
    };
    for(int i = 0; i < n; i++)
    {
      step();
      switch(op[i])
      {
        case 0: make(0); break;
        case 1: make(1); break;
        case 2: for(int k = 0; k < 11; k++) make(0); break;
        case 3: mode = 1; make(0); break;
        case 4: mode = 2; make(0); break;
        case 5: if(!held.empty()) { TRACE += "Stop(" + held.back()->GetIdentifier() + ") "; held.back()->Stop(); } break;
      }
      int last = fl::NINST - 1;
      if(op[i] == 5 && last >= 0) SEQ_CHECK(fl::INST[last].inRun == 0, "stop", "%s: Run is still executing after Stop", TRACE.c_str());
    }
    int keep = choose(3);       // who asked for the instances still holds: none, the first, all of them
    if(keep == 0) held.clear();
    if(keep == 1 && held.size() > 1) held.resize(1);
    if(keep) TRACE += "(instances are held) ";
    int how = op.empty() ? 0 : op[0] % 2;
    for(int k = 0; k < 2; k++)
    {
      if(how) { TRACE += "Unload "; t[k]->Unload(); verdict(); }
      t[k].reset();
    }
    verdict();
    for(int k = 0; k < fl::NINST; k++)
    {
      const fl::Inst& in = fl::INST[k];
      SEQ_CHECK(in.inRun == 0 && in.deinits == 1, "lifecycle", "%s: after the template was unloaded, the instance %s %s and was deinitialized %d times", TRACE.c_str(), in.id.c_str(), in.inRun ? "runs" : "is stopped", in.deinits);
    }
    held.clear();
    fl::LIB[0].refs = 0;
    all_closed("at the end");
    state(TRACE);
  }

  // ------------------------------------------------------------------ configuration files
  struct Entry { const char* json; const char* type; const char* config; };
  const Entry EN[] = {
    {"{\"type\": \"A\", \"configuration\": {\"k\": [1, true]}}", "A", "{k: [1, 1]}"},
    {"{\"type\": \"B\"}", "B", "null"},
    {"{\"configuration\": 5, \"type\": \"A\"}", "A", "5"},
    {"{\"type\": \"unknown\"}", nullptr, nullptr},
    {"{\"type\": \"N\"}", nullptr, nullptr},
    {"{\"type\": \"T\", \"configuration\": {}}", nullptr, nullptr},
    {"{\"type\": 5}", nullptr, nullptr},
    {"{\"type\": null}", nullptr, nullptr},
    {"{\"type\": [\"A\"]}", nullptr, nullptr},
    {"{\"type\": {\"type\": \"A\"}}", nullptr, nullptr},
    {"{\"type\": \"\"}", nullptr, nullptr},
    {"{\"Type\": \"A\"}", nullptr, nullptr},
    {"[\"type\", \"A\"]", nullptr, nullptr},
    {"\"type\"", nullptr, nullptr},
    {"null", nullptr, nullptr},
    {"1.5", nullptr, nullptr},
    {"{}", nullptr, nullptr}};
  const int NE = sizeof EN / sizeof *EN;
  struct Doc { const char* before; const char* after; bool counts; };
  const Doc DOC[] = {
    {"{\"general\": {}, \"plugins\": [", "]}", true},
    {"{\"plugins\": [", "], \"other\": 1}", true},
    {"{\"plugins\": {\"x\": [", "]}}", false},
    {"{\"plugins\": \"A\", \"x\": [", "]}", false},
    {"{\"plugins\": 3, \"x\": [", "]}", false},
    {"{\"plugins\": null, \"x\": [", "]}", false},
    {"[{\"plugins\": [", "]}]", false},
    {"[", "]", false},
    {"{\"plugins\": [", "]", false},
    {"{\"Plugins\": [", "]}", false},
    {"{\"x\": {\"plugins\": [", "]}}", false},
    {"not json [", "", false}};
  const int ND = sizeof DOC / sizeof *DOC;
  void run_app(Place& pl, const std::list<std::string>& files, const std::vector<std::pair<std::string, std::string>>& want)
  {
    const int K[] = {fl::GOOD_A, fl::GOOD_B, fl::NULL_INSTANCE, fl::THROWS};
    for(int i = 0; i < 4; i++) { std::string name = "libplugin_" + std::to_string(i) + ".so"; pl.file(name); fl::add(pl.p + "/" + name, K[i]); }
    lp::LampPostConfiguration c;
    c.mPluginManagerConfiguration.mTemplateSearchPaths.push_back(pl.p);
    c.mConfigurationFiles = files;
    std::string thrown;
    {
      lp::LampPost app(c);
      SEQ_CHECK(!app.IsStopped(), "state", "the application is stopped before it was started");
      app.Stop();                 // the bus will not run
      try { app.Start(); } catch(std::exception& e) { thrown = e.what(); }
      verdict();
      SEQ_CHECK(thrown.empty(), "start-failed", "Start failed with \"%s\" for the configuration %s", thrown.c_str(), TRACE.c_str());
      SEQ_CHECK(app.IsStopped(), "state", "the application does not report that it is stopped");
      std::string got, exp;
      for(int k = 0; k < fl::NINST; k++) got += fl::INST[k].id.substr(0, 1) + fl::INST[k].config + " ";
      for(auto& w : want) exp += w.first + w.second + " ";
      SEQ_CHECK(got == exp, "plugins", "the configuration %s creates [%s] instead of [%s]", TRACE.c_str(), got.c_str(), exp.c_str());
      for(int k = 0; k < fl::NINST; k++) SEQ_CHECK(fl::INST[k].inits == 1 && fl::INST[k].runs == 1, "plugins", "%s was initialized %d and started %d times", fl::INST[k].id.c_str(), fl::INST[k].inits, fl::INST[k].runs);
      all_closed("after the shutdown");
      app.Stop();                 // harmless
    }
    all_closed("when the application is gone");
    state(TRACE);
  }
  void quick_run(int, std::atomic<bool>& run, lp::PluginInstance&) { while(run) usleep(100); }
  void configs()
  {
    int doc = choose(ND), n = choose(3), e[3];
    for(int i = 0; i < n; i++) e[i] = choose(NE);
    Place pl;
    std::string text = DOC[doc].before;
    std::vector<std::pair<std::string, std::string>> want;
    for(int i = 0; i < n; i++)
    {
      text += std::string(i ? ", " : "") + EN[e[i]].json;
      if(DOC[doc].counts && EN[e[i]].type) want.push_back({EN[e[i]].type, EN[e[i]].config});
    }
    text += DOC[doc].after;
    TRACE = text;
    pl.file("c.cfg", text);
    step();
    fl::RUN = quick_run;
    run_app(pl, {pl.p + "/c.cfg"}, want);
  }
  void configs_three()
  {
    int e[3]; for(int& x : e) x = choose(NE);
    Place pl;
    std::string text = DOC[0].before;
    std::vector<std::pair<std::string, std::string>> want;
    for(int i = 0; i < 3; i++) { text += std::string(i ? ", " : "") + EN[e[i]].json; if(EN[e[i]].type) want.push_back({EN[e[i]].type, EN[e[i]].config}); }
    text += DOC[0].after;
    TRACE = text;
    pl.file("c.cfg", text);
    step();
    fl::RUN = quick_run;
    run_app(pl, {pl.p + "/c.cfg"}, want);
  }
  // several files: missing, empty, blank, broken and good ones
  void config_files()
  {
    int n = choose(4), f[3];
    for(int i = 0; i < n; i++) f[i] = choose(7);
    Place pl;
    std::list<std::string> files;
    std::vector<std::pair<std::string, std::string>> want;
    for(int i = 0; i < n; i++)
    {
      std::string name = "c" + std::to_string(i) + ".cfg";
      TRACE += std::to_string(f[i]) + " ";
      switch(f[i])
      {
        case 0: pl.file(name, "{\"plugins\": [{\"type\": \"A\", \"configuration\": {\"a\": 1}}]}"); want.push_back({"A", "{a: 1}"}); break;
        case 1: pl.file(name, "{\"plugins\": [{\"type\": \"B\"}, {\"type\": \"A\"}]}"); want.push_back({"B", "null"}); want.push_back({"A", "null"}); break;
        case 2: break;
        case 3: pl.file(name, ""); break;
        case 4: pl.file(name, " \n\t "); break;
        case 5: pl.file(name, "{\"plugins\": [{\"type\": \"A\"}"); break;
        case 6: pl.file(name, std::string("\0\xff{", 3)); break;
      }
      files.push_back(pl.p + "/" + name);
    }
    step();
    fl::RUN = quick_run;
    run_app(pl, files, want);
  }

  // ------------------------------------------------------------------ sizes
  // many instances of two templates with similar names
  void slow_run(int, std::atomic<bool>& run, lp::PluginInstance&) { while(run) usleep(1500); }
  void many_instances()
  {
    static const int SIZES[] = {1, 9, 10, 11, 12, 20, 63, 64, 65, 99, 100, 101, 110, 111, 112, 127, 128, 129, 200, 255, 256, 257, 400};
    int n = SIZES[choose(sizeof SIZES / sizeof *SIZES)], order = choose(4), start = choose(3), how = choose(2);
    mine();
    Place pl;
    fl::add("lib", fl::GOOD_A); fl::LIB[0].refs = 1;
    fl::RUN = slow_run;
    std::shared_ptr<lp::bus::Bus> root = std::make_shared<lp::bus::Bus>("root");
    std::unique_ptr<lp::PluginTemplate> t[2];
    static const char* IDS[2] = {"a", "a1"};
    for(int k = 0; k < 2; k++)
      t[k].reset(new lp::PluginTemplate(lp::PluginTemplateConfiguration(IDS[k], lp::Version(1, 0, 0, 0), [](lp::PluginConfiguration c) -> std::shared_ptr<lp::PluginInstance> { return std::make_shared<fl::Plugin>(0, c); })));
    TRACE = std::to_string(n) + " instances, order " + std::to_string(order);
    std::set<std::string> names;
    {
      std::vector<std::shared_ptr<lp::PluginInstance>> held;
      for(int i = 0; i < n; i++)
      {
        step();
        int k = order == 0 ? 0 : order == 1 ? i % 2 : order == 2 ? (i < 12) : (i >= n - 12);
        std::shared_ptr<lp::PluginInstance> in;
        try { in = t[k]->Instantiate(lp::PluginConfiguration(), root); } catch(std::exception& e) { fail("instantiate", "%s: instance %d of %s is refused: %s", TRACE.c_str(), i, IDS[k], e.what()); }
        SEQ_CHECK(in != nullptr, "instantiate", "%s: instance %d of %s is missing", TRACE.c_str(), i, IDS[k]);
        std::string id = in->GetIdentifier();
        SEQ_CHECK(id.substr(0, strlen(IDS[k])) == IDS[k] && id.size() > strlen(IDS[k]), "instantiate", "%s: instance %d of %s is called %s", TRACE.c_str(), i, IDS[k], id.c_str());
        SEQ_CHECK(names.insert(id).second, "instantiate", "%s: two instances are called %s", TRACE.c_str(), id.c_str());
        SEQ_CHECK(in->GetBus() == root->GetChildBus(id), "instantiate", "%s: %s is not on its own child bus", TRACE.c_str(), id.c_str());
        in->Initialize();
        if((start == 1 && n <= 129) || (start == 2 && i % 16 == 0)) in->Start();
        held.push_back(in);
      }
      for(size_t i = 0; i < held.size(); i++) for(size_t j = i + 1; j < held.size(); j += 17) SEQ_CHECK(held[i]->GetBus() != held[j]->GetBus(), "instantiate", "%s: two instances share a bus", TRACE.c_str());
    }
    for(int k = 0; k < 2; k++) { if(how) t[k]->Unload(); verdict(); t[k].reset(); }
    verdict();
    fl::LIB[0].refs = 0;
    all_closed("at the end");
    state(TRACE);
  }
  // configurations with many entries, many files, large values, long texts
  void many_entries()
  {
    static const int SIZES[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200};
    static const int LARGE[] = {1, 15, 16, 17, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4000, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 70001};
    int shape = choose(8);
    bool large = shape >= 4;
    int n = large ? LARGE[choose(sizeof LARGE / sizeof *LARGE)] : SIZES[choose(sizeof SIZES / sizeof *SIZES)];
    mine();
    Place pl;
    fl::RUN = quick_run;
    std::list<std::string> files;
    std::vector<std::pair<std::string, std::string>> want;
    std::string text = "{\"plugins\": [";
    auto num = [](int i) { return std::to_string(i); };
    TRACE = "of shape " + num(shape) + " and size " + num(n);
    step();
    switch(shape)
    {
      case 0: for(int i = 0; i < n; i++) { text += std::string(i ? ", " : "") + "{\"type\": \"A\", \"configuration\": " + num(i) + "}"; want.push_back({"A", num(i)}); } break;
      case 1: for(int i = 0; i < n; i++) { text += std::string(i ? ", " : "") + (i % 2 ? "{\"type\": \"B\"}" : "{\"type\": \"unknown\"}"); if(i % 2) want.push_back({"B", "null"}); } break;
      case 2:
        for(int i = 0; i < n; i++) { std::string f = "f" + num(i); files.push_back(pl.p + "/" + f); pl.file(f, "{\"plugins\": [{\"type\": \"A\", \"configuration\": " + num(i) + "}]}"); want.push_back({"A", num(i)}); }
        break;
      case 3:
        for(int i = 0; i < n; i++) { std::string f = "f" + num(i); files.push_back(pl.p + "/" + f); if(i + 1 == n) { pl.file(f, "{\"plugins\": [{\"type\": \"B\"}]}"); want.push_back({"B", "null"}); } else if(i % 2) pl.file(f, "{"); }
        break;
      case 4: { std::string c = "["; for(int i = 0; i < n; i++) c += (i ? ", " : "") + num(i % 10); c += "]"; text += "{\"type\": \"A\", \"configuration\": " + c + "}"; want.push_back({"A", c}); break; }
      case 5: { std::string c(n, 'x'); text += "{\"type\": \"A\", \"configuration\": \"" + c + "\"}"; want.push_back({"A", "\"" + c + "\""}); break; }
      case 6: text += std::string(n, ' ') + "{\"type\": \"A\", \"configuration\": 7}" + std::string(n, '\n') + ", {\"type\": \"B\"}"; want.push_back({"A", "7"}); want.push_back({"B", "null"}); break;
      case 7: { std::string c(n, 'k'); text += "{\"type\": \"A\", \"" + c + "\": 1, \"configuration\": {\"" + c + "\": 5}}"; want.push_back({"A", "{" + c + ": 5}"}); break; }
    }
    if(files.empty()) { text += "]}"; pl.file("c.cfg", text); files.push_back(pl.p + "/c.cfg"); }
    run_app(pl, files, want);
  }

  const Scenario SC[] = {
    {"libraries", libraries, 3, 4, "2 libraries of 11 kinds x all sequences of loading, instantiating, unloading"},
    {"libraries_three", libraries_three, 2, 3, "3 libraries of 11 kinds x sequences"},
    {"candidates", candidates, 1, 1, "13 file names x file/directory/link, with neighbours"},
    {"templates", templates, 4, 5, "all sequences of instantiations (also failing) of two templates with similar names"},
    {"configs", configs, 1, 1, "12 documents x up to two of 17 plugin entries"},
    {"configs_three", configs_three, 1, 1, "three of 17 plugin entries"},
    {"many_instances", many_instances, 1, 1, "23 numbers of instances up to 400 of two templates with similar names x 4 orders x 3 ways of starting"},
    {"many_entries", many_entries, 1, 1, "20 numbers of plugin entries and files, 32 sizes of values and texts up to 70001"},
    {"config_files", config_files, 1, 1, "up to 3 of 7 kinds of files"},
  };
}
int main(int argc, char** argv) { return seq::main(argc, argv, SC, sizeof SC / sizeof *SC); }
