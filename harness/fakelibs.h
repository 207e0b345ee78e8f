// Stand-ins for dlopen/dlsym/dlclose and for plugin libraries: which files exist, what they export,
// whether the calls fail, and what happens to the instances is under the harness's control.
// The including harness defines FL_QUIET (scope guard) and void fl_bad(const char* key, const std::string& what).
#pragma once
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>
#include <atomic>
#include <stdexcept>

void fl_bad(const char* key, const std::string& what);

namespace fl
{
  enum Kind { GOOD_A, GOOD_B, NO_OPEN, NO_INFO, NULL_INFO, EMPTY_ID, NO_CREATE, CLOSE_FAILS, NULL_INSTANCE, THROWS, KINDS };
  inline const char* kind_name(int k) { static const char* N[] = {"good A", "good B", "dlopen fails", "no CreateInfo", "CreateInfo gives null", "empty identifier", "no CreateInstance", "dlclose fails", "CreateInstance gives null", "CreateInstance throws"}; return N[k]; }
  const int MAXLIB = 6, MAXINST = 1024;
  struct Lib { std::string path; int kind; int refs, opens, closes; };
  struct Inst
  {
    int lib; std::string id;
    std::string config;
    bool alive, started;
    std::atomic<int> inRun; int runs, inits, deinits;
    std::string log;
  };
  static Lib LIB[MAXLIB];
  static Inst INST[MAXINST];
  static int NLIB, NINST;
  static std::string ORDER;          // events over all instances
  static void (*RUN)(int inst, std::atomic<bool>& shouldRun, lp::PluginInstance& self) = nullptr;
  static void (*INIT)(int inst, lp::PluginInstance& self) = nullptr;
  static void (*DEINIT)(int inst, lp::PluginInstance& self) = nullptr;

  inline void reset() { for(auto& l : LIB) { l.path.clear(); l.refs = l.opens = l.closes = 0; } for(auto& i : INST) { i.alive = false; } NLIB = NINST = 0; ORDER.clear(); RUN = nullptr; INIT = nullptr; DEINIT = nullptr; }
  inline int add(const std::string& path, int kind) { Lib& l = LIB[NLIB]; l.path = path; l.kind = kind; l.refs = l.opens = l.closes = 0; return NLIB++; }
  inline void code(int lib, const char* what) { if(LIB[lib].refs <= 0) fl_bad("use-after-close", std::string(what) + " of the library " + LIB[lib].path + " is called although the library is closed"); }

  class Plugin : public lp::PluginInstance
  {
  public:
    int k;
    Plugin(int lib, lp::PluginConfiguration c) : lp::PluginInstance(c)
    {
      FL_QUIET;
      k = NINST++;
      Inst& i = INST[k];
      i.lib = lib; i.id = c.mIdentifier; i.alive = true; i.started = false; i.inRun = 0; i.runs = i.inits = i.deinits = 0; i.log.clear();
      std::ostringstream o; o << GetCustomConfiguration(); i.config = o.str();
      ORDER += "new(" + i.id + ") ";
    }
    ~Plugin() override
    {
      FL_QUIET;
      code(INST[k].lib, "the destructor of an instance");
      if(INST[k].inRun) fl_bad("destroyed-while-running", "the instance " + INST[k].id + " is destroyed while its Run is still executing");
      INST[k].alive = false;
      ORDER += "delete(" + INST[k].id + ") ";
    }
    void Initialize() override
    {
      { FL_QUIET; code(INST[k].lib, "Initialize"); INST[k].inits++; ORDER += "init(" + INST[k].id + ") "; }
      if(INIT) INIT(k, *this);
    }
    void Run() override
    {
      { FL_QUIET; code(INST[k].lib, "Run"); INST[k].runs++; if(INST[k].inRun++) fl_bad("two-workers", "Run of " + INST[k].id + " is executed by two threads"); if(INST[k].deinits) fl_bad("run-after-deinitialize", "Run of " + INST[k].id + " begins after Deinitialize"); }
      if(RUN) RUN(k, mShouldRun, *this);
      else while(mShouldRun) Sleep(std::chrono::milliseconds(1));
      { FL_QUIET; code(INST[k].lib, "Run"); INST[k].inRun--; }
    }
    void Deinitialize() override
    {
      {
        FL_QUIET;
        code(INST[k].lib, "Deinitialize"); INST[k].deinits++;
        if(INST[k].inRun) fl_bad("deinitialize-while-running", "Deinitialize of " + INST[k].id + " is called while its Run is still executing");
        ORDER += "deinit(" + INST[k].id + ") ";
      }
      if(DEINIT) DEINIT(k, *this);
    }
  };

  template<int L> lp::PluginTemplateInfo* create_info()
  {
    FL_QUIET;
    code(L, "CreateInfo");
    if(LIB[L].kind == NULL_INFO) return nullptr;
    lp::PluginTemplateInfo* i = new lp::PluginTemplateInfo();
    i->mIdentifier = LIB[L].kind == GOOD_B ? "B" : LIB[L].kind == EMPTY_ID ? "" : LIB[L].kind == NULL_INSTANCE ? "N" : LIB[L].kind == THROWS ? "T" : "A";
    i->mVersion = lp::Version(1, 2, 3, L);
    return i;
  }
  template<int L> lp::PluginInstance* create_instance(lp::PluginConfiguration c)
  {
    { FL_QUIET; code(L, "CreateInstance"); }
    if(LIB[L].kind == NULL_INSTANCE) return nullptr;
    if(LIB[L].kind == THROWS) throw lp::exceptions::OperationFailedException("the plugin does not want to live");
    return new Plugin(L, c);
  }
  static void* const INFO[MAXLIB] = {(void*)create_info<0>, (void*)create_info<1>, (void*)create_info<2>, (void*)create_info<3>, (void*)create_info<4>, (void*)create_info<5>};
  static void* const CREATE[MAXLIB] = {(void*)create_instance<0>, (void*)create_instance<1>, (void*)create_instance<2>, (void*)create_instance<3>, (void*)create_instance<4>, (void*)create_instance<5>};
  static std::string UNEXPECTED;      // files opened that are no plugin libraries
}

extern "C"
{
  void* __wrap_dlopen(const char* path, int)
  {
    FL_QUIET;
    for(int i = 0; i < fl::NLIB; i++)
      if(path && fl::LIB[i].path == path)
      {
        if(fl::LIB[i].kind == fl::NO_OPEN) { fl::LIB[i].opens++; return nullptr; }
        fl::LIB[i].opens++; fl::LIB[i].refs++;
        return &fl::LIB[i];
      }
    fl::UNEXPECTED += std::string(path ? path : "(null)") + " ";
    return nullptr;
  }
  void* __wrap_dlsym(void* h, const char* name)
  {
    FL_QUIET;
    fl::Lib* l = (fl::Lib*)h;
    if(l < fl::LIB || l >= fl::LIB + fl::NLIB) { fl_bad("bad-handle", std::string("dlsym(") + name + ") on something that is no library handle"); return nullptr; }
    if(l->refs <= 0) fl_bad("use-after-close", std::string("dlsym(") + name + ") on the closed library " + l->path);
    int i = (int)(l - fl::LIB);
    if(!strcmp(name, "CreateInfo")) return l->kind == fl::NO_INFO ? nullptr : fl::INFO[i];
    if(!strcmp(name, "CreateInstance")) return l->kind == fl::NO_CREATE ? nullptr : fl::CREATE[i];
    return nullptr;
  }
  int __wrap_dlclose(void* h)
  {
    FL_QUIET;
    fl::Lib* l = (fl::Lib*)h;
    if(l < fl::LIB || l >= fl::LIB + fl::NLIB) { fl_bad("bad-handle", "dlclose on something that is no library handle"); return -1; }
    if(l->refs <= 0) { fl_bad("closed-twice", "the library " + l->path + " is closed more often than it was opened"); return -1; }
    l->refs--; l->closes++;
    if(l->refs == 0)
      for(int k = 0; k < fl::NINST; k++)
        if(fl::INST[k].alive && fl::INST[k].lib == (int)(l - fl::LIB)) fl_bad("closed-in-use", "the library " + l->path + " is closed while its instance " + fl::INST[k].id + " exists");
    return l->kind == fl::CLOSE_FAILS ? -1 : 0;
  }
  char* __wrap_dlerror() { static char e[] = "stand-in error"; return e; }
}
