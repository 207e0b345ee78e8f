// Threads that use the value types and helpers at the same time: each on objects of its own, or reading a common one.
#define HARNESS_MAIN
#include "common.h"
#include <lamppost/Filesystem.h>
#include <lamppost/LampPostConfiguration.h>
#include <lamppost/data/RawBytes.h>
#include <lamppost/messages/Message.h>
#include <lamppost/settings/SettingsManager.h>
#include <lamppost/utilities/AntMatcher.h>
#include <lamppost/bus/ActionConsumer.h>
#include <lamppost/bus/ActionProvider.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>

// A JSON tokener may be used by one thread at a time: every use counts as a write to it.
#include <json-c/json.h>
extern "C"
{
  static std::vector<std::pair<json_tokener*, int*>> TOK;
  static void tok_use(json_tokener* t)
  {
    int* p = nullptr;
    { McQuiet q; for(auto& x : TOK) if(x.first == t) p = x.second; }
    if(p) *(volatile int*)p = *(volatile int*)p + 1;
  }
  static json_tokener* tok_new(json_tokener* t) { McQuiet q; TOK.push_back({t, new int(0)}); return t; }
  json_tokener* __real_json_tokener_new(void); json_tokener* __real_json_tokener_new_ex(int); void __real_json_tokener_free(json_tokener*);
  json_object* __real_json_tokener_parse_ex(json_tokener*, const char*, int); void __real_json_tokener_reset(json_tokener*);
  json_tokener* __wrap_json_tokener_new(void) { return tok_new(__real_json_tokener_new()); }
  json_tokener* __wrap_json_tokener_new_ex(int d) { return tok_new(__real_json_tokener_new_ex(d)); }
  void __wrap_json_tokener_free(json_tokener* t)
  {
    tok_use(t);
    { McQuiet q; for(size_t i = 0; i < TOK.size(); i++) if(TOK[i].first == t) { TOK.erase(TOK.begin() + i); break; } }
    __real_json_tokener_free(t);
  }
  json_object* __wrap_json_tokener_parse_ex(json_tokener* t, const char* s, int n) { tok_use(t); return __real_json_tokener_parse_ex(t, s, n); }
  void __wrap_json_tokener_reset(json_tokener* t) { tok_use(t); __real_json_tokener_reset(t); }
}

namespace
{
  using lp::messages::RawDatagram;
  using lp::data::RawBytes;
  using lp::Filesystem;
  using lp::FilesystemObjectType;
  typedef std::shared_ptr<RawBytes> BytesPtr;

  // Reading goes through const-less members; the oracle builds everything from scratch, per thread.
  Datagram tree(int k)
  {
    Datagram d;
    d["n"] = k;
    d["text"] = std::string("text ") + std::to_string(k);
    d["deep"]["er"]["x"] = 0.5 * k;
    d["flag"] = (k % 2) == 0;
    Datagram l;
    l.Add(std::make_shared<RawDatagram>(k));
    l.Add(std::make_shared<RawDatagram>(std::string(20 + k, 'l')));
    d["list"] = l;
    return d;
  }
  std::string tree_text(int k)
  {
    std::ostringstream o;
    o << "{deep: {er: {x: " << 0.5 * k << "}}, flag: " << (k % 2 == 0) << ", list: [" << k << ", \"" << std::string(20 + k, 'l') << "\"], n: " << k << ", text: \"text " << k << "\"}";
    return o.str();
  }
  template<class T> std::string text_of(const T& t) { std::ostringstream o; o << t; return o.str(); }
  void check_tree(Datagram& d, int k, const char* key, const char* what)
  {
    MC_CHECK(d.GetType() == RawDatagramType::Dictionary && d.GetCount() == 5, key, "%s: %u entries", what, d.GetCount());
    MC_CHECK(d["n"].Get<int>() == k && d["text"].Get<std::string>() == "text " + std::to_string(k) && d["deep"]["er"]["x"].Get<double>() == 0.5 * k && d["flag"].Get<bool>() == (k % 2 == 0), key, "%s: a value differs from what this thread stored", what);
    Datagram l = d["list"];
    MC_CHECK(l.GetCount() == 2 && l[0u].Get<int>() == k && l[1u].Get<std::string>() == std::string(20 + k, 'l'), key, "%s: a list item differs from what this thread stored", what);
  }

  // two or three threads run f(0), f(1), ...; the first alternative of "who" of a pair may also run twice
  template<class F> void together(int n, F f)
  {
    std::vector<std::thread> t;
    for(int i = 1; i < n; i++) t.emplace_back([f, i] { mc_point("start"); f(i); mc_point("end"); });
    mc_point("start");
    f(0);
    mc_point("end");
    for(auto& x : t) x.join();
    mc_outcome("ok");
  }
  int how_many() { return 2 + mc_choose(2, "threads"); }

  // ------------------------------------------------------------------ P20
  void conc_trees()
  {
    together(how_many(), [](int i) {
      Datagram d = tree(i);
      mc_point("built");
      check_tree(d, i, "ops", "own datagram");
      d["list"].Remove(0u);
      d["deep"].Remove(std::string("er"));
      d["n"] = std::string("now text");
      mc_point("changed");
      MC_CHECK(d["list"].GetCount() == 1 && d["list"][0u].Get<std::string>() == std::string(20 + i, 'l') && d["deep"].GetCount() == 0 && d["n"].Get<std::string>() == "now text", "ops", "thread %d: content", i);
      int thrown = 0;
      try { d["list"][7u]; } catch(lp::exceptions::IndexOutOfBoundsException&) { thrown |= 1; }
      try { d["n"].Get<double>(); } catch(lp::exceptions::InvalidOperationException&) { thrown |= 2; }
      try { d["deep"].Remove(std::string("er")); thrown |= 4; } catch(lp::exceptions::KeyNotFoundException&) { thrown |= 4; }
      MC_CHECK(thrown == 7, "ops", "thread %d: exceptions %d", i, thrown);
      Datagram e(true), f(2.5), g("literal"), h;
      MC_CHECK(e.Get<bool>() && f.Get<double>() == 2.5 && g.Get<std::string>() == "literal" && h.IsEmpty(), "ops", "thread %d: constructors", i);
      d.Clear();
      MC_CHECK(d.GetCount() == 0, "ops", "thread %d: clear", i);
    });
  }
  // ------------------------------------------------------------------ P21
  void conc_copies()
  {
    Datagram common = tree(5);
    Message message("root", "/t", tree(6));
    together(how_many(), [&](int i) {
      Datagram a(common), b, c = message.GetDatagram();
      b = common;
      mc_point("copied");
      a["n"] = 100 + i; a["deep"]["er"]["x"] = 100.0 + i; a["list"].Add(std::make_shared<RawDatagram>(i));
      b["list"].Remove(0u); b["text"] = std::string("mine");
      c["n"] = 200 + i; c["deep"].Clear();
      Message m2(message);
      mc_point("changed");
      MC_CHECK(a["n"].Get<int>() == 100 + i && a["deep"]["er"]["x"].Get<double>() == 100.0 + i && a["list"].GetCount() == 3, "copies", "the copy of thread %d", i);
      MC_CHECK(b["n"].Get<int>() == 5 && b["list"].GetCount() == 1 && b["text"].Get<std::string>() == "mine", "copies", "the second copy of thread %d", i);
      MC_CHECK(c["n"].Get<int>() == 200 + i, "copies", "the copy from the message of thread %d", i);
      Datagram d = m2.GetDatagram();
      check_tree(d, 6, "copies", "copy of the message");
    });
    check_tree(common, 5, "copies", "the original, after the copies were changed");
    Datagram d = message.GetDatagram();
    check_tree(d, 6, "copies", "the message's datagram, after the copies were changed");
  }
  // ------------------------------------------------------------------ P22
  void conc_equality()
  {
    Datagram common = tree(5);
    Message message("root", "/t", tree(6)), other("root", "/t2", tree(6));
    together(how_many(), [&](int i) {
      Datagram mine = tree(5), no = tree(5);
      no["deep"]["er"]["x"] = 77.0;
      mc_point("built");
      MC_CHECK(common == mine && mine == common && !(common == no) && !(no == mine), "equality", "thread %d: datagrams", i);
      Message m("root", "/t", tree(6));
      MC_CHECK(message == m && !(other == m) && !(m == other), "equality", "thread %d: messages", i);
    });
  }
  // ------------------------------------------------------------------ P23
  void conc_paths()
  {
    Datagram common = tree(5);
    together(how_many(), [&](int i) {
      Datagram mine = tree(i);
      MC_CHECK(mine.Get<double>("deep/er/x", -1.0) == 0.5 * i, "paths", "thread %d: own datagram", i);
      mc_point("read one");
      MC_CHECK(common.Get<double>("deep/er/x", -1.0) == 2.5 && common.Get<int>("n", -1) == 5 && common.Get<std::string>("text", "") == "text 5", "paths", "thread %d: a value", i);
      MC_CHECK(common.Get<int>("deep/er/y", -1 - i) == -1 - i && common.Get<int>("deep/er/x/z", 9) == 9 && common.Get<std::string>("nothing", "default") == "default", "paths", "thread %d: a default", i);
      MC_CHECK(common.KeyExists("n") && !common.KeyExists("m"), "paths", "thread %d: KeyExists", i);
    });
    check_tree(common, 5, "paths", "the datagram that was read");
  }
  // ------------------------------------------------------------------ P24
  void conc_wire()
  {
    Message common("root/child", "/t", tree(5));
    BytesPtr bytes = common.SerializeToBytes();
    together(how_many(), [&](int i) {
      Message mine("s" + std::to_string(i), "/topic" + std::to_string(i), tree(i));
      BytesPtr b = mine.SerializeToBytes();
      mc_point("serialized");
      Message back = Message::Deserialize(b);
      Datagram d = back.GetDatagram();
      MC_CHECK(back.GetSender() == "s" + std::to_string(i) && back.GetTopic() == "/topic" + std::to_string(i), "wire", "thread %d: sender or topic", i);
      check_tree(d, i, "wire", "own message over the wire");
      BytesPtr b2 = common.SerializeToBytes();
      Message back2 = Message::Deserialize(b2), back3 = Message::Deserialize(bytes);
      MC_CHECK(back2 == common && back3 == common, "wire", "thread %d: a common message over the wire", i);
    });
  }
  // ------------------------------------------------------------------ P25
  void conc_hostile()
  {
    Message common("root/child", "/t", tree(5));
    BytesPtr bytes = common.SerializeToBytes();
    int cut = mc_choose(4, "cut");
    together(how_many(), [&](int i) {
      if(i == 0)
      {
        std::string bad((const char*)bytes->GetContent(), bytes->GetSize() * cut / 4);
        bool thrown = false;
        for(int k = 0; k < 2; k++)
        {
          BytesPtr b = std::make_shared<RawBytes>((void*)bad.data(), bad.size());
          try { Message m = Message::Deserialize(b); Datagram d = m.GetDatagram(); text_of(m); } catch(lp::exceptions::OperationFailedException&) { thrown = true; }
          mc_point("refused");
        }
        if(cut == 0) MC_CHECK(thrown, "hostile", "no bytes make a message");
      }
      else
      {
        Message back = Message::Deserialize(bytes);
        mc_point("accepted");
        MC_CHECK(back == common, "hostile", "a valid message was not read while another thread read a broken one");
      }
    });
  }
  // ------------------------------------------------------------------ P26
  void conc_json()
  {
    together(how_many(), [](int i) {
      std::string n = std::to_string(i);
      std::string t = "{\"n\": " + n + ", \"text\": \"text " + n + "\", \"deep\": {\"er\": {\"x\": " + std::to_string(0.5 * i) + "}}, \"flag\": " + (i % 2 ? "false" : "true") + ", \"list\": [" + n + ", \"" + std::string(20 + i, 'l') + "\"]}";
      Datagram d = Datagram::DeserializeFromJson(t);
      mc_point("parsed");
      check_tree(d, i, "json", "own document");
      Datagram e = Datagram::DeserializeFromJson(t.substr(0, t.size() - 1));
      MC_CHECK(e.IsEmpty(), "json", "thread %d: an incomplete document", i);
    });
  }
  // ------------------------------------------------------------------ P27
  void conc_senders()
  {
    together(how_many(), [](int i) {
      std::string me = "node" + std::to_string(i);
      Message m("origin", "/t", tree(i));
      m.PrependSender(me);
      m.PrependSender("hop");
      mc_point("prepended");
      MC_CHECK(m.GetSender() == "hop/" + me + "/origin" && m.WasSentBySender("hop") && m.WasSentBySender("hop/" + me) && !m.WasSentBySender("ho") && !m.WasSentBySender(me), "senders", "thread %d: %s", i, m.GetSender().c_str());
      m.RemoveSender(me);
      MC_CHECK(m.GetSender() == "hop/" + me + "/origin", "senders", "thread %d: %s", i, m.GetSender().c_str());
      m.RemoveSender("hop");
      MC_CHECK(m.GetSender() == me + "/origin", "senders", "thread %d: %s", i, m.GetSender().c_str());
    });
  }
  // ------------------------------------------------------------------ P28
  void conc_bytes()
  {
    std::string base("common\0bytes", 12);
    RawBytes common((void*)base.data(), base.size());
    together(how_many(), [&](int i) {
      RawBytes mine(common), third;
      mine.Append("0123456789", 3 + i);
      third = mine;
      mc_point("appended");
      third.Append(third.GetContent(), third.GetSize());
      std::string want = base + std::string("0123456789", 3 + i);
      MC_CHECK(std::string((const char*)mine.GetContent(), mine.GetSize()) == want, "bytes", "thread %d: own buffer", i);
      MC_CHECK(std::string((const char*)third.GetContent(), third.GetSize()) == want + want, "bytes", "thread %d: doubled buffer", i);
      MC_CHECK(std::string((const char*)common.GetContent(), common.GetSize()) == base, "bytes", "thread %d: common buffer", i);
    });
  }
  // ------------------------------------------------------------------ P29
  char HOME[200];
  std::list<std::string> listing(const std::string& d, FilesystemObjectType t)
  {
    std::list<std::string> l = Filesystem::GetDirectoryContents(d, t);
    l.remove("."); l.remove("..");
    l.sort();
    return l;
  }
  void conc_files()
  {
    together(how_many(), [](int i) {
      std::string d = std::string(HOME) + "/d" + std::to_string(i);
      std::list<std::string> files = listing(d, FilesystemObjectType::File);
      mc_point("listed");
      std::list<std::string> all = listing(d, FilesystemObjectType::Any), dirs = listing(d, FilesystemObjectType::Directory);
      std::string f = "file" + std::to_string(i) + ".ext" + std::to_string(i), s = "sub" + std::to_string(i);
      MC_CHECK(files == std::list<std::string>{f} && dirs == std::list<std::string>{s} && all == (std::list<std::string>{f, s}), "fs", "thread %d: listing of %s: %d entries, %d files, %d directories", i, d.c_str(), (int)all.size(), (int)files.size(), (int)dirs.size());
      std::string p = Filesystem::CombinePaths(d, f);
      MC_CHECK(p == d + "/" + f && Filesystem::PathExists(p) && Filesystem::IsFile(p) && !Filesystem::IsDirectory(p) && Filesystem::IsDirectory(d) && !Filesystem::PathExists(p + "x"), "fs", "thread %d: tests", i);
      MC_CHECK(Filesystem::GetFilename(p) == f && Filesystem::GetBaseDirectory(p) == d, "fs", "thread %d: parts", i);
      std::string ext = Filesystem::GetFileExtension(p);
      MC_CHECK(ext.find("ext" + std::to_string(i)) != std::string::npos, "fs", "thread %d: extension %s", i, ext.c_str());
    });
  }
  // ------------------------------------------------------------------ P30
  void conc_configs()
  {
    BusPtr root = std::make_shared<Bus>("root");
    lp::LampPostConfiguration common(lp::PluginManagerConfiguration({"a", "b"}, root), {"x"});
    together(how_many(), [&](int i) {
      std::string own = "own" + std::to_string(i);
      lp::LampPostConfiguration mine(common), other(lp::PluginManagerConfiguration({"a", own}, root), {"x"});
      mc_point("copied");
      MC_CHECK(mine == common && !(mine != common) && other != common && !(common == other), "config", "thread %d: equality", i);
      mine.mConfigurationFiles.push_back(own);
      MC_CHECK(mine != common && mine.mConfigurationFiles.size() == 2, "config", "thread %d: a changed copy", i);
      lp::settings::SettingsManager s;
      s.AddPluginTemplateSearchPath(own); s.AddPluginTemplateSearchPath("a"); s.AddPluginTemplateSearchPath(own);
      MC_CHECK(s.GetPluginTemplateSearchPaths() == (std::list<std::string>{own, "a", own}), "config", "thread %d: search paths", i);
    });
  }
  // ------------------------------------------------------------------ P31
  void conc_printing()
  {
    Datagram common = tree(5);
    Message message("root", "/t", tree(6));
    together(how_many(), [&](int i) {
      Datagram mine = tree(i);
      std::string a = text_of(mine);
      mc_point("printed one");
      std::string b = text_of(common), c = text_of(message);
      MC_CHECK(a == tree_text(i), "printing", "thread %d: %s", i, a.c_str());
      MC_CHECK(b == tree_text(5), "printing", "thread %d: %s", i, b.c_str());
      MC_CHECK(c == "[root to /t]: " + tree_text(6), "printing", "thread %d: %s", i, c.c_str());
    });
  }
  // ------------------------------------------------------------------ P10
  void conc_topics()
  {
    together(how_many(), [](int i) {
      std::string t = "/topic" + std::to_string(i), u = "/topic" + std::to_string(i + 1);
      for(int k = 0; k < 2; k++)
      {
        MC_CHECK(lp::utilities::AntMatcher::Matches(t, t), "topic", "thread %d: its own topic", i);
        mc_point("matched");
        MC_CHECK(!lp::utilities::AntMatcher::Matches(t, u) && !lp::utilities::AntMatcher::Matches(u, t) && lp::utilities::AntMatcher::Matches("/**/*", u), "topic", "thread %d: another topic", i);
      }
    });
  }
  // ------------------------------------------------------------------ P01, P02: two trees in one process
  void roots_traffic()
  {
    BusPtr r[2], c[2]; SubPtr s[4]; PubPtr p[2];
    int names = mc_choose(2, "same names");
    for(int i = 0; i < 2; i++)
    {
      r[i] = std::make_shared<Bus>(names ? "root" : i ? "second" : "first");
      c[i] = r[i]->CreateChildBus("c");
      s[2 * i] = recorder(r[i], "/t", 1 + 2 * i);
      s[2 * i + 1] = recorder(c[i], "/**/*", 2 + 2 * i);
      p[i] = c[i]->CreatePublisher("/t");
    }
    {
      Runner a(r[0]), b(r[1]);
      std::thread t([&] { publish(p[1], 2, 11); });
      publish(p[0], 1, 1);
      t.join();
      settle();
      a.stop();
      publish(p[1], 2, 13);
      settle();
      b.stop();
    }
    for(int w = 1; w <= 2; w++) expect_received(w, {1}, "delivery", "the first of two trees");
    for(int w = 3; w <= 4; w++) expect_received(w, {11, 13}, "delivery", "the second of two trees");
    McQuiet q;
    for(int w = 1; w <= 4; w++) { std::vector<int> g = received_list(w); for(size_t i = 1; i < g.size(); i++) MC_CHECK(g[i] > g[i - 1], "order", "subscriber %d received [%s]", w, received(w).c_str()); }
    mc_outcome("ok");
  }
  // ------------------------------------------------------------------ P11
  void roots_actions()
  {
    BusPtr r[2]; std::shared_ptr<lp::bus::ActionProvider> p[2]; std::shared_ptr<lp::bus::ActionConsumer> co[2];
    static int served[2]; served[0] = served[1] = 0;
    for(int i = 0; i < 2; i++)
    {
      r[i] = std::make_shared<Bus>("root");
      p[i] = r[i]->CreateActionProvider("/act", [i](std::shared_ptr<lp::bus::ActionProvider> pr, std::string id, Datagram d) {
        { McQuiet q; served[i]++; }
        pr->Respond(id, numbered(number_of(d["request"]) + 100 * (i + 1)));
      });
      co[i] = r[i]->CreateActionConsumer("/act");
    }
    Runner a(r[0]), b(r[1]);
    Datagram x, y;
    std::thread t([&] { y = co[1]->Request(numbered(2), 100); });
    x = co[0]->Request(numbered(1), 100);
    t.join();
    a.stop(); b.stop();
    MC_CHECK(number_of(x) == 101 && number_of(y) == 202, "rpc", "requests in two trees got %d and %d", number_of(x), number_of(y));
    MC_CHECK(served[0] == 1 && served[1] == 1, "rpc", "providers served %d and %d", served[0], served[1]);
    mc_outcome("ok");
  }

  const mc_scenario SC[] = {
    {"conc_trees", conc_trees, 2, 3, 0, "2 and 3 threads build and change datagrams of their own"},
    {"conc_copies", conc_copies, 2, 3, 0, "2 and 3 threads copy one datagram and one message and change their copies"},
    {"conc_equality", conc_equality, 2, 3, 0, "2 and 3 threads compare with one datagram and one message"},
    {"conc_paths", conc_paths, 2, 3, 0, "2 and 3 threads read one datagram by path"},
    {"conc_wire", conc_wire, 2, 3, 0, "2 and 3 threads serialize and deserialize own and common messages"},
    {"conc_hostile", conc_hostile, 2, 3, 0, "a thread reads cut off messages while others read good ones"},
    {"conc_json", conc_json, 2, 3, 0, "2 and 3 threads parse documents"},
    {"conc_senders", conc_senders, 2, 3, 0, "2 and 3 threads change sender paths of own messages"},
    {"conc_bytes", conc_bytes, 2, 3, 0, "2 and 3 threads copy one buffer and change their copies"},
    {"conc_files", conc_files, 2, 3, 0, "2 and 3 threads list and test files"},
    {"conc_configs", conc_configs, 2, 3, 0, "2 and 3 threads copy and compare configurations"},
    {"conc_printing", conc_printing, 2, 3, 0, "2 and 3 threads print own and common datagrams"},
    {"conc_topics", conc_topics, 2, 3, 0, "2 and 3 threads match topics"},
    {"roots_traffic", roots_traffic, 1, 2, 0, "two trees of buses run in one process, a publishing thread each"},
    {"roots_actions", roots_actions, 1, 2, 0, "requests in two trees that run in one process"},
  };
}

int main(int argc, char** argv)
{
  snprintf(HOME, sizeof HOME, "%.150s/conc-%d", getenv("LP_SCRATCH") ? getenv("LP_SCRATCH") : "/tmp", (int)getpid());
  mkdir(HOME, 0700);
  std::vector<std::string> made;
  for(int i = 0; i < 3; i++)
  {
    std::string n = std::to_string(i), d = std::string(HOME) + "/d" + n, f = d + "/file" + n + ".ext" + n, s = d + "/sub" + n;
    mkdir(d.c_str(), 0700); mkdir(s.c_str(), 0700);
    int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0600); if(fd >= 0) close(fd);
    for(auto& x : {f, s, d}) made.push_back(x);
  }
  int rc = mc_main(argc, argv, SC, sizeof SC / sizeof *SC);
  for(auto& m : made) if(unlink(m.c_str())) rmdir(m.c_str());
  rmdir(HOME);
  return rc;
}
