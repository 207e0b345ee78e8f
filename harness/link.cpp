// The two plugins that come with LampPost: Link (bus to bus over ZMQ) and SysInfo.
#define HARNESS_MAIN
#include "common.h"
#include <lamppost/bus/ActionConsumer.h>
#include <lamppost/plugin/PluginInstance.h>
#include "fakezmq.h"
#include <algorithm>

extern "C" lp::PluginInstance* link_CreateInstance(lp::PluginConfiguration);
extern "C" lp::PluginInstance* sysinfo_CreateInstance(lp::PluginConfiguration);

namespace
{
  typedef std::shared_ptr<lp::PluginInstance> PlugPtr;
  void pause_ms(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

  Datagram roles(bool server, bool client)
  {
    Datagram d;
    if(server) d["server-role"]["enabled"] = true;
    if(client) d["client-role"]["enabled"] = true;
    if(server && client)       // a client of another server
    {
      d["client-role"]["port-pub"] = 7968;
      d["client-role"]["port-sub"] = 7967;
    }
    return d;
  }
  PlugPtr make(lp::PluginInstance* (*creator)(lp::PluginConfiguration), BusPtr root, const std::string& id, Datagram custom)
  {
    lp::PluginConfiguration c;
    c.mIdentifier = id;
    c.mBus = root->CreateChildBus(id);
    c.mCustomConfiguration = custom;
    return PlugPtr(creator(c));
  }
  PlugPtr link(BusPtr root, const std::string& id, Datagram custom) { return make(link_CreateInstance, root, id, custom); }

  // the n-th created socket of a type that carries this port
  fz::Socket* sock(int type, const char* port, int skip = 0)
  {
    McQuiet q;
    for(fz::Socket* s : fz::all) if(s->type == type) for(auto& a : s->at) if(fz::port_of(a) == port && skip-- == 0) return s;
    mc_fail("endpoint", "there is no %s socket for port %s", type == ZMQ_PUB ? "PUB" : "SUB", port);
    return nullptr;
  }

  // ---- messages in both representations
  std::string to_bytes(Message m) { std::shared_ptr<lp::data::RawBytes> b = m.SerializeToBytes(); return std::string((const char*)b->GetContent(), b->GetSize()); }
  Message from_parts(const fz::Parts& p, bool& ok)
  {
    std::string all;
    for(size_t i = 1; i < p.size(); i++) all += p[i];
    ok = !p.empty() && p[0] == "A" && !all.empty();
    if(!ok) return Message();
    std::shared_ptr<lp::data::RawBytes> b = std::make_shared<lp::data::RawBytes>();
    b->Append(all.data(), all.size());
    try { return Message::Deserialize(b); } catch(std::exception&) { ok = false; }
    return Message();
  }
  Datagram body(int n)
  {
    Datagram d = numbered(n);
    d["list"].Add(std::make_shared<lp::messages::RawDatagram>(n % 2 ? 1.5 : -2.25));
    d["list"].Add(std::make_shared<lp::messages::RawDatagram>(std::string(n % 3, '\0') + "x"));
    d["flag"] = n % 2 == 0;
    return d;
  }
  std::string describe(Message m) { std::stringstream s; s << m; return s.str(); }

  // everything a bus sees
  struct Seen { std::vector<Message> m; int who; };
  SubPtr watch(BusPtr b, Seen& seen, int who)
  {
    seen.who = who;
    Seen* s = &seen;
    SubPtr sub = b->CreateSubscriber("/**/*");
    sub->SetMessageCallback([s](Message m) {
      int n = number_of(m.GetDatagram());
      log_ev(EV_RECV, s->who, n);
      McQuiet q;
      s->m.push_back(m);
    });
    return sub;
  }
  // what a PUB socket handed to the network
  std::vector<Message> outgoing(fz::Socket* s, const char* what)
  {
    McQuiet q;
    std::vector<Message> r;
    for(auto& p : s->sent) { bool ok; Message m = from_parts(p, ok); if(!ok) mc_fail("link-format", "%s: something was sent that the other end cannot read", what); r.push_back(m); }
    return r;
  }
  std::vector<int> numbers(std::vector<Message>& v) { std::vector<int> r; for(auto& m : v) r.push_back(number_of(m.GetDatagram())); return r; }
  std::string text(const std::vector<int>& v) { std::string s; for(int x : v) s += (s.empty() ? "" : " ") + std::to_string(x); return s; }
  // exactly these numbers; numbers below 50 / from 50 on come from one source each and keep their order
  void same_numbers(std::vector<int> got, std::vector<int> want, const char* key, const char* what)
  {
    McQuiet q;
    std::vector<int> a = got, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if(a != b) mc_fail(key, "%s: [%s] instead of exactly [%s]", what, text(got).c_str(), text(want).c_str());
    for(size_t i = 0; i < got.size(); i++)
      for(size_t j = i + 1; j < got.size(); j++)
        if(got[i] / 50 == got[j] / 50 && got[i] > got[j]) mc_fail("link-order", "%s: %d comes after %d", what, got[j], got[i]);
  }
  void clean()
  {
    McQuiet q;
    for(fz::Socket* s : fz::all) if(s->open) mc_fail("zmq-leak", "a socket stays open after the plugin was deinitialized");
    for(fz::Context* c : fz::contexts) if(!c->termed) mc_fail("zmq-leak", "the context is not terminated after the plugin was deinitialized");
    if(fz::messagesOpen) mc_fail("zmq-leak", "%d ZMQ messages were not closed", fz::messagesOpen);
  }
  void unload(PlugPtr& p) { p->Stop(); p->Deinitialize(); clean(); p = nullptr; }

  // ------------------------------------------------------------------ forwarding
  struct Want { int n; std::string sender, topic; };
  void faithful(std::vector<Message>& got, const std::vector<Want>& want, const char* what)
  {
    McQuiet q;
    for(Message& m : got)
      for(auto& w : want)
        if(w.n == number_of(m.GetDatagram()))
          if(m.GetSender() != w.sender || m.GetTopic() != w.topic || !(m.GetDatagram() == body(w.n)))
            mc_fail("link-content", "%s: message %d from '%s' on '%s' became %s", what, w.n, w.sender.c_str(), w.topic.c_str(), describe(m).c_str());
  }
  void tell(BusPtr b, const char* topic, int n) { Datagram d = body(n); b->Publish(Message(b->GetIdentifier(), topic, d)); }

  void link_out()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    int kind = mc_choose(3, "roles");
    PlugPtr p = link(root, "Link0", roles(kind != 1, kind != 0));
    Seen seen;
    SubPtr s = watch(root, seen, 1);
    p->Initialize();
    Runner run(root);
    p->Start();
    PubPtr pub = c->CreatePublisher("/b/c");
    std::thread t1([&] { Datagram d = body(51); pub->Publish(d); });
    tell(root, "/a", 1);
    root->Publish(Message("Link0/elsewhere", "/a", body(2)));      // came in through this link
    p->GetPublisher("/own")->Publish(body(3));                      // the link's own bus
    t1.join();
    pause_ms(5);
    p->Stop();
    run.stop();
    std::vector<fz::Socket*> pubs;
    if(kind != 1) pubs.push_back(sock(ZMQ_PUB, "6967"));
    if(kind != 0) pubs.push_back(sock(ZMQ_PUB, kind == 1 ? "6968" : "7968"));
    for(fz::Socket* k : pubs)
    {
      std::vector<Message> out = outgoing(k, "link");
      same_numbers(numbers(out), {1, 3, 51}, "link-out", "messages sent to the other end");
      faithful(out, {{1, "root", "/a"}, {3, "Link0", "/own"}, {51, "c", "/b/c"}}, "messages sent to the other end");
    }
    same_numbers(numbers(seen.m), {1, 2, 3, 51}, "link-out", "local bus");
    unload(p);
    outcome_of({1});
  }
  // senders that resemble the link's own identifier
  void link_senders()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = link(root, "Link1", roles(true, true));
    Seen seen;
    SubPtr s = watch(root, seen, 1);
    p->Initialize();
    Runner run(root);
    p->Start();
    static const char* senders[] = {"root", "Link1", "Link10", "Link10/root", "Link", "Link/Link1/x", "x/Link1/y", "xLink1/y", "", "Link1 /x", "link1/root"};
    static const char* through[] = {"Link1/root", "Link1/Link1/root", "Link1/", "Link1/other/Link1"};
    std::vector<int> want, all;
    std::vector<Want> w;
    int n = 0;
    for(auto x : senders) { ++n; want.push_back(n); all.push_back(n); w.push_back({n, x, "/t"}); root->Publish(Message(x, "/t", body(n))); }
    for(auto x : through) { ++n; all.push_back(n); root->Publish(Message(x, "/t", body(n))); }
    static const char* topics[] = {"/a/b/c/d", "plain", "", "/", "/**/*", "A", "/a b", "/\xc3\xa4"};
    for(auto x : topics) { ++n; want.push_back(n); all.push_back(n); w.push_back({n, "root", x}); tell(root, x, n); }
    pause_ms(5);
    p->Stop();
    run.stop();
    for(auto port : {"6967", "7968"})
    {
      std::vector<Message> out = outgoing(sock(ZMQ_PUB, port), "link");
      same_numbers(numbers(out), want, "link-out", "messages sent to the other end");
      faithful(out, w, "messages sent to the other end");
    }
    same_numbers(numbers(seen.m), all, "link-out", "local bus");
    unload(p);
  }
  void link_in()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    PlugPtr p = link(root, "Link0", roles(true, true));
    Seen seen, seenChild;
    SubPtr s = watch(root, seen, 1), sc = watch(c, seenChild, 2);
    p->Initialize();
    Runner run(root);
    p->Start();
    fz::Socket *a = sock(ZMQ_SUB, "6968"), *b = sock(ZMQ_SUB, "7967");
    std::string m1 = to_bytes(Message("far", "/x", body(1))), m2 = to_bytes(Message("Link0/far", "/y/z", body(2))), m3 = to_bytes(Message("c", "/z", body(51)));
    std::thread t1([&] { tell(c, "/local", 101); });
    fz::inject(a, {"A", m1});
    fz::inject(a, {"A", m2.substr(0, 7), m2.substr(7, 1), "", m2.substr(8)});
    fz::inject(b, {"A", m3});
    t1.join();
    pause_ms(8);
    p->Stop();
    run.stop();
    same_numbers(numbers(seen.m), {1, 2, 51, 101}, "link-in", "local bus");
    same_numbers(numbers(seenChild.m), {1, 2, 51, 101}, "link-in", "child bus");
    std::vector<Want> w{{1, "Link0/far", "/x"}, {2, "Link0/Link0/far", "/y/z"}, {51, "Link0/c", "/z"}, {101, "c", "/local"}};
    faithful(seen.m, w, "local bus");
    faithful(seenChild.m, w, "child bus");
    for(auto port : {"6967", "7968"})
    {
      std::vector<Message> out = outgoing(sock(ZMQ_PUB, port), "link");
      same_numbers(numbers(out), {101}, "link-echo", "messages sent to the other end");
    }
    unload(p);
    outcome_of({1});
  }
  // two applications, each with a link
  void pair_of(const char* ida, const char* idb)
  {
    MuteCout mute;
    BusPtr ra = std::make_shared<Bus>("ra"), rb = std::make_shared<Bus>("rb");
    PlugPtr pa = link(ra, ida, roles(true, false)), pb = link(rb, idb, roles(false, true));
    Seen sa, sb;
    SubPtr x = watch(ra, sa, 1), y = watch(rb, sb, 2);
    pa->Initialize();
    pb->Initialize();
    {
      Runner runa(ra), runb(rb);
      pa->Start();
      pb->Start();
      std::thread t1([&] { tell(rb, "/b", 51); });
      tell(ra, "/a", 1);
      tell(ra, "/a", 2);
      t1.join();
      pause_ms(8);
      pa->Stop();
      pb->Stop();
      runa.stop();
      runb.stop();
    }
    same_numbers(numbers(sa.m), {1, 2, 51}, "link-pair", "first application");
    same_numbers(numbers(sb.m), {1, 2, 51}, "link-pair", "second application");
    faithful(sa.m, {{1, "ra", "/a"}, {2, "ra", "/a"}, {51, std::string(ida) + "/rb", "/b"}}, "first application");
    faithful(sb.m, {{51, "rb", "/b"}, {1, std::string(idb) + "/ra", "/a"}, {2, std::string(idb) + "/ra", "/a"}}, "second application");
    pa->Deinitialize();
    pb->Deinitialize();
    clean();
    outcome_of({1, 2});
  }
  void link_pair() { pair_of("Link0", "Link0"); }
  void link_pair_other() { pair_of("East0", "West3"); }
  // an action across the link
  void link_action()
  {
    MuteCout mute;
    BusPtr ra = std::make_shared<Bus>("ra"), rb = std::make_shared<Bus>("rb");
    PlugPtr pa = link(ra, "Link0", roles(true, false)), pb = link(rb, "Link0", roles(false, true));
    std::shared_ptr<lp::bus::ActionProvider> prov = ra->CreateActionProvider("/act", [](std::shared_ptr<lp::bus::ActionProvider> p, std::string id, Datagram r) {
      Datagram q = r.KeyExists("request") ? r["request"] : r;
      int n = number_of(q);
      log_ev(EV_RECV, 9, n);
      p->Respond(id, numbered(n + 100));
    });
    std::shared_ptr<lp::bus::ActionConsumer> cons = rb->CreateActionConsumer("/act");
    pa->Initialize();
    pb->Initialize();
    {
      Runner runa(ra), runb(rb);
      pa->Start();
      pb->Start();
      Datagram r = cons->Request(numbered(1), 50);
      MC_CHECK(!r.IsEmpty() && number_of(r) == 101, "link-action", "a request across the link was not answered");
      cons->RequestAsync(numbered(2), [](Datagram d) { log_ev(EV_RECV, 1, number_of(d)); });
      pause_ms(8);
      pa->Stop();
      pb->Stop();
      runa.stop();
      runb.stop();
    }
    expect_received(9, {1, 2}, "link-action", "provider");
    expect_received(1, {102}, "link-action", "requester");
    pa->Deinitialize();
    pb->Deinitialize();
    clean();
  }


  // large messages, many messages waiting at once, many parts
  void link_sizes()
  {
    static const int SIZES[] = {1, 15, 16, 17, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70001};
    static const int COUNTS[] = {2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513};
    MuteCout mute;
    int what = mc_choose(4, "what"), n = what == 0 || what == 3 ? SIZES[pick(sizeof SIZES / sizeof *SIZES)] : COUNTS[pick(sizeof COUNTS / sizeof *COUNTS)];
    bool client = mc_choose(2, "role");
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = link(root, "Link0", roles(!client, client));
    std::vector<int> in, want, wantOut; bool same = true;
    std::string blob;
    { McQuiet q; blob = std::string(what == 1 || what == 2 ? 10 : n, 'b'); for(size_t i = 0; i < blob.size(); i++) blob[i] = (char)(i * 7 + i / 251); }
    auto content = [&](int i) { McQuiet q; Datagram d = numbered(i); if(what != 3) d["blob"] = blob; return d; };
    std::string topic, far;
    { McQuiet q; topic = what == 3 ? "/" + std::string(n, 't') : "/x"; far = what == 3 ? std::string(n, 's') : "far"; }
    SubPtr s = root->CreateSubscriber("/**/*");
    s->SetMessageCallback([&](Message m) { McQuiet q; int i = number_of(m.GetDatagram()); in.push_back(i); if(!(m.GetDatagram() == content(i)) || m.GetTopic() != topic || m.GetSender() != (i < 1000 ? "Link0/" + far : far)) same = false; });
    p->Initialize();
    Runner run(root);
    fz::Socket *k = sock(ZMQ_SUB, client ? "6967" : "6968"), *o = sock(ZMQ_PUB, client ? "6968" : "6967");
    int count = what == 1 ? n : 2;
    for(int i = 1; i <= count; i++)
    {
      McQuiet q;
      std::string m = to_bytes(Message(far, topic, content(i)));
      fz::Parts parts{"A"};
      if(what == 2) { int pn = std::min<int>(n, m.size()); for(int j = 0; j < pn; j++) { size_t a = m.size() * j / pn, b = m.size() * (j + 1) / pn; parts.push_back(m.substr(a, b - a)); } }
      else parts.push_back(m);
      mc_quiet(0);
      fz::inject(k, parts);
      mc_quiet(1);
      want.push_back(i);
    }
    for(int i = 1; i <= (what == 2 ? 2 : count); i++) { root->Publish(Message(far, topic, content(1000 + i))); McQuiet q; wantOut.push_back(1000 + i); want.push_back(1000 + i); }
    p->Start();
    pause_ms(3 * n > 3000 || what != 1 ? 20 : 20 + 3 * n);
    p->Stop();
    run.stop();
    McQuiet q;
    std::vector<int> io[2];
    for(int i : in) io[i >= 1000].push_back(i);
    std::vector<int> all = io[0]; all.insert(all.end(), io[1].begin(), io[1].end());
    MC_CHECK(all == want, "link-sizes", "the local bus saw %zu messages from the other end and %zu local ones instead of %d and %zu", io[0].size(), io[1].size(), count, wantOut.size());
    MC_CHECK(same, "link-content", "a message of %zu bytes changed on its way in", blob.size());
    std::vector<int> got;
    for(auto& x : o->sent)
    {
      bool ok; Message m = from_parts(x, ok);
      MC_CHECK(ok, "link-format", "something was sent that the other end cannot read");
      got.push_back(number_of(m.GetDatagram()));
      MC_CHECK(m.GetDatagram() == content(got.back()) && m.GetTopic() == topic && m.GetSender() == far, "link-content", "a message of %zu bytes changed on its way out", blob.size());
    }
    MC_CHECK(got == wantOut, "link-sizes", "%zu messages were sent to the other end instead of %zu", got.size(), wantOut.size());
    mc_quiet(0);
    unload(p);
    mc_quiet(1);
    mc_outcome(what == 0 ? "size" : what == 1 ? "count" : what == 2 ? "parts" : "names");
  }

  // ------------------------------------------------------------------ robustness
  void around(const fz::Parts& bad, bool client)
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = link(root, "Link0", roles(!client, client));
    Seen seen;
    SubPtr s = watch(root, seen, 1);
    p->Initialize();
    Runner run(root);
    p->Start();
    fz::Socket* k = sock(ZMQ_SUB, client ? "6967" : "6968");
    fz::inject(k, {"A", to_bytes(Message("far", "/x", body(1)))});
    fz::inject(k, bad);
    fz::inject(k, {"A", to_bytes(Message("far", "/x", body(2)))});
    pause_ms(6);
    tell(root, "/a", 51);
    pause_ms(3);
    p->Stop();
    run.stop();
    same_numbers(numbers(seen.m), {1, 2, 51}, "link-malformed", "local bus around a malformed message");
    std::vector<Message> out = outgoing(sock(ZMQ_PUB, client ? "6968" : "6967"), "link");
    same_numbers(numbers(out), {51}, "link-malformed", "messages sent to the other end");
    unload(p);
  }
  void link_bad()
  {
    std::string good = to_bytes(Message("far", "/x", body(9)));
    fz::Parts p{"A"};
    int k = mc_choose(12, "message");
    if(k == 1) p.push_back("");
    if(k == 2) { p.push_back(""); p.push_back(""); p.push_back(""); }
    if(k == 3) p.push_back("x");
    if(k == 4) p.push_back(std::string(200, '\0'));
    if(k == 5) p.push_back(std::string(200, '\xff'));
    if(k == 6) p.push_back(good.substr(4));
    if(k == 7) { p.push_back(good.substr(8)); p.push_back(good.substr(0, 8)); }
    if(k == 8) p.push_back("{\"n\": 1}");
    if(k == 9) p[0] = "";                            // filtered out by the subscription
    if(k == 10) { p[0] = "B"; p.push_back(good); }   // likewise
    if(k == 11) { p[0] = "Axyz"; p.push_back("\1"); }
    around(p, mc_choose(2, "role"));
  }
  // every truncation of a message (shorter ones step by step)
  void link_truncated()
  {
    std::string good = to_bytes(Message("far", "/x", body(9)));
    int a = mc_choose(16, "length/16"), b = mc_choose(16, "length%16");
    size_t n = a * 16 + b;
    if(n >= good.size()) { mc_outcome("-"); return; }
    around({"A", good.substr(0, n)}, false);
  }
  // forwarding goes on when the worker is stopped and started again
  void link_restart()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = link(root, "Link0", roles(true, true));
    Seen seen;
    SubPtr s = watch(root, seen, 1);
    p->Initialize();
    Runner run(root);
    p->Start();
    fz::Socket* k = sock(ZMQ_SUB, "6968");
    fz::inject(k, {"A", to_bytes(Message("far", "/x", body(1)))});
    p->Stop();
    fz::inject(k, {"A", to_bytes(Message("far", "/x", body(2)))});
    tell(root, "/a", 51);
    p->Start();
    pause_ms(6);
    p->Stop();
    run.stop();
    same_numbers(numbers(seen.m), {1, 2, 51}, "link-in", "local bus");
    std::vector<Message> out = outgoing(sock(ZMQ_PUB, "6967"), "link");
    same_numbers(numbers(out), {51}, "link-out", "messages sent to the other end");
    unload(p);
  }
  // taken down with traffic in both directions
  void link_shutdown()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = link(root, "Link0", roles(true, true));
    Seen seen;
    SubPtr s = watch(root, seen, 1);
    p->Initialize();
    Runner run(root);
    p->Start();
    fz::Socket *k = sock(ZMQ_SUB, "6968"), *o = sock(ZMQ_PUB, "6967");
    std::string m = to_bytes(Message("far", "/x", body(51)));
    std::thread t1([&] { tell(root, "/a", 1); tell(root, "/a", 2); });
    fz::inject(k, {"A", m});
    if(mc_choose(2, "stopped first")) p->Stop();
    else { p->Stop(); if(mc_choose(2, "busy")) pause_ms(3); }
    p->Deinitialize();
    size_t sent;
    { McQuiet q; sent = o->sent.size(); }
    clean();
    if(mc_choose(2, "again")) p->Deinitialize();
    p = nullptr;
    tell(root, "/a", 101);
    t1.join();
    settle();
    run.stop();
    std::vector<Message> out = outgoing(o, "link");
    McQuiet q;
    MC_CHECK(o->sent.size() == sent, "link-down", "a message was sent after the link was taken down");
    std::vector<int> got = numbers(out), in = numbers(seen.m);
    for(int n : got) MC_CHECK((n == 1 || n == 2) && std::count(got.begin(), got.end(), n) == 1, "link-out", "message %d was sent %d times", n, (int)std::count(got.begin(), got.end(), n));
    if(std::find(in.begin(), in.end(), 51) != in.end()) same_numbers(in, {1, 2, 51, 101}, "link-down", "local bus");
    else same_numbers(in, {1, 2, 101}, "link-down", "local bus");
    mc_outcome((text(got) + " | " + text(in)).c_str());
  }
  // what is opened for which configuration
  void link_config()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    Datagram d;
    std::set<std::string> want;
    int sv = mc_choose(6, "server"), cl = mc_choose(6, "client");
    auto num = [](int k, int own, int dflt) { return std::to_string(k & own ? 7000 + own : dflt); };
    if(sv == 1) { d["server-role"]["enabled"] = false; d["server-role"]["port-pub"] = 1; }
    if(sv >= 2) { d["server-role"]["enabled"] = true; want.insert("1 bind tcp://" + std::string(sv == 4 || sv == 5 ? "10.0.0.7" : "*") + ":" + (sv == 3 || sv == 5 ? "7001" : "6967")); want.insert("2 bind tcp://" + std::string(sv == 4 || sv == 5 ? "10.0.0.7" : "*") + ":" + (sv == 5 ? "7002" : "6968")); }
    if(sv == 3 || sv == 5) d["server-role"]["port-pub"] = 7001;
    if(sv == 5) d["server-role"]["port-sub"] = 7002;
    if(sv == 4 || sv == 5) d["server-role"]["interface"] = std::string("10.0.0.7");
    if(cl == 1) { d["client-role"]["enabled"] = false; d["client-role"]["server-host"] = std::string("h"); }
    if(cl >= 2) { d["client-role"]["enabled"] = true; want.insert("1 connect tcp://" + std::string(cl == 4 || cl == 5 ? "host.example" : "127.0.0.1") + ":" + (cl == 5 ? "7004" : "6968")); want.insert("2 connect tcp://" + std::string(cl == 4 || cl == 5 ? "host.example" : "127.0.0.1") + ":" + (cl == 3 || cl == 5 ? "7008" : "6967")); }
    if(cl == 3 || cl == 5) d["client-role"]["port-sub"] = 7008;
    if(cl == 5) d["client-role"]["port-pub"] = 7004;
    if(cl == 4 || cl == 5) d["client-role"]["server-host"] = std::string("host.example");
    PlugPtr p = link(root, "Link0", d);
    p->Initialize();
    {
      McQuiet q;
      std::set<std::string> got;
      for(fz::Socket* s : fz::all) for(auto& a : s->at) got.insert((s->type == ZMQ_PUB ? "1 " : "2 ") + a);
      std::string g, w;
      for(auto& x : got) g += x + "; ";
      for(auto& x : want) w += x + "; ";
      MC_CHECK(got == want, "link-config", "opened (1=PUB, 2=SUB) %s expected %s", g.c_str(), w.c_str());
      for(fz::Socket* s : fz::all) if(s->type == ZMQ_SUB) { bool f = false; for(auto& x : s->filters) if(std::string("A").compare(0, x.size(), x) == 0) f = true; MC_CHECK(f, "link-config", "a SUB socket does not subscribe to what links send"); }
    }
    p->Start();
    pause_ms(2);
    unload(p);
  }
  // one ZMQ call fails while the link starts up
  void link_faults()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = link(root, "Link0", roles(true, true));
    Seen seen;
    SubPtr s = watch(root, seen, 1);
    { McQuiet q; fz::failAt = 1 + mc_choose(11, "failing call"); }
    p->Initialize();
    Runner run(root);
    p->Start();
    tell(root, "/a", 1);
    fz::Socket *a = nullptr, *b = nullptr, *ap = nullptr, *bp = nullptr;
    {
      McQuiet q;
      for(fz::Socket* k : fz::all) for(auto& x : k->at) { std::string port = fz::port_of(x); bool bind = x[0] == 'b'; if(k->failing) continue; if(k->type == ZMQ_SUB) (bind ? a : b) = k; else (bind ? ap : bp) = k; }
    }
    std::vector<int> want{1};
    if(a) { fz::inject(a, {"A", to_bytes(Message("far", "/x", body(51)))}); want.push_back(51); }
    if(b) { fz::inject(b, {"A", to_bytes(Message("far", "/x", body(52)))}); want.push_back(52); }
    pause_ms(6);
    tell(root, "/a", 2);
    want.push_back(2);
    pause_ms(3);
    p->Stop();
    run.stop();
    {
      McQuiet q;
      MC_CHECK(!fz::failed.empty() || fz::calls < fz::failAt, "harness", "no call failed");
      std::vector<int> got = numbers(seen.m);
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      MC_CHECK(got == want, "link-fault", "%s fails: the local bus saw [%s] instead of [%s]", fz::failed.c_str(), text(got).c_str(), text(want).c_str());
    }
    for(fz::Socket* k : {ap, bp}) if(k) { std::vector<Message> out = outgoing(k, "link"); same_numbers(numbers(out), {1, 2}, "link-fault", "a role that works"); }
    unload(p);
    mc_outcome(fz::failed.c_str());
  }

  // ------------------------------------------------------------------ SysInfo
  Datagram odd(int k)
  {
    Datagram d;
    switch(k)
    {
      case 0: break;
      case 1: d = 5; break;
      case 2: d = true; break;
      case 3: d = 0.5; break;
      case 4: d = std::string(""); break;
      case 5: d["a"]["b"] = 1; break;
      case 6: d.Add(std::make_shared<lp::messages::RawDatagram>(1)); break;
      case 7: d = RawDatagramType::Dictionary; break;
      case 8: d = RawDatagramType::List; break;
      case 9: d["x"]; break;
      case 10: d = std::string("a\0b", 3); break;
      default: d = std::string(5000, 'x'); break;
    }
    return d;
  }
  PlugPtr sysinfo(BusPtr root, bool send) { Datagram d; if(send) d["send-datagram"] = true; return make(sysinfo_CreateInstance, root, "SysInfo0", d); }
  void sys_datagrams()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = sysinfo(root, false);
    p->Initialize();
    SubPtr s = root->CreateSubscriber("/sysinfo", [](Datagram) { log_ev(EV_RECV, 1, 1); });
    std::shared_ptr<lp::bus::ActionConsumer> cons = root->CreateActionConsumer("/sysinfoaction");
    PubPtr pub = root->CreatePublisher("/sysinfo");
    Runner run(root);
    p->Start();
    int k = mc_choose(12, "datagram");
    std::thread t1([&] { pub->Publish(odd(k)); });
    Datagram r = cons->Request(odd(k), 100);
    t1.join();
    pub->Publish(Datagram(std::string("text")));
    Datagram r2 = cons->Request(numbered(1), 100);
    { McQuiet q; for(Datagram* d : {&r, &r2}) MC_CHECK(!d->IsEmpty() && *d == Datagram(std::string("This is the response message.")), "sysinfo-action", "the request was not answered with the response message"); }
    settle(50);
    expect_received(1, {1, 1}, "sysinfo", "other subscriber");
    p->Stop();
    p->Deinitialize();
    p = nullptr;
    run.stop();
  }
  void sys_send()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    bool send = mc_choose(2, "send-datagram");
    static const long JUMP[] = {0, 3600000, -3600000, 1500, -1500};
    long jump = JUMP[mc_choose(5, "wall clock set by")];
    PlugPtr p = sysinfo(root, send);
    p->Initialize();
    SubPtr s = root->CreateSubscriber("/sysinfo", [](Datagram d) { bool ok = d == Datagram(std::string("Hello Bus!")); log_ev(EV_RECV, 1, ok ? 1 : 0); });
    Runner run(root);
    p->Start();
    settle(1000);
    if(jump) mc_clock_jump(jump);
    settle(4000);
    if(send) expect_received(1, {1, 1, 1}, "sysinfo-send", "after 5 seconds"); else expect_received(1, {}, "sysinfo-send", "not enabled");
    p->Stop();
    p->Deinitialize();
    p = nullptr;
    int mark = log_ev(EV_MARK, 0, 0);
    settle(5000);
    run.stop();
    MC_CHECK(find_ev(EV_RECV, 1, 1, mark) < 0 || mark == 0, "sysinfo-send", "a datagram was published after the plugin was taken down");
  }
  void sys_down()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = sysinfo(root, mc_choose(2, "send-datagram"));
    p->Initialize();
    std::shared_ptr<lp::bus::ActionConsumer> cons = root->CreateActionConsumer("/sysinfoaction");
    PubPtr pub = root->CreatePublisher("/sysinfo");
    Runner run(root);
    p->Start();
    std::thread t1([&] {
      cons->RequestAsync(numbered(1), [](Datagram) { log_ev(EV_RECV, 1, 1); });
      pub->Publish(odd(5));
    });
    p->Stop();
    p->Deinitialize();
    p = nullptr;
    int mark = log_ev(EV_MARK, 0, 0);
    cons->RequestAsync(numbered(2), [](Datagram) { log_ev(EV_RECV, 1, 2); });
    pub->Publish(odd(4));
    t1.join();
    settle(150);
    Datagram r = cons->Request(numbered(3), 30);
    MC_CHECK(r.IsEmpty(), "sysinfo-down", "a request was answered after the plugin was deinitialized");
    run.stop();
    MC_CHECK(find_ev(EV_RECV, 1, 2, mark) < 0, "sysinfo-down", "a request was answered after the plugin was deinitialized");
    outcome_of({1});
  }

  // ------------------------------------------------------------------ growth
  // traffic over a link, broken frames and requests to SysInfo leave nothing behind
  void link_growth()
  {
    MuteCout mute;
    BusPtr root = std::make_shared<Bus>("root");
    PlugPtr p = link(root, "Link0", roles(true, true)), q = sysinfo(root, mc_choose(2, "greetings"));
    p->Initialize(); q->Initialize();
    int got = 0;
    SubPtr s = root->CreateSubscriber("/**/*", [&](Datagram) { McQuiet quiet; got++; });
    std::shared_ptr<lp::bus::ActionConsumer> cons = root->CreateActionConsumer("/sysinfoaction");
    Runner run(root);
    p->Start(); q->Start();
    std::string far, own, cut;
    { McQuiet quiet; far = to_bytes(Message("far", "/x", body(1))); own = to_bytes(Message("Link0/far", "/y", body(2))); cut = far.substr(0, far.size() / 2); }
    fz::Socket *a = sock(ZMQ_SUB, "6968"), *b = sock(ZMQ_SUB, "7967");
    int k = mc_choose(9, "activity");
    auto round = [&] {
      switch(k)
      {
        case 0: tell(root, "/a", 1); break;
        case 1: fz::inject(a, {"A", far}); break;
        case 2: fz::inject(b, {"A", own}); break;
        case 3: fz::inject(a, {"A", cut}); break;
        case 4: fz::inject(a, {"A"}); fz::inject(b, {"A", "", ""}); break;
        case 5: { Datagram r = cons->Request(numbered(1), 100); MC_CHECK(!r.IsEmpty(), "sysinfo-action", "no answer"); } break;
        case 6: root->Publish(Message("x", "/sysinfo", Datagram(std::string("text")))); break;
        case 7: root->Publish(Message("x", "/sysinfoaction/request", Datagram(7))); break;
        case 8: pause_ms(2000); break;
      }
      pause_ms(10);
    };
    if(k == 8) p->Stop();                       // its polling would fill the horizon
    long x[3];
    for(int i = 0; i < 4; i++) round();
    for(int j = 0; j < 3; j++) { { McQuiet quiet; for(fz::Socket* z : fz::all) z->sent.clear(); } x[j] = mc_heap_blocks(); if(j < 2) for(int i = 0; i < 9; i++) round(); }
    MC_CHECK(x[1] - x[0] < 9 || x[2] - x[1] < 9, "growth", "activity %d: 9 rounds left %ld heap blocks behind, 9 more %ld", k, x[1] - x[0], x[2] - x[1]);
    p->Stop(); q->Stop(); q->Deinitialize(); q = nullptr;
    run.stop();
    unload(p);
    mc_outcome("ok");
  }
}

static const mc_scenario S[] = {
  {"link_out", link_out, 1, 2, 0, "server/client/both roles; publications from the root, a child and the link's own bus, one that came through the link"},
  {"link_senders", link_senders, 0, 1, 0, "15 sender names and 8 topics, both roles"},
  {"link_in", link_in, 1, 2, 0, "3 messages in 1 to 4 parts on both roles, next to a local publication"},
  {"link_pair", link_pair, 0, 1, 0, "two applications with equally named links, publications on both sides"},
  {"link_pair_other", link_pair_other, 0, 1, 0, "two applications with differently named links"},
  {"link_sizes", link_sizes, 0, 0, 0, "messages, topics and senders of 30 sizes up to 70001 bytes, 28 numbers of messages and of parts up to 513, both roles and directions"},
  {"link_action", link_action, 0, 1, 0, "blocking and asynchronous requests across a link"},
  {"link_bad", link_bad, 0, 1, 0, "12 malformed messages between good ones, both roles"},
  {"link_truncated", link_truncated, 0, 0, 0, "every truncation of a message between good ones"},
  {"link_restart", link_restart, 1, 2, 0, "the link's worker is stopped and started with traffic"},
  {"link_shutdown", link_shutdown, 1, 2, 0, "the link is taken down with traffic in both directions"},
  {"link_config", link_config, 0, 0, 0, "36 combinations of role configurations"},
  {"link_growth", link_growth, 0, 1, 0, "9 activities of the plugins, 22 rounds each: heap balance"},
  {"link_faults", link_faults, 0, 1, 0, "each of the ZMQ calls during start-up fails"},
  {"sys_datagrams", sys_datagrams, 0, 1, 0, "12 kinds of datagrams on both SysInfo topics, concurrently"},
  {"sys_send", sys_send, 1, 2, 0, "SysInfo runs for 5 seconds with and without send-datagram; the wall clock is left alone or set by +-1 h, +-1.5 s"},
  {"sys_down", sys_down, 1, 2, 0, "SysInfo is taken down while requests and datagrams come in"},
};

int main(int argc, char** argv) { return mc_main(argc, argv, S, sizeof S / sizeof *S); }
